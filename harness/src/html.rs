//! Reads an HTML receipt back and compares it with the event log of the layout.
use crate::cmp::merge_bars;
use crate::paint::Painted;
use crate::rec::{Ev, Rgba, Span};
use base64::Engine;
use std::collections::BTreeSet;
use thermal_parser::context::Font;

#[derive(Debug)]
enum Tok { Open(String, Vec<(String, String)>, bool), Close(String), Text(String) }

fn unescape(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut it = s.char_indices();
    while let Some((i, c)) = it.next() {
        if c != '&' { o.push(c); continue; }
        let e = s[i..].find(';').ok_or("a bare & in the text")?;
        let name = &s[i + 1..i + e];
        let ch = match name {
            "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'', "nbsp" => '\u{a0}',
            _ => {
                let n = name.strip_prefix('#').ok_or(format!("unknown entity &{};", name))?;
                let v = match n.strip_prefix(['x', 'X']) { Some(h) => u32::from_str_radix(h, 16), None => n.parse() }.map_err(|_| format!("bad entity &{};", name))?;
                char::from_u32(v).ok_or(format!("bad entity &{};", name))?
            }
        };
        o.push(ch);
        for _ in 0..name.chars().count() + 1 { it.next(); }
    }
    Ok(o)
}

fn tokens(s: &str) -> Result<Vec<Tok>, String> {
    let mut v = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'<' {
            let e = s[i..].find('<').map(|k| i + k).unwrap_or(b.len());
            v.push(Tok::Text(unescape(&s[i..e])?));
            i = e;
            continue;
        }
        if s[i..].starts_with("<!--") { i += s[i..].find("-->").ok_or("open comment")? + 3; continue; }
        if s[i..].starts_with("<!") { i += s[i..].find('>').ok_or("open declaration")? + 1; continue; }
        if s[i..].starts_with("</") {
            let e = s[i..].find('>').ok_or("open end tag")?;
            let name = s[i + 2..i + e].trim().to_ascii_lowercase();
            if name.is_empty() || !name.bytes().all(|c| c.is_ascii_alphanumeric()) { return Err(format!("bad end tag {:?}", name)); }
            v.push(Tok::Close(name));
            i += e + 1;
            continue;
        }
        // start tag
        i += 1;
        let n = b[i..].iter().position(|c| !c.is_ascii_alphanumeric()).ok_or("open tag")?;
        if n == 0 { return Err(format!("markup that isn't a tag: {:?}", &s[i - 1..].chars().take(30).collect::<String>())); }
        let name = s[i..i + n].to_ascii_lowercase();
        i += n;
        let mut at = vec![];
        let mut selfclose = false;
        loop {
            while i < b.len() && b[i].is_ascii_whitespace() { i += 1; }
            if i >= b.len() { return Err(format!("<{} is never closed", name)); }
            if b[i] == b'>' { i += 1; break; }
            if b[i] == b'/' { selfclose = true; i += 1; continue; }
            let n = b[i..].iter().position(|c| !(c.is_ascii_alphanumeric() || *c == b'-' || *c == b':')).ok_or("open attribute")?;
            if n == 0 { return Err(format!("unexpected {:?} in <{}>", b[i] as char, name)); }
            let key = s[i..i + n].to_ascii_lowercase();
            i += n;
            let mut val = String::new();
            if i < b.len() && b[i] == b'=' {
                i += 1;
                let q = *b.get(i).ok_or("open attribute")?;
                if q != b'\'' && q != b'"' { return Err(format!("unquoted attribute {}", key)); }
                let e = s[i + 1..].find(q as char).ok_or("open attribute value")?;
                val = unescape(&s[i + 1..i + 1 + e])?;
                i += e + 2;
            }
            if at.iter().any(|(k, _)| *k == key) { return Err(format!("attribute {} given twice in <{}>", key, name)); }
            at.push((key, val));
        }
        let raw = name == "style" || name == "script" || name == "title";
        v.push(Tok::Open(name.clone(), at, selfclose));
        if raw && !selfclose {
            let e = s[i..].find(&format!("</{}", name)).ok_or(format!("open <{}>", name))?;
            v.push(Tok::Text(s[i..i + e].to_string()));
            i += e;
        }
    }
    Ok(v)
}

#[derive(Debug)]
pub struct Node { name: String, at: Vec<(String, String)>, kids: Vec<Kid> }
#[derive(Debug)]
enum Kid { N(Node), T(String) }
impl Node {
    fn get(&self, k: &str) -> Option<&str> { self.at.iter().find(|a| a.0 == k).map(|a| a.1.as_str()) }
    fn css(&self, k: &str) -> Option<i64> {
        for p in self.get("style")?.split(';') {
            if let Some((a, b)) = p.split_once(':') { if a.trim() == k { return b.trim().trim_end_matches("px").parse::<f64>().ok().map(|x| x as i64); } }
        }
        None
    }
    fn nodes(&self) -> impl Iterator<Item = &Node> { self.kids.iter().filter_map(|k| if let Kid::N(n) = k { Some(n) } else { None }) }
    fn find(&self, name: &str) -> Option<&Node> {
        for n in self.nodes() { if n.name == name { return Some(n); } if let Some(x) = n.find(name) { return Some(x); } }
        None
    }
    fn text(&self) -> String { self.kids.iter().map(|k| match k { Kid::T(t) => t.clone(), Kid::N(n) => n.text() }).collect() }
}

fn tree(s: &str) -> Result<Node, String> {
    let mut stack = vec![Node { name: String::new(), at: vec![], kids: vec![] }];
    for t in tokens(s)? {
        match t {
            Tok::Open(name, at, sc) => {
                let n = Node { name: name.clone(), at, kids: vec![] };
                if sc || ["meta", "img", "br", "link", "hr"].contains(&name.as_str()) { stack.last_mut().unwrap().kids.push(Kid::N(n)); } else { stack.push(n); }
            }
            Tok::Close(name) => {
                let n = stack.pop().unwrap();
                if n.name != name || stack.is_empty() { return Err(format!("</{}> closes <{}>", name, n.name)); }
                stack.last_mut().unwrap().kids.push(Kid::N(n));
            }
            Tok::Text(t) => stack.last_mut().unwrap().kids.push(Kid::T(t)),
        }
    }
    if stack.len() != 1 { return Err(format!("<{}> is never closed", stack.last().unwrap().name)); }
    Ok(stack.pop().unwrap())
}

#[derive(Debug, PartialEq)]
enum El {
    Span { x: i64, y: i64, class: BTreeSet<String>, text: String },
    Img { x: i64, y: i64, w: u32, h: u32, px: Vec<Rgba> },
    Svg { rects: Vec<(u32, u32, u32, u32)> },
}

pub struct Doc { els: Vec<El>, end: i64, page: (i64, i64), css: String }

fn png(b64: &str) -> Result<(u32, u32, Vec<Rgba>), String> {
    let t: String = b64.chars().filter(|c| !c.is_whitespace() && *c != '=').collect();
    let d = base64::engine::general_purpose::STANDARD_NO_PAD.decode(t).map_err(|e| format!("image data is not base64: {}", e))?;
    let mut r = png::Decoder::new(&d[..]).read_info().map_err(|e| format!("image is not a PNG: {}", e))?;
    let mut b = vec![0; r.output_buffer_size()];
    let i = r.next_frame(&mut b).map_err(|e| format!("image is not a complete PNG: {}", e))?;
    let px = match i.color_type {
        png::ColorType::Rgba => b.chunks(4).map(|c| (c[0], c[1], c[2], c[3])).collect(),
        png::ColorType::Rgb => b.chunks(3).map(|c| (c[0], c[1], c[2], 255)).collect(),
        png::ColorType::Grayscale => b.iter().map(|c| (*c, *c, *c, 255)).collect(),
        png::ColorType::GrayscaleAlpha => b.chunks(2).map(|c| (c[0], c[0], c[0], c[1])).collect(),
        _ => return Err("indexed PNG".into()),
    };
    Ok((i.width, i.height, px))
}

pub fn parse(s: &str) -> Result<Doc, String> {
    let root = tree(s)?;
    let html = root.nodes().find(|n| n.name == "html").ok_or("no <html>")?;
    let css = html.find("style").map(|n| n.text()).unwrap_or_default();
    let section = html.find("section").ok_or("no <section>")?;
    let article = section.find("article").ok_or("no <article>")?;
    let mut els = vec![];
    let mut y = 0i64;
    for k in &article.kids {
        let p = match k { Kid::T(t) if t.trim().is_empty() => continue, Kid::T(t) => return Err(format!("text {:?} outside of a row", t)), Kid::N(n) => n };
        if p.name != "p" { return Err(format!("<{}> in place of a row", p.name)); }
        y += p.css("margin-top").ok_or("row without margin-top")?;
        let h = p.css("height").ok_or("row without height")?;
        for k in &p.kids {
            let n = match k { Kid::T(t) if t.trim().is_empty() => continue, Kid::T(t) => return Err(format!("text {:?} outside of a span", t)), Kid::N(n) => n };
            let x = n.css("left").ok_or("element without left")?;
            match n.name.as_str() {
                "span" => {
                    if n.nodes().next().is_some() { return Err(format!("markup in the text {:?}", n)); }
                    let class = n.get("class").unwrap_or("").split_whitespace().map(|c| c.to_string()).collect();
                    els.push(El::Span { x, y: y + n.css("top").unwrap_or(0), class, text: n.text() });
                }
                "img" => {
                    let (w, hh, px) = png(n.get("src").and_then(|s| s.strip_prefix("data:image/png;base64,")).ok_or("image without PNG data")?)?;
                    if n.get("width") != Some(&w.to_string()) { return Err(format!("image of {} dots is shown {:?} wide", w, n.get("width"))); }
                    if h != hh as i64 { return Err(format!("image of {} rows in a row of {}", hh, h)); }
                    els.push(El::Img { x, y, w, h: hh, px });
                }
                "svg" => {
                    let num = |n: &Node, k: &str| n.get(k).and_then(|v| v.parse::<u32>().ok()).ok_or(format!("{} of <{}> is {:?}", k, n.name, n.get(k)));
                    let (sw, sh) = (num(n, "width")?, num(n, "height")?);
                    let mut rects = vec![];
                    for r in n.nodes() {
                        if r.name != "rect" { return Err(format!("<{}> in a symbol", r.name)); }
                        if !matches!(r.get("fill"), Some("black") | Some("#000") | Some("#000000")) { return Err(format!("bar filled {:?}", r.get("fill"))); }
                        let q = (num(r, "x")?, num(r, "y")?, num(r, "width")?, num(r, "height")?);
                        if q.0 + q.2 > sw || q.1 + q.3 > sh { return Err(format!("bar {:?} outside of its symbol of {}x{}", q, sw, sh)); }
                        rects.push(((q.0 as i64 + x) as u32, (q.1 as i64 + y) as u32, q.2, q.3));
                    }
                    if h < sh as i64 { return Err(format!("symbol of {} rows in a row of {}", sh, h)); }
                    els.push(El::Svg { rects: merge_bars(&rects) });
                }
                _ => return Err(format!("<{}> in a row", n.name)),
            }
        }
        y += h;
    }
    let page = (section.css("width").ok_or("section without width")?, section.css("padding-left").unwrap_or(0));
    Ok(Doc { els, end: y + section.css("padding-bottom").unwrap_or(0), page, css })
}

fn classes(s: &Span) -> BTreeSet<String> {
    let mut c = BTreeSet::new();
    let mut add = |x: &str| { c.insert(x.to_string()); };
    let (w, h) = (s.cw / s.bcw, s.ch / s.bch);
    if s.bold { add("b"); }
    if s.italic { add("i"); }
    if s.strike > 0 { add("s"); }
    if s.strike > 1 { add("sd"); }
    if w > 1 { add(&format!("w{}", w)); }
    if h > 1 { add(&format!("h{}", h)); }
    if w > 1 || h > 1 { add("str"); }
    if s.underline > 0 { add("u"); }
    if s.underline > 1 { add("ud"); }
    if s.upside { add("upd"); }
    match s.font { Font::B => add("fb"), Font::C => add("fc"), _ => {} }
    // the default colours, black on paper, need no class
    match s.fg { (0, 0, 0, _) => {} (158, 22, 22, _) => add("fg_2"), (27, 57, 169, _) => add("fg_3"), _ => add("fg_0") }
    match s.bg { (0, 0, 0, _) => add("bg_1"), (158, 22, 22, _) => add("bg_2"), (27, 57, 169, _) => add("bg_3"), _ => {} }
    c
}

/// What every output of the job has to contain.
fn expected(log: &[Ev], painted: &Painted) -> Vec<(Vec<El>, i64, (i64, i64))> {
    let mut docs = vec![];
    let mut els = vec![];
    let mut pages = painted.pages.iter();
    for e in log {
        match e {
            Ev::Begin { .. } => els.clear(),
            Ev::Text { spans, x_offset, max_height, page: false, .. } => for s in spans {
                let (x, y, _, _) = s.dim.unwrap_or_default();
                let drop = (*max_height as f32 * 0.78 - s.ch as f32 * 0.78) as u32;
                els.push(El::Span { x: (x + x_offset) as i64, y: (y + drop) as i64, class: classes(s), text: s.text.clone() });
            },
            Ev::Image { img, page: false } => els.push(El::Img { x: img.x as i64, y: img.y as i64, w: img.w, h: img.h, px: img.px.clone() }),
            Ev::Rects { rects, page: false, .. } if !rects.is_empty() => els.push(El::Svg { rects: merge_bars(rects) }),
            Ev::PagePrint { x, y, .. } => if let Some(p) = pages.next() {
                if !p.px.is_empty() { els.push(El::Img { x: *x as i64, y: *y as i64, w: p.w, h: p.h, px: p.px.iter().map(|c| (c[0], c[1], c[2], 255)).collect() }); }
            },
            Ev::End { y, paper_w, margins, .. } => docs.push((std::mem::take(&mut els), *y as i64, (*paper_w as i64, margins.0 as i64))),
            _ => {}
        }
    }
    docs
}

fn kind(e: &El) -> String {
    match e {
        El::Span { x, y, class, text } => format!("text {:?} at {},{} {:?}", text, x, y, class),
        El::Img { x, y, w, h, .. } => format!("image of {}x{} at {},{}", w, h, x, y),
        El::Svg { rects } => format!("symbol of {} bars, first {:?}", rects.len(), rects.first()),
    }
}

pub const COLORS: [&str; 4] = ["#FFFFFF", "#000000", "#9E1616", "#1B39A9"];

/// Compares all HTML outputs of a job with its event log.
pub fn check(outputs: &[String], log: &[Ev], painted: &Painted) -> Result<u64, String> {
    let want = expected(log, painted);
    if outputs.len() != want.len() { return Err(format!("{} HTML receipts, expected {}", outputs.len(), want.len())); }
    let mut n = 0;
    for (o, (els, end, page)) in outputs.iter().zip(want) {
        let d = parse(o).map_err(|e| format!("HTML isn't well-formed: {}", e))?;
        let a: Vec<&El> = d.els.iter().filter(|e| !matches!(e, El::Span { text, .. } if text.is_empty())).collect();
        let b: Vec<&El> = els.iter().filter(|e| !matches!(e, El::Span { text, .. } if text.is_empty())).collect();
        for (x, y) in a.iter().zip(&b) {
            n += 1;
            if let El::Span { class, .. } = x { crate::css::shown(&d.css, class).map_err(|e| format!("HTML style sheet: {}", e))?; }
            if let (El::Img { x: ax, y: ay, w: aw, h: ah, px: ap }, El::Img { x: bx, y: by, w: bw, h: bh, px: bp }) = (x, y) {
                if (ax, ay, aw, ah) == (bx, by, bw, bh) {
                    if let Some(i) = (0..bp.len()).find(|i| ap[*i].3 != bp[*i].3 || (bp[*i].3 != 0 && ap[*i] != bp[*i])) {
                        return Err(format!("HTML image has {:?} at {},{}, expected {:?}", ap[i], i as u32 % aw, i as u32 / aw, bp[i]));
                    }
                    continue;
                }
            }
            if x != y {
                return Err(format!("HTML shows {}, expected {}", kind(x), kind(y)));
            }
        }
        if a.len() != b.len() { return Err(format!("HTML shows {} elements, expected {}: {}", a.len(), b.len(), kind(a.get(b.len()).or(b.get(a.len())).unwrap()))); }
        if d.page != page { return Err(format!("HTML paper has width and margin {:?}, expected {:?}", d.page, page)); }
        if d.end < end { return Err(format!("HTML paper is {} high, expected {}", d.end, end)); }
        if d.css.contains("{{") { return Err("HTML style has an open placeholder".into()); }
        for i in 0..4 {
            for c in ["fg", "bg"] { crate::css::shown(&d.css, &BTreeSet::from([format!("{}_{}", c, i)])).map_err(|e| format!("HTML style sheet: {}", e))?; }
        }
    }
    Ok(n)
}
