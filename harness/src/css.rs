//! What the style sheet of an HTML receipt makes of the classes of a text: a small evaluator of
//! the cascade for `p > span` with the properties that carry the styles of the text.
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

struct Rule { sel: Vec<Compound>, spec: (usize, usize), decls: Vec<(String, String, bool)> }
#[derive(Default)]
struct Compound { tag: Option<String>, classes: Vec<String>, not: Vec<String>, never: bool, child: bool }

fn strip_comments(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("/*") { o.push_str(&rest[..i]); rest = rest[i..].find("*/").map(|k| &rest[i + k + 2..]).unwrap_or(""); }
    o + rest
}

fn compound(s: &str) -> Compound {
    let mut c = Compound::default();
    let mut s = s;
    let ident = |s: &str| s.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '-' || *c == '_').collect::<String>();
    while !s.is_empty() {
        if let Some(r) = s.strip_prefix('.') { let n = ident(r); s = &r[n.len()..]; c.classes.push(n); }
        else if let Some(r) = s.strip_prefix(":not(.") { let n = ident(r); s = r[n.len()..].strip_prefix(')').unwrap_or(""); c.not.push(n); }
        else if let Some(r) = s.strip_prefix('*') { s = r; }
        else { let n = ident(s); if n.is_empty() || s.starts_with(':') { c.never = true; break; } s = &s[n.len()..]; c.tag = Some(n.to_ascii_lowercase()); }
    }
    c
}

fn selector(s: &str) -> Vec<Compound> {
    let s = s.replace('>', " > ");
    let mut v: Vec<Compound> = vec![];
    let mut child = false;
    for part in s.split_whitespace() {
        if part == ">" { child = true; continue; }
        let mut c = compound(part);
        c.child = child; child = false;
        v.push(c);
    }
    v
}

fn rules(css: &str) -> Vec<Rule> {
    let css = strip_comments(css);
    let mut v = vec![];
    let mut rest = css.as_str();
    while let Some(i) = rest.find('{') {
        let sel = rest[..i].trim();
        // the matching brace
        let mut depth = 0;
        let Some(e) = rest[i..].char_indices().find(|(_, c)| { if *c == '{' { depth += 1 } else if *c == '}' { depth -= 1 } depth == 0 }).map(|x| x.0) else { break };
        let body = &rest[i + 1..i + e];
        rest = &rest[i + e + 1..];
        if sel.starts_with('@') { continue; }
        for s in sel.split(',') {
            let sel = selector(s.trim());
            let spec = (sel.iter().map(|c| c.classes.len() + c.not.len()).sum(), sel.iter().filter(|c| c.tag.is_some()).count());
            let decls = body.split(';').filter_map(|d| d.split_once(':')).map(|(a, b)| {
                let imp = b.contains("!important");
                (a.trim().to_string(), b.replace("!important", "").trim().to_string(), imp)
            }).collect();
            v.push(Rule { sel, spec, decls });
        }
    }
    v
}

const CHAIN: [&str; 6] = ["html", "body", "main", "section", "article", "p"];

fn applies(c: &Compound, tag: &str, classes: &BTreeSet<String>) -> bool {
    !c.never && c.tag.as_deref().map_or(true, |t| t == tag) && c.classes.iter().all(|k| classes.contains(k)) && !c.not.iter().any(|k| classes.contains(k))
}

fn above(sel: &[Compound], chain: &[&str], child: bool) -> bool {
    let Some((last, more)) = sel.split_last() else { return true };
    let none = BTreeSet::new();
    for i in (0..chain.len()).rev() {
        if applies(last, chain[i], &none) && above(more, &chain[..i], last.child) { return true; }
        if child { break; }
    }
    false
}

fn matches(sel: &[Compound], chain: &[&str], tag: &str, classes: &BTreeSet<String>) -> bool {
    let Some((last, more)) = sel.split_last() else { return false };
    applies(last, tag, classes) && above(more, chain, last.child)
}

fn cascade(rules: &[Rule], classes: &BTreeSet<String>) -> HashMap<String, String> {
    let mut out = HashMap::new();
    let none = BTreeSet::new();
    for d in 0..=CHAIN.len() {
        let (tag, classes) = if d < CHAIN.len() { (CHAIN[d], &none) } else { ("span", classes) };
        let mut best: HashMap<&str, ((bool, (usize, usize), usize), &str)> = HashMap::new();
        for (n, r) in rules.iter().enumerate() {
            if !matches(&r.sel, &CHAIN[..d.min(CHAIN.len())], tag, classes) { continue; }
            for (k, v, imp) in &r.decls {
                // both names set the lines of the text
                let k = if k == "text-decoration-line" { "text-decoration" } else { k.as_str() };
                let at = (*imp, r.spec, n);
                if best.get(k).map_or(true, |b| b.0 <= at) { best.insert(k, (at, v)); }
            }
        }
        for (k, (_, v)) in best {
            let inherited = k.starts_with("--") || ["font-weight", "font-style", "color", "white-space", "visibility"].contains(&k);
            if d == CHAIN.len() || inherited { out.insert(k.to_string(), v.to_string()); }
        }
    }
    out
}

/// Replaces var(--name, default).
fn vars(v: &str, props: &HashMap<String, String>, depth: usize) -> Option<String> {
    let Some(i) = v.find("var(") else { return Some(v.to_string()) };
    if depth > 20 { return None; }
    let mut n = 0;
    let e = v[i..].char_indices().find(|(_, c)| { if *c == '(' { n += 1 } else if *c == ')' { n -= 1; return n == 0 } false })?.0;
    let (name, default) = match v[i + 4..i + e].split_once(',') { Some((a, b)) => (a.trim(), Some(b.trim())), None => (v[i + 4..i + e].trim(), None) };
    let value = props.get(name).map(|s| s.as_str()).or(default)?;
    vars(&format!("{}{}{}", &v[..i], value, &v[i + e + 1..]), props, depth + 1)
}

/// A number, or a calc() of numbers.
fn number(s: &str) -> Option<f64> {
    fn sum(t: &mut std::iter::Peekable<std::vec::IntoIter<char>>) -> Option<f64> {
        let mut a = product(t)?;
        loop { match t.peek() { Some('+') => { t.next(); a += product(t)?; } Some('-') => { t.next(); a -= product(t)?; } _ => return Some(a) } }
    }
    fn product(t: &mut std::iter::Peekable<std::vec::IntoIter<char>>) -> Option<f64> {
        let mut a = atom(t)?;
        loop { match t.peek() { Some('*') => { t.next(); a *= atom(t)?; } Some('/') => { t.next(); a /= atom(t)?; } _ => return Some(a) } }
    }
    fn atom(t: &mut std::iter::Peekable<std::vec::IntoIter<char>>) -> Option<f64> {
        match t.peek()? {
            '(' => { t.next(); let a = sum(t)?; if t.next()? != ')' { return None; } Some(a) }
            '-' => { t.next(); Some(-atom(t)?) }
            '+' => { t.next(); atom(t) }
            _ => { let mut n = String::new(); while let Some(c) = t.peek() { if c.is_ascii_digit() || *c == '.' { n.push(*c); t.next(); } else { break; } } n.parse().ok() }
        }
    }
    let t: String = s.replace("calc", "").chars().filter(|c| !c.is_whitespace()).collect();
    let mut t = t.chars().collect::<Vec<_>>().into_iter().peekable();
    let a = sum(&mut t)?;
    if t.next().is_some() { None } else { Some(a) }
}

/// A length as a part of the box; None: not understood.
fn part(s: &str) -> Option<f64> {
    if let Some(p) = s.strip_suffix('%') { return number(p).map(|x| x / 100.0); }
    match number(s.trim_end_matches("px").trim_end_matches("em")) { Some(x) if x == 0.0 => Some(0.0), _ => None }
}

/// (scale, offset) in x and in y of a list of transform functions.
fn transform(s: &str) -> Option<((f64, f64), (f64, f64))> {
    let (mut x, mut y) = ((1.0, 0.0), (1.0, 0.0));
    let mut rest = s.trim();
    if rest == "none" { return Some((x, y)); }
    while !rest.is_empty() {
        let i = rest.find('(')?;
        let name = rest[..i].trim();
        let mut n = 0;
        let e = rest.char_indices().find(|(_, c)| { if *c == '(' { n += 1 } else if *c == ')' { n -= 1; return n == 0 } false })?.0;
        let args: Vec<&str> = rest[i + 1..e].split(',').map(|a| a.trim()).collect();
        rest = rest[e + 1..].trim();
        let scale = |p: &mut (f64, f64), k: f64| p.0 *= k;
        let shift = |p: &mut (f64, f64), d: f64| p.1 += p.0 * d;
        match (name.to_ascii_lowercase().as_str(), args.len()) {
            ("scale", 1) => { let k = number(args[0])?; scale(&mut x, k); scale(&mut y, k); }
            ("scale", 2) => { scale(&mut x, number(args[0])?); scale(&mut y, number(args[1])?); }
            ("scalex", 1) => scale(&mut x, number(args[0])?),
            ("scaley", 1) => scale(&mut y, number(args[0])?),
            ("translate", 1) => shift(&mut x, part(args[0])?),
            ("translate", 2) => { shift(&mut x, part(args[0])?); shift(&mut y, part(args[1])?); }
            ("translatex", 1) => shift(&mut x, part(args[0])?),
            ("translatey", 1) => shift(&mut y, part(args[0])?),
            ("rotatex", 1) if args[0] == "180deg" => scale(&mut y, -1.0),
            _ => return None,
        }
    }
    Some((x, y))
}

fn origin(s: Option<&String>) -> Option<(f64, f64)> {
    let Some(s) = s else { return Some((0.5, 0.5)) };
    let w: Vec<&str> = s.split_whitespace().collect();
    let word = |w: &str| match w { "left" | "top" => Some(0.0), "right" | "bottom" => Some(1.0), "center" => Some(0.5), p => part(p) };
    match w.len() {
        1 if ["top", "bottom"].contains(&w[0]) => Some((0.5, word(w[0])?)),
        1 => Some((word(w[0])?, 0.5)),
        2 | 3 if ["top", "bottom"].contains(&w[0]) || ["left", "right"].contains(&w[1]) => Some((word(w[1])?, word(w[0])?)),
        2 | 3 => Some((word(w[0])?, word(w[1])?)),
        _ => None,
    }
}

/// None: not understood. Fully transparent colours are the same.
fn colour(s: &str) -> Option<(u8, u8, u8, u8)> {
    let s = s.trim().to_ascii_lowercase();
    let hex = |s: &str| u8::from_str_radix(s, 16).ok();
    let c = if let Some(h) = s.strip_prefix('#') {
        if !h.is_ascii() { return None; }
        match h.len() {
            3 | 4 => { let d = |i: usize| hex(&h[i..i + 1]).map(|x| x * 17); (d(0)?, d(1)?, d(2)?, if h.len() == 4 { d(3)? } else { 255 }) }
            6 | 8 => { let d = |i: usize| hex(&h[2 * i..2 * i + 2]); (d(0)?, d(1)?, d(2)?, if h.len() == 8 { d(3)? } else { 255 }) }
            _ => return None,
        }
    } else if let Some(a) = s.strip_prefix("rgb(").or(s.strip_prefix("rgba(")) {
        let n: Vec<f64> = a.trim_end_matches(')').split([',', ' ', '/']).filter(|x| !x.is_empty()).map(|x| x.parse()).collect::<Result<_, _>>().ok()?;
        if n.len() < 3 { return None; }
        (n[0] as u8, n[1] as u8, n[2] as u8, n.get(3).map_or(255, |a| (a * 255.0) as u8))
    } else { match s.as_str() { "black" => (0, 0, 0, 255), "white" => (255, 255, 255, 255), "" | "transparent" | "none" | "initial" => (0, 0, 0, 0), _ => return None } };
    Some(if c.3 == 0 { (0, 0, 0, 0) } else { c })
}

fn judge(rules: &[Rule], classes: &BTreeSet<String>) -> Result<bool, String> {
    let p = cascade(rules, classes);
    let has = |c: &str| classes.contains(c);
    let get = |k: &str| p.get(k).and_then(|v| vars(v, &p, 0)).unwrap_or_default().to_ascii_lowercase();
    let bold = { let w = get("font-weight"); w == "bold" || w == "bolder" || w.parse::<u32>().map_or(false, |n| n >= 600) };
    if bold != has("b") { return Err(format!("text of the classes {:?} is shown {}", classes, if bold { "bold" } else { "not bold" })); }
    let italic = { let s = get("font-style"); s == "italic" || s.starts_with("oblique") };
    if italic != has("i") { return Err(format!("text of the classes {:?} is shown {}", classes, if italic { "italic" } else { "upright" })); }
    let lines = get("text-decoration");
    for (c, l) in [("u", "underline"), ("s", "line-through")] {
        if lines.contains(l) != has(c) { return Err(format!("text of the classes {:?} is shown with the decoration {:?}", classes, lines)); }
    }
    for (c, prop, or) in [("fg_", "color", crate::html::COLORS[1]), ("bg_", "background-color", "transparent")] {
        let want = classes.iter().filter_map(|k| k.strip_prefix(c)).filter_map(|k| k.parse::<usize>().ok()).next().and_then(|i| crate::html::COLORS.get(i)).copied().unwrap_or(or);
        let (Some(a), Some(b)) = (colour(&get(prop)), colour(want)) else { continue };
        if a != b { return Err(format!("text of the classes {:?} has the {} {:?}, expected {}", classes, prop, get(prop), want)); }
    }
    if !["pre", "pre-wrap", "break-spaces"].contains(&get("white-space").as_str()) { return Err(format!("text of the classes {:?} doesn't keep its blanks: white-space {:?}", classes, get("white-space"))); }
    if get("position") != "absolute" { return Err(format!("text of the classes {:?} isn't where it was placed: position {:?}", classes, get("position"))); }
    if get("display") == "none" || get("visibility") == "hidden" { return Err(format!("text of the classes {:?} isn't shown", classes)); }
    let scale = |c: char| classes.iter().filter_map(|k| k.strip_prefix(c)).filter_map(|k| k.parse::<f64>().ok()).next().unwrap_or(1.0);
    let (w, h) = (scale('w'), scale('h'));
    // properties and values this evaluator doesn't know are left alone
    if ["scale", "rotate", "translate", "zoom"].iter().any(|k| p.contains_key(*k)) { return Ok(false); }
    let Some(t) = p.get("transform").map_or(Some("none".to_string()), |t| vars(t, &p, 0)) else { return Ok(false) };
    let (Some((x, y)), Some(o)) = (transform(&t), origin(p.get("transform-origin"))) else { return Ok(false) };
    let at = |f: (f64, f64), o: f64, p: f64| o + f.0 * (p - o) + f.1;
    let got = [at(x, o.0, 0.0), at(x, o.0, 1.0), at(y, o.1, 0.0), at(y, o.1, 1.0)];
    let want = if has("upd") { [0.0, w, h, 0.0] } else { [0.0, w, 0.0, h] };
    if got.iter().zip(&want).any(|(a, b)| (a - b).abs() > 1e-6) {
        return Err(format!("text of the classes {:?} spans {:?} of its width and {:?} of its height, expected {:?} and {:?}", classes, &got[..2], &got[2..], &want[..2], &want[2..]));
    }
    Ok(true)
}

struct Known { css: String, rules: Vec<Rule>, seen: HashMap<BTreeSet<String>, Rc<Result<bool, String>>> }
thread_local! { static KNOWN: RefCell<Option<Known>> = RefCell::new(None); static COUNT: RefCell<(u64, u64)> = RefCell::new((0, 0)); }

/// Texts judged by the style sheet since the last call, and those whose transform wasn't understood.
pub fn counts() -> (u64, u64) { COUNT.with(|c| c.take()) }

/// Checks that a text of these classes is shown with the styles they stand for.
pub fn shown(css: &str, classes: &BTreeSet<String>) -> Result<(), String> {
    let all = known(css, classes)?;
    COUNT.with(|c| { let mut c = c.borrow_mut(); c.0 += 1; if !all { c.1 += 1; } });
    Ok(())
}
/// Ok(false): the transform is not understood.
fn known(css: &str, classes: &BTreeSet<String>) -> Result<bool, String> {
    KNOWN.with(|k| {
        let mut k = k.borrow_mut();
        if k.as_ref().map_or(true, |k| k.css != css) { *k = Some(Known { css: css.to_string(), rules: rules(css), seen: HashMap::new() }); }
        let k = k.as_mut().unwrap();
        if let Some(r) = k.seen.get(classes) { return (**r).clone(); }
        let r = judge(&k.rules, classes);
        k.seen.insert(classes.clone(), Rc::new(r.clone()));
        r
    })
}
