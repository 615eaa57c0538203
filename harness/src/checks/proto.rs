//! C21: the calls a renderer of one's own receives, and C22: debug marks.
use crate::core::*;
use crate::e2e;
use crate::gen::*;
use crate::grammar::{self, Kind};
use crate::paint;
use crate::rec::{self, Ev, Img};
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;
use thermal_parser::command::DeviceCommand as D;
use thermal_parser::context::{Context, Rotation, TextJustify};
use thermal_parser::graphics::{Image, VectorGraphic};
use thermal_parser::text::TextSpan;
use thermal_renderer::renderer::{DebugProfile, OutputRenderer, Renderer};

type Flags = (bool, bool, bool, bool);
fn flags(p: &DebugProfile) -> Flags { (p.text, p.image, p.page, p.info) }

/// The automaton of the calls. `faulty`: the renderer reports errors of its own.
#[derive(Default)]
struct Trace {
    wrong: Option<String>,
    profile: Option<Flags>,
    open: bool,
    /// a page was begun, its area was announced
    page: bool,
    area: bool,
    asked: bool,
    /// errors collected since the last time they were asked for
    own: u32,
    faulty: u32,
    told: Vec<String>,
    serials: Vec<u64>,
    devices: Vec<String>,
    calls: u64,
    last: &'static str,
    pairs: HashSet<(&'static str, &'static str, bool, bool)>,
}
struct Monitor(Rc<RefCell<Trace>>);
impl Monitor {
    fn see(&self, c: &Context, what: &'static str, check: impl FnOnce(&Trace) -> Result<(), String>) {
        let mut t = self.0.borrow_mut();
        t.calls += 1;
        let key = (t.last, what, t.open, c.page_mode.enabled);
        t.pairs.insert(key);
        t.last = what;
        let mut r = check(&t);
        if t.profile.is_none() { r = Err("comes before the debug profile is set".into()); }
        if let (Err(e), None) = (r, &t.wrong) { t.wrong = Some(format!("{} {}", what, e)); }
    }
    fn drawn(&self, c: &Context, what: &'static str, check: impl FnOnce() -> Result<(), String>) {
        let page = c.page_mode.enabled;
        self.see(c, what, |t| {
            if !t.open { return Err("comes outside of an output".into()); }
            if page && !t.page { return Err("draws on a page that wasn't begun".into()); }
            if page && !t.area { return Err("draws on a page whose area wasn't announced".into()); }
            check()
        });
        let mut t = self.0.borrow_mut();
        if t.faulty > 0 { t.faulty -= 1; t.own += 1; }
    }
}
fn inside(t: &Trace) -> Result<(), String> { if t.open { Ok(()) } else { Err("comes outside of an output".into()) } }

fn device(d: &D) -> Option<String> {
    Some(match d {
        D::FullCut => "full cut".into(), D::PartialCut => "partial cut".into(),
        D::Feed(n) => format!("feed {}", n), D::FeedLine(n) => format!("feed {} lines", n),
        D::Cancel => "cancel".into(), D::Initialize => "initialize".into(),
        _ => return None,
    })
}
/// The device commands the bytes of a job ask for; None: the last command is incomplete.
fn announced(b: &[u8]) -> Option<Vec<String>> {
    let mut v = vec![];
    for i in grammar::split(b) {
        if i.kind != Kind::Cmd { continue; }
        let p = i.params(b);
        let n = |k: usize| p.get(k).copied();
        match i.opcode(b) {
            b"\x1bd" => v.push(format!("feed {} lines", n(0)?)),
            b"\x1be" => v.push(format!("feed {} lines", -(n(0)? as i32))),
            b"\x1bJ" => v.push(format!("feed {}", n(0)?)),
            b"\x18@" => v.push("cancel".into()),
            b"\x1b@" => v.push("initialize".into()),
            b"\x1dV" => {
                let cut = match n(0)? { 0 | 48 | 65 | 97 | 103 => "full cut", 1 | 49 | 66 | 98 | 104 => "partial cut", _ => continue };
                v.push(cut.into());
                if n(0)? > 50 { v.push(format!("feed {}", n(1)?)); }
            }
            _ => {}
        }
    }
    Some(v)
}

impl OutputRenderer<u64> for Monitor {
    fn set_debug_profile(&mut self, p: DebugProfile) {
        let mut t = self.0.borrow_mut();
        t.calls += 1;
        if t.last != "" && t.wrong.is_none() { t.wrong = Some("set_debug_profile isn't the first call".into()); }
        t.last = "set_debug_profile";
        t.profile = Some(flags(&p));
    }
    fn begin_render(&mut self, c: &mut Context) {
        self.see(c, "begin_render", |t| if t.open { Err("comes while an output is open".into()) } else { Ok(()) });
        let mut t = self.0.borrow_mut();
        t.open = true; t.asked = false;
    }
    fn page_begin(&mut self, c: &mut Context) {
        self.see(c, "page_begin", inside);
        let mut t = self.0.borrow_mut();
        t.page = true; t.area = false;
    }
    fn page_area_changed(&mut self, c: &mut Context, _r: Rotation, w: u32, h: u32) {
        let area = (c.page_mode.page_area.w, c.page_mode.page_area.h);
        self.see(c, "page_area_changed", |t| {
            inside(t)?;
            if !t.page { return Err("comes outside of page mode".into()); }
            if !(area == (w, h) || area == (h, w)) { return Err(format!("announces {}x{}, the page is {:?}", w, h, area)); }
            Ok(())
        });
        self.0.borrow_mut().area = true;
    }
    fn page_end(&mut self, c: &mut Context) {
        self.see(c, "page_end", |t| if t.page { Ok(()) } else { Err("comes outside of page mode".into()) });
    }
    fn render_page(&mut self, c: &mut Context) {
        self.see(c, "render_page", |t| {
            inside(t)?;
            if !t.page || !t.area { return Err("comes without a page".into()); }
            Ok(())
        });
    }
    fn render_graphics(&mut self, c: &mut Context, g: &Vec<VectorGraphic>) {
        self.drawn(c, "render_graphics", || {
            for v in g { let VectorGraphic::Rectangle(r) = v; if r.w == 0 || r.h == 0 { return Err(format!("has a rectangle of {}x{}", r.w, r.h)); } }
            Ok(())
        });
    }
    fn render_image(&mut self, c: &mut Context, i: &Image) {
        self.drawn(c, "render_image", || {
            if i.w == 0 || i.h == 0 { return Err(format!("has an image of {}x{}", i.w, i.h)); }
            if i.pixels.len() as u64 != i.w as u64 * i.h as u64 { return Err(format!("has {} pixels for {}x{}", i.pixels.len(), i.w, i.h)); }
            Ok(())
        });
    }
    fn render_text(&mut self, c: &mut Context, s: &Vec<TextSpan>, x_offset: u32, max_height: u32, j: TextJustify) {
        self.drawn(c, "render_text", || {
            let Some(first) = s.first() else { return Err("has no text".into()) };
            if j != first.justify { return Err(format!("is {:?}, the text {:?}", j, first.justify)); }
            if j == TextJustify::Left && x_offset != 0 { return Err(format!("moves text on the left by {}", x_offset)); }
            let mut right = 0;
            let mut top = None;
            let mut high = 0;
            for s in s {
                let Some(d) = &s.dimensions else { return Err(format!("has {:?} without a place", s.text)) };
                if s.text.is_empty() { return Err("has an empty text".into()); }
                if s.text.contains(['\n', '\r', '\t']) { return Err(format!("has a control character in {:?}", s.text)); }
                let w = s.text.chars().count() as u32 * s.character_width;
                if (d.w, d.h) != (w, s.character_height) { return Err(format!("gives {:?} {}x{}, it takes {}x{}", s.text, d.w, d.h, w, s.character_height)); }
                if *top.get_or_insert(d.y) != d.y { return Err(format!("has two lines, one at {} and one at {}", top.unwrap(), d.y)); }
                if s.character_width == 0 || s.character_height == 0 { return Err("has text without a size".into()); }
                high = high.max(s.character_height);
                right = right.max(d.x + d.w);
            }
            if max_height != high { return Err(format!("says the line is {} high, it is {}", max_height, high)); }
            Ok(())
        });
    }
    fn device_command(&mut self, c: &mut Context, d: &D) {
        let moving = matches!(d, D::FullCut | D::PartialCut | D::Feed(_) | D::FeedLine(_) | D::BeginPageMode | D::EndPageMode | D::PrintPageMode | D::MoveX(_));
        self.see(c, "device_command", |t| if moving { inside(t) } else { Ok(()) });
        if let Some(s) = device(d) { self.0.borrow_mut().devices.push(s); }
    }
    fn get_render_errors(&mut self) -> Vec<String> {
        let mut t = self.0.borrow_mut();
        t.calls += 1;
        t.last = "get_render_errors";
        t.asked = true;
        let n = std::mem::take(&mut t.own);
        let mut v = vec![];
        for _ in 0..n { let s = format!("complaint {}.", t.told.len() / 3); t.told.push(s.clone()); v.push(s); }
        v
    }
    fn end_render(&mut self, c: &mut Context) -> u64 {
        self.see(c, "end_render", |t| {
            if !t.open { return Err("comes without an output".into()); }
            if !t.asked { return Err("comes before the errors were asked for".into()); }
            if t.own > 0 { return Err("leaves errors that weren't asked for".into()); }
            Ok(())
        });
        let mut t = self.0.borrow_mut();
        t.open = false;
        let n = 1000 + 7 * t.serials.len() as u64 + t.calls * 100_000;
        t.serials.push(n);
        n
    }
}

fn profile(n: u8) -> DebugProfile { DebugProfile { text: n & 1 > 0, image: n & 2 > 0, page: n & 4 > 0, info: n & 8 > 0 } }

/// One Renderer prints all the jobs; the last byte of the last blob chooses profile and faults.
pub fn eval21(c: &Case) -> Verdict {
    let mut o = Obs::default();
    let (opt, jobs) = c.data.split_last().unwrap();
    let opt = opt.first().copied().unwrap_or(0);
    let prof = profile(opt & 7);
    let trace = Rc::new(RefCell::new(Trace::default()));
    let mut child: Box<dyn OutputRenderer<u64>> = Box::new(Monitor(trace.clone()));
    let mut r = Renderer::new(&mut child, prof);
    for b in jobs {
        *trace.borrow_mut() = Trace { faulty: (opt >> 3) as u32, ..Trace::default() };
        let out = r.render(b);
        let t = trace.borrow();
        let job = || format!("\njob: {}", show(b));
        if let Some(w) = &t.wrong { return Err(format!("{}{}", w, job())); }
        if t.profile != Some(flags(&prof)) { return Err(format!("the renderer was given the profile {:?}, not {:?}{}", t.profile, flags(&prof), job())); }
        if t.open { return Err(format!("the last output was never ended{}", job())); }
        if out.output != t.serials { return Err(format!("outputs {:?}, the renderer returned {:?}{}", out.output, t.serials, job())); }
        let errors: Vec<String> = out.errors.iter().map(|e| format!("{:?}", e)).collect();
        let mine: Vec<&String> = errors.iter().filter(|e| e.contains("ChildRenderError")).collect();
        if mine.len() != t.told.len() || mine.iter().zip(&t.told).any(|(e, m)| !e.contains(m.as_str())) { return Err(format!("errors {:?}, the renderer told {:?}{}", mine, t.told, job())); }
        match announced(b) {
            Some(v) => {
                if v != t.devices { return Err(format!("device commands {:?}, the job has {:?}{}", t.devices, v, job())); }
                o.add("device_commands", v.len() as u64);
            }
            None => o.add("jobs_with_an_incomplete_end", 1),
        }
        o.add("calls", t.calls);
        o.add("outputs", t.serials.len() as u64);
        o.add("errors_passed_on", t.told.len() as u64);
        for p in &t.pairs { o.state(fnv(format!("{:?}", p).as_bytes(), 0)); }
    }
    o.trivial = jobs.iter().all(|b| b.is_empty());
    Ok(o)
}

fn pages(r: &mut Rng, c: &Cfg) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..1 + r.below(12) {
        match r.below(14) {
            0 => v.extend([ESC, b'L']), 1 => v.extend([ESC, b'S']), 2 => v.push(FF), 3 => v.extend([ESC, FF]),
            4 => v.extend([ESC, b'T', r.below(4) as u8]),
            5 => { v.extend([ESC, b'W']); for _ in 0..2 { v.extend(u16le(r.below(60))); } for _ in 0..2 { v.extend(u16le(r.below(300))); } }
            6 => v.extend([GS, b'V', *r.pick(&[0u8, 1, 48, 49])]),
            7 => v.extend([GS, b'V', *r.pick(&[65u8, 66, 97, 98, 103, 104]), r.below(60) as u8]),
            8 => v.extend([ESC, b'@']),
            9 => v.push(LF),
            10 => feed(r, &mut v),
            11 => v.extend([CAN, b'@']),
            12 => { let t = text(r, true); v.extend(&t[..t.len().min(30)]) }
            _ => step(r, &mut v, c),
        }
    }
    v
}

pub fn run21(cx: &mut Ctx) {
    let n = if cx.thorough { 10_000 } else { 300 };
    cx.family("large", n, |r, i| { let cap = *r.pick(crate::bulk::LAID_OUT); Some(Case::new("large", vec![crate::bulk::large(r, i, cap), super::meta::exhibit(r), vec![r.below(256) as u8]])) });
    // all short sequences of the commands that begin and end something
    let parts: [&[u8]; 10] = [b"A", b"\n", b"\x0c", b"\x1b@", b"\x1bL", b"\x1bS", b"\x1b\x0c", b"\x1dV0", b"\x1bd\x02", b"\x1bT\x01"];
    let n = 10usize.pow(if cx.thorough { 6 } else { 5 });
    cx.family("short", n, |r, i| {
        let mut v = vec![];
        let mut k = i;
        while k > 0 { v.extend(parts[k % 10]); k /= 10; }
        Some(Case { family: "short".into(), data: vec![v, vec![r.below(256) as u8]] })
    });
    let n = cx.n(6_000, 300_000);
    cx.family("pages", n, |r, _| {
        let base = Cfg { hostile: r.chance(1, 4), ..Cfg::all() };
        let c = swarm(r, &base);
        let mut d: Vec<Vec<u8>> = (0..1 + r.below(3)).map(|_| pages(r, &c)).collect();
        d.push(vec![r.below(256) as u8]);
        Some(Case { family: "pages".into(), data: d })
    });
    let n = cx.n(4_000, 200_000);
    cx.family("jobs", n, |r, _| {
        let base = Cfg { hostile: r.chance(1, 4), ..Cfg::all() };
        let c = swarm(r, &base);
        let mut d: Vec<Vec<u8>> = (0..1 + r.below(3)).map(|_| { let k = 1 + r.below(25); job(r, &c, k) }).collect();
        d.push(vec![r.below(256) as u8]);
        Some(Case { family: "jobs".into(), data: d })
    });
    let n = cx.n(2_000, 100_000);
    cx.family("mutated", n, |r, _| {
        let base = Cfg { hostile: r.chance(1, 4), ..Cfg::all() };
        let c = swarm(r, &base);
        let mut b = job(r, &c, 12);
        let other = job(r, &c, 6);
        for _ in 0..1 + r.below(4) { mutate(r, &mut b, &other); }
        Some(Case { family: "mutated".into(), data: vec![b, vec![r.below(256) as u8]] })
    });
}

/// The log with everything that debug marks may cover in one colour and nothing else.
fn marks(log: &[Ev], p: &DebugProfile) -> Vec<Ev> {
    const RED: rec::Rgba = (255, 0, 0, 255);
    let mut v = vec![];
    for e in log {
        match e {
            Ev::Text { spans, x_offset, max_height, page, .. } => if p.text {
                for s in spans {
                    let Some((x, y, w, _)) = s.dim else { continue };
                    let h = *max_height;
                    if w == 0 || h == 0 { continue; }
                    v.push(Ev::Image { img: Img { x: x + x_offset, y, w, h, px: vec![RED; w as usize * h as usize], flow: 2, upside: false }, page: *page });
                    // counted as outside when the text isn't completely on its page
                    v.push(Ev::Image { img: Img { x: x + x_offset, y: y + h - 1, w, h: 1, px: vec![RED; w as usize], flow: 2, upside: false }, page: *page });
                }
            },
            Ev::Image { img, page } => if p.image {
                let (w, h) = (img.w, img.h);
                let mut i = img.clone();
                i.px = (0..w * h).map(|k| { let (x, y) = (k % w, k / w); if x == 0 || y == 0 || x == w - 1 || y == h - 1 { RED } else { (0, 0, 0, 0) } }).collect();
                v.push(Ev::Image { img: i, page: *page });
            },
            Ev::Rects { page, .. } => v.push(Ev::Rects { rects: vec![], color: RED, page: *page }),
            e => v.push(e.clone()),
        }
    }
    v
}

fn without_pictures(html: &str) -> String {
    let mut parts = html.split("data:image/png;base64,");
    let mut s = parts.next().unwrap_or("").to_string();
    for p in parts { s.push_str(p.trim_start_matches(|c: char| c.is_ascii_alphanumeric() || c.is_whitespace() || "+/=".contains(c))); }
    s
}

pub fn eval22(c: &Case) -> Verdict {
    let mut o = Obs::default();
    let b = &c.data[0];
    let prof = profile(c.data[1].first().copied().unwrap_or(7) & 7);
    let job = || format!("\nprofile: {:?}\njob: {}", flags(&prof), show(b));
    let plain = rec::record(b);
    let with = rec::record_with(b, prof);
    if plain.errors != with.errors { return Err(format!("errors {:?} with debug marks, {:?} without{}", with.errors, plain.errors, job())); }
    if let Some(i) = (0..plain.log.ev.len().max(with.log.ev.len())).find(|i| plain.log.ev.get(*i) != with.log.ev.get(*i)) {
        return Err(format!("event {} is {:?} with debug marks, {:?} without{}", i, with.log.ev.get(i).map(crate::checks::meta::short), plain.log.ev.get(i).map(crate::checks::meta::short), job()));
    }
    if !e2e::small(&plain.log) { o.trivial = true; o.add("too_large_to_paint", 1); return Ok(o); }
    let (a, d) = (rec::image_of(b, None), rec::image_of(b, Some(prof)));
    let errors = |e: &Vec<thermal_renderer::renderer::RenderError>| e.iter().map(|e| format!("{:?}", e)).filter(|e| !e.contains("ChildRenderError")).collect::<Vec<_>>();
    if errors(&a.errors) != errors(&d.errors) { return Err(format!("the image has other errors with debug marks{}", job())); }
    if a.output.len() != d.output.len() { return Err(format!("{} images with debug marks, {} without{}", d.output.len(), a.output.len(), job())); }
    let mask = paint::paint(&marks(&plain.log.ev, &prof));
    // a text that isn't completely on its page may lose marks
    if mask.outside == 0 && a.errors.is_empty() && !d.errors.is_empty() { return Err(format!("debug marks are errors: {:?}{}", d.errors, job())); }
    // the borders of pages, in the order of the outputs
    let mut borders = vec![];
    let mut sheet = 0;
    let mut pages = mask.pages.iter();
    for e in &plain.log.ev { match e { Ev::End { margins, .. } => { for b in borders.iter_mut().filter(|b: &&mut (usize, u32, u32, u32, u32)| b.0 == sheet) { b.1 += margins.0; } sheet += 1 } Ev::PagePrint { x, y, .. } => if let Some(p) = pages.next() { borders.push((sheet, *x, *y, p.w, p.h)) }, _ => {} } }
    let mut changed = 0;
    for (n, (x, y)) in a.output.iter().zip(&d.output).enumerate() {
        if (x.width, x.height) != (y.width, y.height) { return Err(format!("the image is {}x{} with debug marks, {}x{} without{}", y.width, y.height, x.width, x.height, job())); }
        let white = (0..).zip(x.bytes.chunks(3).zip(y.bytes.chunks(3))).filter(|(_, (p, q))| p != q);
        let Some(s) = mask.sheets.get(n) else { return Err("reference: sheets".into()) };
        for (k, (p, q)) in white {
            let (px, py) = (k % x.width, k / x.width);
            changed += 1;
            let marked = px < s.w && py < s.h && { let m = s.px[(py * s.w + px) as usize]; m[1] != m[0] };
            let border = prof.page && borders.iter().any(|(bn, bx, by, w, h)| *bn == n && px >= *bx && py >= *by && px < bx + w && py < by + h && (px == *bx || py == *by || px == bx + w - 1 || py == by + h - 1));
            if !marked && !border { return Err(format!("the pixel at {},{} of image {} is {:?} with debug marks, {:?} without, no mark belongs there{}", px, py, n, q, p, job())); }
        }
    }
    o.add("pixels_of_marks", changed);
    // HTML shows no marks but those drawn on pages
    let (a, d) = (rec::html_of(b, None), rec::html_of(b, Some(prof)));
    if errors(&a.errors) != errors(&d.errors) { return Err(format!("HTML has other errors with debug marks{}", job())); }
    if a.output.len() != d.output.len() { return Err(format!("{} HTML receipts with debug marks, {} without{}", d.output.len(), a.output.len(), job())); }
    let paged = plain.log.ev.iter().any(|e| matches!(e, Ev::PagePrint { .. }));
    for (x, y) in a.output.iter().zip(&d.output) {
        let same = if paged { without_pictures(&x.content) == without_pictures(&y.content) } else { x.content == y.content };
        if !same { return Err(format!("the HTML receipt is another one with debug marks{}", job())); }
        o.add("html_compared", 1);
    }
    // and the marks are gone when they are switched off again
    e2e::both(b, &plain.log, &plain.errors).map_err(|e| format!("after debug marks: {}{}", e, job()))?;
    for e in &plain.log.ev { o.state(match e { Ev::Text { page, spans, .. } => 10 + *page as u64 + 2 * spans.iter().any(|s| s.upside) as u64, Ev::Image { page, img } => 20 + *page as u64 + 2 * img.upside as u64, Ev::PagePrint { dir, .. } => 30 + *dir as u64, _ => continue } + 100 * (c.data[1].first().copied().unwrap_or(7) & 7) as u64); }
    o.trivial = changed == 0;
    Ok(o)
}

pub fn run22(cx: &mut Ctx) {
    let n = if cx.thorough { 10_000 } else { 300 };
    cx.family("large", n, |r, i| { let cap = *r.pick(crate::bulk::PAINTED); Some(Case::new("large", vec![crate::bulk::large(r, i, cap), vec![1 + r.below(7) as u8]])) });
    let n = cx.n(2_500, 120_000);
    cx.family("jobs", n, |r, _| {
        let base = Cfg { hostile: r.chance(1, 4), ..Cfg::all() };
        let c = swarm(r, &base);
        let k = 1 + r.below(14);
        Some(Case { family: "jobs".into(), data: vec![job(r, &c, k), vec![1 + r.below(7) as u8]] })
    });
    let n = cx.n(2_500, 120_000);
    cx.family("pages", n, |r, _| {
        let base = Cfg { hostile: r.chance(1, 4), ..Cfg::all() };
        let c = swarm(r, &base);
        let mut v = vec![ESC, b'L'];
        v.extend(pages(r, &c));
        v.extend([ESC, FF]);
        Some(Case { family: "pages".into(), data: vec![v, vec![1 + r.below(7) as u8]] })
    });
    let n = cx.n(1_500, 60_000);
    cx.family("text", n, |r, _| {
        let mut v = vec![];
        for _ in 0..1 + r.below(8) { style(r, &mut v); let t = text(r, true); v.extend(&t[..t.len().min(40)]); if r.below(3) == 0 { v.push(LF) } }
        Some(Case { family: "text".into(), data: vec![v, vec![1 + r.below(7) as u8]] })
    });
}
