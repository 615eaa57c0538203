//! Reference layout: what a job has to draw, command by command, written from the ESC/POS
//! formats and the layout rules, independently of the code under test. It works on single
//! characters, dots and bars so that it doesn't depend on how the output is chunked.
use crate::barcodes::{self, Code};
use crate::grammar::{self, Item, Kind};
use crate::rec::{Ev, Rgba};
use crate::tables;
use std::collections::HashMap;
use thermal_parser::context::{Font, TextJustify};

pub const WIDTH: u32 = 609;
pub const BLACK: Rgba = (0, 0, 0, 255);
pub const WHITE: Rgba = (255, 255, 255, 255);
pub const RED: Rgba = (158, 22, 22, 255);
pub const BLUE: Rgba = (27, 57, 169, 255);
const FAR: u32 = i32::MAX as u32 / 2;

pub fn ink(n: u8) -> Rgba { match n { 0 => WHITE, 2 | 50 => RED, 3 | 51 => BLUE, _ => BLACK } }

#[derive(Clone, Debug, PartialEq)]
pub struct Style {
    pub font: Font, pub bcw: u32, pub bch: u32, pub wm: u32, pub hm: u32,
    pub bold: bool, pub italic: bool, pub underline: u32, pub strike: u32, pub inverted: bool, pub upside: bool,
    pub fg: Rgba, pub bg: Rgba, pub justify: TextJustify,
}
impl Style {
    pub fn cw(&self) -> u32 { self.bcw * self.wm }
    pub fn ch(&self) -> u32 { self.bch * self.hm }
}
#[derive(Clone, Debug, PartialEq)]
pub struct MChar { pub c: char, pub st: Style, pub x: u32, pub y: u32, pub cmd: usize }

#[derive(Clone, Debug, PartialEq)]
pub struct Pic { pub w: u32, pub h: u32, pub px: Vec<Rgba> }

#[derive(Clone, Debug, PartialEq)]
pub enum MK {
    Begin,
    Line { chars: Vec<MChar>, x_offset: u32, max_height: u32, justify: TextJustify, page: bool },
    Image { x: u32, y: u32, pic: Pic, page: bool },
    /// a barcode or QR code: the dots it has to draw as (x, y, w, h)
    Bars { rects: Vec<(u32, u32, u32, u32)>, kind: usize, data: Vec<u8>, page: bool, mw: u32, height: u32, x: u32, y: u32 },
    Qr { x: u32, y: u32, n: u32, size: u32, page: bool, sym: QrSym },
    PageBegin,
    PageArea { rot: u8, w: u32, h: u32 },
    PageEnd,
    PagePrint { x: u32, y: u32, dir: u8, h: u32 },
    Device(String),
    End { y: u32 },
}
#[derive(Clone, Debug, PartialEq)]
pub struct MEv { pub cmd: usize, pub k: MK }

#[derive(Clone, Debug, PartialEq)]
pub struct QrSym { pub data: Vec<u8>, pub model: u8, pub ec: u8, pub size: u32 }

#[derive(Clone, Debug, PartialEq)]
pub enum MErr { Unknown, Graphics }

#[derive(Default)]
pub struct Out {
    pub ev: Vec<MEv>,
    pub errors: Vec<(usize, MErr)>,
    pub items: Vec<Item>,
    /// what the model doesn't decide, if anything: nothing should be compared then
    pub unclear: Option<&'static str>,
    /// characters handed over for printing, in order: (command, char, style)
    pub sent: Vec<(usize, char, Style)>,
    pub chars_hri: u64,
    pub images: u64,
    pub paper: u64,
    pub max_page: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Store { Nv, Ram }

#[derive(Clone, Debug)]
enum Stored { Pic(Pic), Bad }

#[derive(Clone, Default)]
struct Area { x: u32, y: u32, w: u32, h: u32 }

struct Page { on: bool, log: Area, pw: u32, ph: u32, dir: u8, prev: u8, base: (u32, u32), area: (u32, u32), x: u32, y: u32 }
impl Page {
    fn new() -> Page { Page { on: false, log: Area::default(), pw: 0, ph: 0, dir: 0, prev: 0, base: (0, 0), area: (0, 0), x: 0, y: 0 } }
}

struct TextSt { font: Font, bcw: u32, bch: u32, wm: u32, hm: u32, bold: bool, italic: bool, ul: u32, st: u32, inv: bool, up: bool, fg: Rgba, bg: Rgba,
    just: TextJustify, spacing: u32, tabs: [u32; 32], table: u8, set: u8 }
impl TextSt {
    fn new() -> TextSt {
        TextSt { font: Font::A, bcw: 12, bch: 24, wm: 1, hm: 1, bold: false, italic: false, ul: 0, st: 0, inv: false, up: false, fg: BLACK, bg: WHITE,
            just: TextJustify::Left, spacing: 24, tabs: [8; 32], table: 0, set: 0 }
    }
}

struct M<'a> {
    b: &'a [u8],
    out: Out,
    cmd: usize,
    x: u32, y: u32,
    page: Page,
    t: TextSt,
    hu: u32, vu: u32, dpi: u32,
    bar: (u32, u32, u8, Font), // module width, height, hri, font
    qr: (u8, u8, u32), // model, ec, size
    sym: Option<QrSym>,
    stored: HashMap<(u8, u8, bool), Stored>,
    buffer: Vec<Stored>,
    begun: bool,
    start_y: u32,
    bottom: u32,
    pending: Vec<Vec<(char, Style)>>, // one entry per text command
    pending_cmd: Vec<usize>,
    open: Vec<MChar>,
    /// the rectangles the code under test drew: only used for the size of QR symbols
    drawn: Vec<&'a [(u32, u32, u32, u32)]>,
    n_rects: usize,
}

pub fn run(b: &[u8], log: &[Ev]) -> Out {
    let drawn = log.iter().filter_map(|e| if let Ev::Rects { rects, .. } = e { Some(&rects[..]) } else { None }).collect();
    let mut m = M { b, out: Out::default(), cmd: 0, x: 0, y: 60, page: Page::new(), t: TextSt::new(), hu: 1, vu: 1, dpi: 203,
        bar: (3, 40, 0, Font::A), qr: (49, 0, 3), sym: None, stored: HashMap::new(), buffer: vec![], begun: false, start_y: 0, bottom: 0,
        pending: vec![], pending_cmd: vec![], open: vec![], drawn, n_rects: 0 };
    m.go();
    m.out
}

fn le2(p: &[u8], i: usize) -> u32 { p.get(i).copied().unwrap_or(0) as u32 + 256 * p.get(i + 1).copied().unwrap_or(0) as u32 }
fn at(p: &[u8], i: usize, d: u8) -> u8 { p.get(i).copied().unwrap_or(d) }

/// Bars that touch, with the same top and height, as one.
pub fn merge_bars(r: &[(u32, u32, u32, u32)]) -> Vec<(u32, u32, u32, u32)> {
    let mut v: Vec<(u32, u32, u32, u32)> = vec![];
    for b in r {
        match v.last_mut() { Some(l) if l.0 + l.2 == b.0 && l.1 == b.1 && l.3 == b.3 => l.2 += b.2, _ => v.push(*b) }
    }
    v
}
/// A raster picture of 1 bit dots: rows padded to bytes.
pub fn raster(w: u32, h: u32, sx: u32, sy: u32, color: Rgba, d: &[u8]) -> Option<Pic> {
    let row = (w as usize + 7) / 8;
    if w == 0 || h == 0 || d.len() != row * h as usize { return None; }
    Some(dots(w, h, sx, sy, color, |x, y| d[y as usize * row + x as usize / 8] >> (7 - x % 8) & 1 == 1))
}
/// A column picture: each column padded to bytes, the top dot is the highest bit.
pub fn columns(w: u32, h: u32, sx: u32, sy: u32, color: Rgba, d: &[u8]) -> Option<Pic> {
    let col = (h as usize + 7) / 8;
    if w == 0 || h == 0 || d.len() != col * w as usize { return None; }
    Some(dots(w, h, sx, sy, color, |x, y| d[x as usize * col + y as usize / 8] >> (7 - y % 8) & 1 == 1))
}
fn dots(w: u32, h: u32, sx: u32, sy: u32, c: Rgba, set: impl Fn(u32, u32) -> bool) -> Pic {
    let mut px = Vec::with_capacity((w * sx) as usize * (h * sy) as usize);
    for y in 0..h * sy { for x in 0..w * sx {
        px.push((c.0, c.1, c.2, if set(x / sx, y / sy) { 255 } else { 0 }));
    } }
    Pic { w: w * sx, h: h * sy, px }
}
/// Later layers cover earlier ones where they have ink; they share the top left corner.
pub fn layers(l: &[Pic]) -> Option<Pic> {
    if l.is_empty() { return None; }
    let w = l.iter().map(|p| p.w).max()?;
    let h = l.iter().map(|p| p.h).max()?;
    let mut px = vec![(0, 0, 0, 0); w as usize * h as usize];
    for p in l { for y in 0..p.h { for x in 0..p.w {
        let s = p.px[(y * p.w + x) as usize];
        if s.3 == 255 { px[(y * w + x) as usize] = s; }
    } } }
    Some(Pic { w, h, px })
}

impl<'a> M<'a> {
    fn push(&mut self, k: MK) { let cmd = self.cmd; self.out.ev.push(MEv { cmd, k }); }
    fn style(&self) -> Style {
        let t = &self.t;
        let px = |n: u32| n * self.dpi / 96;
        Style { font: t.font.clone(), bcw: t.bcw, bch: t.bch, wm: t.wm, hm: t.hm, bold: t.bold, italic: t.italic, underline: px(t.ul), strike: px(t.st),
            inverted: t.inv, upside: t.up, fg: t.fg, bg: t.bg, justify: t.just.clone() }
    }
    // ----- cursor -----
    fn cx(&self) -> u32 { if self.page.on { self.page.x } else { self.x } }
    fn cy(&self) -> u32 { if self.page.on { self.page.y } else { self.y } }
    fn base_x(&self) -> u32 { if self.page.on { self.page.base.0 } else { 0 } }
    fn width(&self) -> u32 { if self.page.on { self.page.area.0 } else { WIDTH } }
    fn avail(&self) -> u32 { self.width().saturating_sub(self.cx().saturating_sub(self.base_x())) }
    fn put_x(&mut self, x: u32) { if self.page.on { self.page.x = self.page.base.0 + x } else { self.x = x } }
    fn home(&mut self) { self.put_x(0) }
    fn right(&mut self, n: u32) { if self.page.on { self.page.x = self.page.x.saturating_add(n).min(FAR) } else { self.x = self.x.saturating_add(n).min(FAR) } }
    fn down(&mut self, n: u32) { if self.page.on { self.page.y = self.page.y.saturating_add(n).min(FAR) } else { self.y = self.y.saturating_add(n).min(FAR) } }
    fn lines(&mut self, n: u32) { self.home(); self.down(self.t.spacing * n) }
    fn just(&self, w: u32) -> u32 {
        let r = self.width();
        if w > r { return 0; }
        match self.t.just { TextJustify::Center => (r - w) / 2, TextJustify::Right => r - w, _ => 0 }
    }
    fn begin(&mut self) { if !self.begun { self.begun = true; self.bottom = 0; self.push(MK::Begin); } }
    fn extend(&mut self, y: u32) { if !self.page.on { self.bottom = self.bottom.max(y) } }

    // ----- text -----
    fn collect(&mut self, chars: Vec<(char, Style)>) {
        self.begin();
        let cmd = self.cmd;
        self.out.sent.extend(chars.iter().map(|(c, s)| (cmd, *c, s.clone())));
        self.pending.push(chars);
        self.pending_cmd.push(cmd);
    }
    fn line_advance(&mut self, line: &[MChar]) {
        let h = line.iter().map(|c| c.st.ch()).max().unwrap_or(0).max(self.t.spacing);
        self.home();
        self.down(h);
    }
    fn place(&mut self, line: &mut Vec<MChar>, cs: &[(char, Style)], cmd: usize) {
        for (c, st) in cs {
            line.push(MChar { c: *c, st: st.clone(), x: self.cx(), y: self.cy(), cmd });
            self.right(st.cw());
        }
    }
    fn layout(&mut self) {
        if self.pending.is_empty() { return; }
        let spans = std::mem::take(&mut self.pending);
        let cmds = std::mem::take(&mut self.pending_cmd);
        let mut done: Vec<Vec<MChar>> = vec![];
        let mut line = std::mem::take(&mut self.open);
        let max = self.width();
        for (span, cmd) in spans.iter().zip(cmds) {
            let mut i = 0;
            while i < span.len() {
                let mut j = i;
                while j < span.len() && !span[j].0.is_whitespace() { j += 1; }
                if j < span.len() { j += 1; }
                let word = &span[i..j];
                i = j;
                let cw = word[0].1.cw();
                match word[0].0 {
                    '\n' => { self.line_advance(&line); done.push(std::mem::take(&mut line)); continue; }
                    '\r' => continue,
                    '\t' => {
                        let col = self.cx().saturating_sub(self.base_x());
                        let mut stop = 0;
                        for k in self.t.tabs { stop += k * cw; if stop > col { self.put_x(stop); break; } }
                        continue;
                    }
                    _ => {}
                }
                let (mut n, avail) = (0, self.avail());
                let w = word.len() as u32 * cw;
                if w <= avail {
                    self.place(&mut line, word, cmd);
                } else if w > max {
                    // wider than a whole line: filled up piece by piece
                    let mut room = (avail / cw) as usize;
                    loop {
                        let k = (n + room).min(word.len());
                        self.place(&mut line, &word[n..k], cmd);
                        n = k;
                        if n >= word.len() { break; }
                        self.line_advance(&line);
                        done.push(std::mem::take(&mut line));
                        room = (max / cw).max(1) as usize;
                    }
                } else {
                    self.line_advance(&line);
                    done.push(std::mem::take(&mut line));
                    self.place(&mut line, word, cmd);
                }
            }
        }
        self.open = line;
        for l in done { self.print_line(l); }
    }
    fn flush(&mut self) { self.layout(); let l = std::mem::take(&mut self.open); self.print_line(l); }
    fn end_line(&mut self) { self.layout(); let l = std::mem::take(&mut self.open); self.line_advance(&l); self.print_line(l); }
    fn print_line(&mut self, mut l: Vec<MChar>) {
        if l.is_empty() { return; }
        let base = self.base_x();
        let w = l.iter().map(|c| (c.x + c.st.cw()).saturating_sub(base)).max().unwrap();
        let max = self.width();
        let justify = l[0].st.justify.clone();
        let off = match justify { TextJustify::Right => max.saturating_sub(w), TextJustify::Center => max.saturating_sub(w) / 2, _ => 0 };
        let h = l.iter().map(|c| c.st.ch()).max().unwrap();
        let y = l[0].y;
        self.extend(y + h);
        for c in l.iter_mut() { c.x += off; }
        let page = self.page.on;
        self.push(MK::Line { chars: l, x_offset: off, max_height: h, justify, page });
    }

    // ----- device -----
    fn device(&mut self, name: &str) { self.push(MK::Device(name.to_string())) }
    fn moving(&mut self, name: &str) { self.flush(); self.begin(); self.device(name); }
    fn end_print(&mut self) {
        self.flush();
        if !self.begun { self.x = 0; return; }
        self.device("End Print");
        let y = self.y;
        self.out.paper = self.out.paper.max(y as u64);
        self.push(MK::End { y });
        self.begun = false;
        self.bottom = 0;
        self.x = 0;
        self.y = self.start_y;
    }
    fn apply_area(&mut self) {
        let p = &mut self.page;
        let l = p.log.clone();
        let rot = (4 + p.dir - p.prev) % 4;
        p.pw = p.pw.max(l.x + l.w);
        p.ph = p.ph.max(l.y + l.h);
        let odd = p.dir % 2 == 1;
        p.base = match p.dir {
            0 => (l.x, l.y),
            1 => (p.ph.saturating_sub(l.y + l.h), l.x),
            2 => (p.pw.saturating_sub(l.x + l.w), p.ph.saturating_sub(l.y + l.h)),
            _ => (l.y, p.pw.saturating_sub(l.x + l.w)),
        };
        p.area = if odd { (l.h, l.w) } else { (l.w, l.h) };
        p.x = p.base.0;
        p.y = p.base.1;
        let (w, h) = if odd { (p.ph, p.pw) } else { (p.pw, p.ph) };
        self.out.max_page = self.out.max_page.max(w as u64 * h as u64);
        self.push(MK::PageArea { rot, w, h });
    }
    fn print_page(&mut self) {
        self.moving("Print Page Mode");
        let (x, y, dir, h) = (self.x, self.y, self.page.dir, self.page.ph);
        self.push(MK::PagePrint { x, y, dir, h });
        self.y += h;
        self.x = 0;
        self.bottom = self.bottom.max(self.y);
    }

    // ----- graphics -----
    fn error(&mut self, e: MErr) { let c = self.cmd; self.out.errors.push((c, e)); }
    fn image(&mut self, pic: Option<Pic>, inline: bool) {
        let Some(pic) = pic else { self.error(MErr::Graphics); return };
        self.flush();
        self.begin();
        self.out.images += 1;
        if inline { if pic.w > self.avail() { self.lines(1); } }
        else if !self.page.on { let x = self.just(pic.w); self.put_x(x); }
        let (x, y, w, h, page) = (self.cx(), self.cy(), pic.w, pic.h, self.page.on);
        self.push(MK::Image { x, y, pic, page });
        self.extend(y + h);
        if inline { self.right(w) } else if !page { self.down(h); self.home(); }
    }
    fn print_stored(&mut self, s: Option<Stored>) {
        match s { None => {} Some(Stored::Bad) => self.error(MErr::Graphics), Some(Stored::Pic(p)) => self.image(Some(p), false) }
    }
    fn define(&self, p: &[u8], raster_format: bool) -> Option<((u8, u8), Stored)> {
        // a kc1 kc2 b xL xH yL yH [c d...]...
        if p.len() < 8 { return None; }
        let (n, w, h) = (p[3] as usize, le2(p, 4), le2(p, 6));
        let layer = 1 + if raster_format { (w as usize + 7) / 8 * h as usize } else { (h as usize + 7) / 8 * w as usize };
        let d = &p[8..];
        let mut pics = vec![];
        if d.len() == layer * n {
            for l in d.chunks(layer) {
                let c = ink(l[0]);
                match if raster_format { raster(w, h, 1, 1, c, &l[1..]) } else { columns(w, h, 1, 1, c, &l[1..]) } { Some(p) => pics.push(p), None => { pics.clear(); break; } }
            }
        }
        Some(((p[1], p[2]), match layers(&pics) { Some(p) => Stored::Pic(p), None => Stored::Bad }))
    }
    fn graphics(&mut self, p: &[u8], large: bool) {
        let head = if large { 4 } else { 2 };
        if p.len() < head + 2 { self.error(MErr::Unknown); return; }
        let (f, d) = (p[head + 1], &p[head + 2..]);
        // fewer bytes than announced only happens at the end of the job
        match f {
            0 | 48 | 4 | 52 | 64 | 80 => self.layout(),
            1 | 49 => {
                self.layout();
                match (at(d, 0, 50), at(d, 1, 50)) { (50, 50) => self.dpi = 180, (51, 51) => self.dpi = 360, _ => self.out.unclear = Some("dot density") }
            }
            2 | 50 => {
                self.layout();
                let buf = std::mem::take(&mut self.buffer);
                if buf.iter().any(|s| matches!(s, Stored::Bad)) { self.error(MErr::Graphics) }
                else if !buf.is_empty() {
                    let pics: Vec<Pic> = buf.into_iter().filter_map(|s| if let Stored::Pic(p) = s { Some(p) } else { None }).collect();
                    self.image(layers(&pics), false);
                }
                self.device("Clear Buffer Graphics");
            }
            65 | 81 => { self.layout(); self.stored.retain(|k, _| k.2 != (f == 65)); }
            66 | 82 => { self.layout(); if d.len() >= 2 { self.stored.remove(&(d[0], d[1], f == 66)); } }
            67 | 68 | 83 | 84 => {
                self.layout();
                if let Some((k, s)) = self.define(d, f == 67 || f == 83) { self.stored.insert((k.0, k.1, f < 80), s); }
            }
            69 | 85 => {
                self.layout();
                if d.len() >= 2 { let s = self.stored.get(&(d[0], d[1], f == 69)).cloned(); self.print_stored(s); }
            }
            112 | 113 => {
                self.layout();
                let s = if d.len() < 8 { None } else {
                    let (w, h, sx, sy, c) = (le2(d, 4), le2(d, 6), d[1].clamp(1, 2) as u32, d[2].clamp(1, 2) as u32, ink(d[3]));
                    if f == 112 { raster(w, h, sx, sy, c, &d[8..]) } else { columns(w, h, sx, sy, c, &d[8..]) }
                };
                self.buffer.push(match s { Some(p) => Stored::Pic(p), None => Stored::Bad });
            }
            _ => self.error(MErr::Unknown),
        }
    }
    fn hri(&mut self, text: &[u8]) {
        let mut st = self.style();
        st.font = self.bar.3.clone();
        self.out.chars_hri += text.len() as u64;
        self.collect(text.iter().map(|b| (*b as char, st.clone())).collect());
        self.end_line();
    }
    fn barcode(&mut self, p: &[u8]) {
        self.layout();
        let m = p.first().copied();
        let (kind, data): (Option<usize>, &[u8]) = match m {
            None => (None, &[]),
            Some(0..=6) => { let e = p[1..].iter().position(|b| *b == 0).map(|i| i + 1).unwrap_or(p.len()); (barcodes::kind_of(m.unwrap()), &p[1..e]) }
            Some(65..=73) => (barcodes::kind_of(m.unwrap()), if p.len() > 2 { &p[2..] } else { &[] }),
            _ => (None, &[]),
        };
        let Some(kind) = kind else { self.error(MErr::Graphics); return };
        let (modules, hri) = match barcodes::encode(kind, data, 2) {
            Code::Invalid => { self.error(MErr::Graphics); return; }
            Code::Unclear => { self.out.unclear = Some("barcode data"); return; }
            Code::Bars { modules, hri } => (modules, hri),
        };
        self.flush();
        self.begin();
        let (mw, h, pos, _) = self.bar.clone();
        if pos & 1 == 1 { self.hri(&hri); }
        // symbologies leave a choice of widths: follow the drawn symbol when it is one that carries the data
        let drawn = merge_bars(self.drawn.get(self.n_rects).copied().unwrap_or(&[]));
        let mut modules = modules;
        let (lo, hi) = (drawn.iter().map(|r| r.0).min().unwrap_or(0), drawn.iter().map(|r| r.0 + r.2).max().unwrap_or(0));
        if (hi - lo) % mw == 0 && (hi - lo) / mw < 8000 {
            let mut m = vec![0u8; ((hi - lo) / mw) as usize];
            for r in &drawn { for k in (r.0 - lo) / mw..(r.0 + r.2 - lo) / mw { m[k as usize] = 1; } }
            if barcodes::carries(kind, data, &m) { modules = m; }
            else {
                // cut off at the edge: any symbol that carries the data and begins like this one
                for c in barcodes::continued(kind, data, &m) {
                    let x0 = self.just(c.len() as u32 * mw);
                    let (keep, mut r) = ((self.x, self.page.x), vec![]);
                    self.put_x(x0);
                    for b in &c { if *b == 1 && self.avail() >= mw { r.push((self.cx(), self.cy(), mw, h)); } self.right(mw); }
                    (self.x, self.page.x) = keep;
                    if merge_bars(&r) == drawn { modules = c; break; }
                }
            }
        }
        let x0 = self.just(modules.len() as u32 * mw);
        self.put_x(x0);
        let (bx, by, page) = (self.cx(), self.cy(), self.page.on);
        let mut rects = vec![];
        for b in &modules {
            if *b == 1 && self.avail() >= mw { rects.push((self.cx(), by, mw, h)); }
            self.right(mw);
        }
        let rects = merge_bars(&rects);
        self.n_rects += 1;
        self.push(MK::Bars { rects, kind, data: data.to_vec(), page, mw, height: h, x: bx, y: by });
        self.home();
        self.down(h);
        let y = self.cy();
        self.extend(y);
        if pos & 2 == 2 { self.down(8); self.hri(&hri); }
    }
    /// Some(true): can be stored, Some(false): can't, None: depends on how well it is packed
    fn qr_fits(s: &QrSym) -> Option<bool> {
        // bits of the largest symbol in L M Q H, bits of a mode, of the lengths of digits, letters, bytes and characters
        let (bits, mode, len): ([u64; 4], u64, [u64; 4]) = match s.model {
            49 => ([3688, 2920, 2088, 1576], 4, [12, 11, 16, 10]),
            50 => ([23648, 18672, 13328, 10208], 4, [14, 13, 16, 12]),
            _ => ([128, 112, 80, 0], 3, [6, 5, 5, 4]),
        };
        let room = bits[s.ec as usize];
        let d = &s.data;
        if room == 0 { return Some(false); }
        let letter = |b: u8| b.is_ascii_digit() || b.is_ascii_uppercase() || b" $%*+-./:".contains(&b);
        let n = d.len() as u64;
        // packed as one run
        let most = if d.iter().all(|b| b.is_ascii_digit()) { mode + len[0] + n / 3 * 10 + [0, 4, 7][n as usize % 3] }
            else if d.iter().all(|b| letter(*b)) { mode + len[1] + n / 2 * 11 + n % 2 * 6 }
            else { mode + len[2] + n * 8 };
        if most <= room { return Some(true); }
        // packed as well as possible, in sixths of a bit: the least for the data up to here that ends in each mode
        let head = |m: usize| (mode + len[m]) * 6;
        let mut last: [u64; 4] = [u64::MAX / 2; 4];
        let mut before = last;
        for i in 0..d.len() {
            let from = |p: &[u64; 4], first: bool, m: usize| p[m].min(if first { 0 } else { *p.iter().min().unwrap() } + head(m));
            let mut now = [u64::MAX / 2; 4];
            if d[i].is_ascii_digit() { now[0] = from(&last, i == 0, 0) + 20; }
            if letter(d[i]) { now[1] = from(&last, i == 0, 1) + 33; }
            now[2] = from(&last, i == 0, 2) + 48;
            if i > 0 && matches!(d[i - 1], 0x81..=0x9f | 0xe0..=0xeb) { now[3] = from(&before, i == 1, 3) + 78; }
            before = last;
            last = now;
        }
        if n > 0 && *last.iter().min().unwrap() > room * 6 { Some(false) } else { None }
    }
    fn code2d(&mut self, p: &[u8]) {
        if p.len() < 4 { self.error(MErr::Unknown); return; }
        let (cn, f, d) = (p[2], p[3], &p[4..]);
        let known: &[u8] = match cn { 48 => &[65, 66, 67, 69, 70, 80, 81, 82], 49 => &[65, 67, 69, 80, 81, 82], 50 => &[65, 80, 81, 82],
            51 => &[67, 71, 80, 81, 82], 52 => &[67, 71, 72, 80, 81, 82], 53 => &[66, 67, 69, 80, 81, 82], 54 => &[66, 67, 80, 81, 82], _ => &[] };
        if !known.contains(&f) { self.error(MErr::Unknown); return; }
        self.layout();
        if f == 81 && cn != 49 { self.error(MErr::Graphics); return; }
        if cn != 49 { return; }
        match f {
            65 => self.qr.0 = match at(d, 0, 49) { n @ (50 | 51) => n, _ => 49 },
            67 => { let n = at(d, 0, 1); if n > 0 { self.qr.2 = n as u32; } }
            69 => self.qr.1 = match at(d, 0, 48) { n @ 48..=51 => n - 48, n @ 1..=3 => n, _ => 0 },
            80 => {
                let s = QrSym { data: d.get(1..).unwrap_or(&[]).to_vec(), model: self.qr.0, ec: self.qr.1, size: self.qr.2 };
                match Self::qr_fits(&s) { Some(true) => self.sym = Some(s), Some(false) => self.sym = None, None => { self.out.unclear = Some("qr capacity"); } }
            }
            81 => {
                let Some(sym) = self.sym.clone() else { self.error(MErr::Graphics); return };
                self.flush();
                self.begin();
                let size = sym.size;
                // the number of modules is read from what was drawn, the QR check decodes it
                let drawn = self.drawn.get(self.n_rects).copied();
                self.n_rects += 1;
                let n = match drawn {
                    // cut off at the edge of the paper or the end of all positions: it can't be read from the drawing
                    Some([]) if self.avail() < size => { self.out.unclear = Some("cropped qr"); 0 }
                    Some(d) if self.cy() as u64 + 177 * size as u64 > FAR as u64 && !d.is_empty() => { self.out.unclear = Some("cropped qr"); 0 }
                    None | Some([]) => 21,
                    Some(d) => {
                        let y0 = d.iter().map(|r| r.1).min().unwrap_or(0);
                        let y1 = d.iter().map(|r| r.1 + r.3).max().unwrap_or(0);
                        ((y1 - y0) / size).max(11)
                    }
                };
                let x0 = self.just(n * size);
                self.put_x(x0);
                let (x, y, page) = (self.cx(), self.cy(), self.page.on);
                self.push(MK::Qr { x, y, n, size, page, sym });
                self.down(n * size);
                self.home();
                let y = self.cy();
                self.extend(y);
            }
            _ => {}
        }
    }

    // ----- commands -----
    fn go(&mut self) {
        let items = grammar::split(self.b);
        self.out.items = items.clone();
        // begin print
        self.lines(2);
        self.device("Begin Print");
        self.start_y = self.y;
        self.begin();
        for (i, it) in items.iter().enumerate() {
            self.cmd = i;
            self.item(it);
            if self.out.unclear.is_some() { return; }
        }
        self.cmd = items.len();
        self.end_print();
    }
    fn item(&mut self, it: &Item) {
        let b = self.b;
        match it.kind {
            Kind::Unknown => { self.error(MErr::Unknown); return; }
            Kind::Text => {
                let st = self.style();
                let raw = &b[it.start..it.end];
                let cs = decode_run(self.t.table, self.t.set, raw).into_iter().map(|c| (c, st.clone())).collect();
                self.collect(cs);
                return;
            }
            Kind::Cmd => {}
        }
        let op = it.opcode(b);
        let p = it.params(b);
        let p0 = p.first().copied();
        let need = grammar::FIXED.iter().find(|f| f.0 == op).map(|f| f.1).unwrap_or(0);
        if p.len() < need { self.out.unclear = Some("incomplete command"); return; }
        let n = p0.unwrap_or(0);
        let style_cmd = |m: &mut Self| m.layout();
        match op {
            b"\x0a" | b"\x0d" | b"\x09" => { let st = self.style(); self.collect(vec![(op[0] as char, st)]); }
            // style
            b"\x1bE" => { style_cmd(self); self.t.bold = n & 1 == 1 }
            b"\x1bG" => { style_cmd(self); self.t.st = if n & 1 == 1 { 2 } else { 0 } }
            b"\x1b4" => { style_cmd(self); self.t.italic = n & 1 == 1 }
            b"\x1b{" => { style_cmd(self); self.t.up = n & 1 == 1 }
            b"\x1b-" => { style_cmd(self); self.t.ul = match n { 1 | 49 => 1, 2 | 50 => 2, _ => 0 } }
            b"\x1br" => { style_cmd(self); self.t.fg = if n == 1 || n == 49 { RED } else { BLACK } }
            b"\x1dB" => { style_cmd(self); let i = n & 1 == 1; self.t.inv = i; if i { self.t.bg = BLACK; self.t.fg = WHITE } else { self.t.fg = BLACK; self.t.bg = WHITE } }
            b"\x1d!" => {
                style_cmd(self);
                self.device("Scale Text Width");
                self.device("Scale Text Height");
                self.t.wm = ((n >> 4) & 7) as u32 + 1;
                self.t.hm = (n & 7) as u32 + 1;
            }
            b"\x1b!" => {
                style_cmd(self);
                self.font(if n & 1 == 1 { 1 } else { 0 });
                self.t.bold = n & 8 != 0;
                self.t.hm = if n & 16 != 0 { 2 } else { 1 };
                self.t.wm = if n & 32 != 0 { 2 } else { 1 };
                self.t.ul = if n & 128 != 0 { 1 } else { 0 };
            }
            b"\x1bM" => { style_cmd(self); self.font(n) }
            b"\x1bt" => { style_cmd(self); self.t.table = n }
            b"\x1bR" => { style_cmd(self); self.t.set = n }
            b"\x1db" => style_cmd(self),
            b"\x1d(N" => {
                style_cmd(self);
                if p.len() >= 3 {
                    let c = ink(at(p, 3, 48));
                    match p[2] { 48 => self.t.fg = c, 49 => self.t.bg = c, _ => {} }
                }
            }
            b"\x1bD" => { style_cmd(self); self.device("Tabs Changed"); if at(p, 1, 24) < 32 { self.t.tabs[at(p, 1, 24) as usize] = at(p, 0, 24) as u32 } }
            // layout
            b"\x1ba" => {
                style_cmd(self);
                let j = match n { 1 | 49 => TextJustify::Center, 2 | 50 => TextJustify::Right, _ => TextJustify::Left };
                self.device(&format!("Justify {:?}", j));
                self.t.just = j;
            }
            b"\x1b2" => { self.layout(); self.t.spacing = 24 }
            b"\x1b3" => { self.layout(); self.t.spacing = n as u32 }
            b"\x1b$" => {
                self.layout();
                let x = le2(p, 0) / self.hu;
                let y = self.cy();
                let g = &mut self.page;
                if !g.on { self.x = x } else {
                    match g.dir {
                        0 => g.x = g.base.0 + x,
                        2 => g.x = (g.base.0 + g.area.0).saturating_sub(x),
                        3 => g.y = g.base.1 + g.area.1.saturating_sub(x),
                        _ => g.y = g.base.1 + x,
                    }
                }
                if self.cy() != y { self.flush_at(y) }
            }
            b"\x1d$" | b"\x1d\\" => {
                self.layout();
                if !self.page.on { return; }
                let before = self.page.y;
                let vu = self.vu;
                let g = &mut self.page;
                if op[1] == b'$' {
                    let y = le2(p, 0) / vu;
                    match g.dir {
                        0 => g.y = g.base.1 + y,
                        2 => g.y = g.base.1 + g.area.1.saturating_sub(y),
                        3 => g.x = g.base.0 + y,
                        _ => g.x = g.base.0 + g.area.0.saturating_sub(y),
                    }
                } else {
                    let d = (le2(p, 0) as u16 as i16) as i64 / vu as i64;
                    g.y = (g.y as i64 + d).max(0) as u32;
                }
                if self.page.y != before { self.flush_at(before) }
            }
            b"\x1dP" => {
                self.layout();
                // 0 selects the default, a dot
                self.hu = if p[0] == 0 { 1 } else { (self.dpi / p[0] as u32).clamp(1, 255) };
                self.vu = if p[1] == 0 { 1 } else { (self.dpi / p[1] as u32).clamp(1, 255) };
            }
            // feeds
            b"\x1bd" => { self.layout(); self.moving(&format!("Feed {} Lines", n)); self.lines(n as u32) }
            b"\x1bJ" => { self.layout(); self.moving(&format!("Feed {} Motion Units", n)); self.down(n as u32); self.home() }
            b"\x1be" => {
                self.layout();
                self.moving(&format!("Feed {} Lines", -(n as i32)));
                self.home();
                let up = self.t.spacing * n as u32;
                let base = if self.page.on { self.page.base.1 } else { 0 };
                let y = if n == 0 { self.cy() } else { self.cy().saturating_sub(up).max(base) };
                if self.page.on { self.page.y = y } else { self.y = y }
            }
            b"\x1dV" => {
                self.layout();
                let m = n;
                let (full, feed) = match m { 0 | 48 => (true, None), 1 | 49 => (false, None), 65 | 97 | 103 => (true, Some(at(p, 1, 0))), 66 | 98 | 104 => (false, Some(at(p, 1, 0))), _ => return };
                self.moving(if full { "Full Cut" } else { "Partial Cut" });
                self.lines(2);
                if let Some(f) = feed { self.moving(&format!("Feed {} Motion Units", f)); self.down(f as u32); self.home(); }
            }
            // pictures
            b"\x1b*" => {
                self.layout();
                let pic = if p.len() < 3 { None } else {
                    let w = le2(p, 1);
                    let h = if n == 32 || n == 33 { 24 } else { 8 };
                    let (sx, sy) = match n { 0 => (2, 3), 1 => (1, 3), 32 => (2, 1), _ => (1, 1) };
                    columns(w, h, sx, sy, BLACK, &p[3..])
                };
                self.image(pic, true);
            }
            b"\x1dv0" => {
                self.layout();
                let pic = if p.len() < 5 { None } else {
                    let (sx, sy) = match n { 1 | 49 => (2, 1), 2 | 50 => (1, 2), 3 | 51 => (2, 2), _ => (1, 1) };
                    raster(le2(p, 1) * 8, le2(p, 3), sx, sy, BLACK, &p[5..])
                };
                self.image(pic, false);
            }
            b"\x1d(L" => self.graphics(p, false),
            b"\x1d8L" => self.graphics(p, true),
            // codes
            b"\x1dk" => self.barcode(p),
            b"\x1dh" => { self.layout(); if n > 0 { self.bar.1 = n as u32 } }
            b"\x1dw" => { self.layout(); if n <= 6 { self.bar.0 = n.max(2) as u32 } }
            b"\x1dH" => { self.layout(); self.bar.2 = match n { 1 | 49 => 1, 2 | 50 => 2, 3 | 51 => 3, _ => 0 } }
            b"\x1df" => { self.layout(); self.bar.3 = Font::from_raw(n) }
            b"\x1d(k" => self.code2d(p),
            // page mode
            b"\x1bL" => {
                self.flush();
                self.moving("Begin Page Mode");
                self.page.on = true;
                self.push(MK::PageBegin);
                self.page.pw = 0;
                self.page.ph = 0;
                self.page.prev = self.page.dir;
                self.apply_area();
            }
            b"\x1bW" => {
                self.flush();
                let mut a = Area { x: le2(p, 0) / self.hu, y: le2(p, 2) / self.vu, w: le2(p, 4) / self.hu, h: le2(p, 6) / self.vu };
                a.x = a.x.min(WIDTH);
                a.w = a.w.min(WIDTH - a.x);
                if self.page.on { self.page.log = a; }
                self.moving("Change Page Area");
                if self.page.on { self.page.prev = self.page.dir; self.apply_area(); }
            }
            b"\x1bT" => {
                self.flush();
                if self.page.on {
                    self.page.prev = self.page.dir;
                    self.page.dir = match n { 1 | 49 => 1, 2 | 50 => 2, 3 | 51 => 3, _ => 0 };
                }
                self.moving("Change Page Mode Direction");
                if self.page.on { self.apply_area(); }
            }
            b"\x1b\x0c" => { self.layout(); if self.page.on { self.print_page() } }
            b"\x1bS" => { self.layout(); if self.page.on { self.end_page() } }
            b"\x0c" => {
                self.layout();
                if self.page.on { self.end_page(); self.print_page() } else { self.end_print() }
            }
            b"\x1b@" => {
                self.flush();
                let was = self.page.on;
                self.x = 0;
                self.page = Page::new();
                self.t = TextSt::new();
                self.hu = 1; self.vu = 1; self.dpi = 203;
                self.bar = (3, 40, 0, Font::A);
                self.qr = (49, 0, 3);
                self.sym = None;
                self.buffer.clear();
                self.stored.retain(|k, _| k.2);
                if was { self.push(MK::PageEnd) }
                self.device("Initialize");
                self.y = self.y.max(self.bottom);
            }
            // no effect on paper
            _ => self.layout(),
        }
    }
    /// the open line stays where it is although the cursor has already moved
    fn flush_at(&mut self, _y: u32) { self.flush() }
    fn end_page(&mut self) {
        self.moving("End Page Mode");
        self.push(MK::PageEnd);
        self.page.on = false;
    }
    fn font(&mut self, n: u8) {
        self.t.font = Font::from_raw(n);
        if self.t.font == Font::A { self.t.bcw = 12; self.t.bch = 24 } else { self.t.bcw = 9; self.t.bch = 17 }
    }
}

/// The characters of a byte in a code table, with the replacements of a national set
/// (bytes a table leaves undefined print nothing).
pub fn decode(table: u8, set: u8, b: u8) -> String {
    if let Some(r) = tables::national(set).iter().find(|r| r.0 == b) { return r.1.to_string(); }
    if b < 128 { (b as char).to_string() } else { tables::high(table)[b as usize - 128].to_string() }
}
/// A text run as the characters it stands for.
pub fn decode_run(table: u8, set: u8, raw: &[u8]) -> Vec<char> {
    if table == 255 { String::from_utf8_lossy(raw).chars().collect() }
    else { raw.iter().flat_map(|x| decode(table, set, *x).chars().collect::<Vec<_>>()).collect() }
}
