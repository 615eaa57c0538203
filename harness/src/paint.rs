//! Reference painter: the paper image that an event log stands for.
use crate::rec::{Ev, Rgba, Span};
use fontdue::layout::CharacterData;
use fontdue::{Font as F, FontSettings};
use std::cell::RefCell;
use std::collections::HashMap;
use thermal_parser::context::Font;

pub const PAPER_W: u32 = 649;

#[derive(Clone, Default)]
pub struct Sheet { pub w: u32, pub h: u32, pub px: Vec<[u8; 3]> }

/// A sheet with a direction; the pixels stay in the standard direction all the time.
#[derive(Clone, Default)]
struct Canvas { w: u32, h: u32, px: Vec<[u8; 3]>, grow: bool, dir: u8 }

fn mul(a: u8, b: u8) -> u8 { ((2 * a as u32 * b as u32 + 255) / 510) as u8 }
fn mix(b: u8, c: u8, p: u8) -> u8 { ((2 * (c as u32 * p as u32 + b as u32 * (255 - p as u32)) + 255) / 510) as u8 }

impl Canvas {
    fn frame(&self) -> (u32, u32) { if self.dir % 2 == 1 { (self.h, self.w) } else { (self.w, self.h) } }
    fn extend(&mut self, w: u32, h: u32) {
        if w == self.w { self.px.resize(w as usize * h as usize, [255; 3]); self.h = h; return; }
        let mut n = vec![[255u8; 3]; w as usize * h as usize];
        for y in 0..self.h as usize { for x in 0..self.w as usize { n[y * w as usize + x] = self.px[y * self.w as usize + x]; } }
        self.px = n;
        self.w = w;
        self.h = h;
    }
    /// Adds ink; false: completely outside.
    fn put(&mut self, x: u32, y: u32, w: u32, h: u32, px: impl Fn(u32, u32) -> Rgba) -> bool {
        let (fw, fh) = self.frame();
        if x >= fw || (y >= fh && !self.grow) { return false; }
        if self.grow && y + h > self.h { let w = self.w; self.extend(w, y + h); }
        let fh = self.frame().1;
        for v in 0..h {
            if y + v >= fh { break; }
            for u in 0..w {
                if x + u >= fw { break; }
                let c = px(u, v);
                if c.3 == 0 { continue; }
                let (a, b) = (x + u, y + v);
                let (sx, sy) = match self.dir { 0 => (a, b), 1 => (b, self.h - 1 - a), 2 => (self.w - 1 - a, self.h - 1 - b), _ => (self.w - 1 - b, a) };
                let d = &mut self.px[sy as usize * self.w as usize + sx as usize];
                *d = [mul(d[0], c.0), mul(d[1], c.1), mul(d[2], c.2)];
            }
        }
        true
    }
}

struct Fonts { f: [F; 4], cache: HashMap<(char, usize, u8, u32, u32, Rgba, Rgba), Option<Vec<Rgba>>> }
thread_local! { static FONTS: RefCell<Option<Fonts>> = RefCell::new(None); }

fn load(b: &[u8]) -> F { F::from_bytes(b, FontSettings::default()).unwrap() }
const SIZE: f32 = 12f32 * 1.68;

/// Size in pixels and the baseline ratio of a font.
fn metrics(f: &Font) -> (f32, f32) {
    match f { Font::B => (SIZE * 0.8, SIZE * 0.8 * 0.0315), Font::C => (SIZE * 0.7, SIZE * 0.5 * 0.0315), _ => (SIZE, SIZE * 0.0315) }
}

impl Fonts {
    fn new() -> Fonts {
        Fonts { f: [
            load(include_bytes!("../../../repo/thermal_renderer/resources/fonts/JetBrainsMonoNL-Medium.ttf")),
            load(include_bytes!("../../../repo/thermal_renderer/resources/fonts/JetBrainsMonoNL-Bold.ttf")),
            load(include_bytes!("../../../repo/thermal_renderer/resources/fonts/JetBrainsMonoNL-MediumItalic.ttf")),
            load(include_bytes!("../../../repo/thermal_renderer/resources/fonts/JetBrainsMonoNL-BoldItalic.ttf")),
        ], cache: HashMap::new() }
    }
    /// The cell of a character, None for control characters.
    fn cell(&mut self, c: char, s: &Span) -> Option<&Vec<Rgba>> {
        let face = s.bold as usize + 2 * s.italic as usize;
        let fid = match s.font { Font::B => 1, Font::C => 2, _ => 0 };
        if self.cache.len() > 60_000 { self.cache.clear(); }
        let font = &self.f[face];
        self.cache.entry((c, face, fid, s.cw, s.ch, s.fg, s.bg)).or_insert_with(|| draw(font, c, s)).as_ref()
    }
}
fn draw(font: &F, c: char, s: &Span) -> Option<Vec<Rgba>> {
    if CharacterData::classify(c, font.lookup_glyph_index(c)).is_control() { return None; }
    let (wm, hm) = (s.cw / s.bcw, s.ch / s.bch);
    let k = wm.max(hm);
    let px = metrics(&s.font).0 * k as f32;
    let (m, map) = font.rasterize(c, px);
    let lm = font.horizontal_line_metrics(px).unwrap();
    // the glyph hangs from the top so that its bottom is on the baseline
    let top = f32::ceil((f32::ceil(lm.ascent + lm.descent) - m.bounds.height) - m.bounds.ymin) as u32;
    let left = m.bounds.xmin.round().abs() as u32;
    let (w, h) = (s.bcw * k, s.bch * k);
    let at = |x: u32, y: u32| -> Rgba {
        if x < left || y < top || x - left >= m.width as u32 || y - top >= m.height as u32 { return s.bg; }
        let a = map[(y - top) as usize * m.width + (x - left) as usize];
        (mix(s.bg.0, s.fg.0, a), mix(s.bg.1, s.fg.1, a), mix(s.bg.2, s.fg.2, a), s.bg.3)
    };
    // nearest dot of the larger drawing
    let (rx, ry) = (w as f32 / s.cw as f32, h as f32 / s.ch as f32);
    let mut v = Vec::with_capacity((s.cw * s.ch) as usize);
    for y in 0..s.ch { for x in 0..s.cw { v.push(at((x as f32 * rx) as u32, (y as f32 * ry) as u32)); } }
    Some(v)
}

fn text(f: &mut Fonts, cv: &mut Canvas, s: &Span, x_offset: u32, max_h: u32, out: &mut Painted) {
    let Some((x0, y0, w, h)) = s.dim else { return };
    let ratio = metrics(&s.font).1;
    let drop = if max_h > s.ch { (max_h as f32 * ratio - s.ch as f32 * ratio) as u32 } else { 0 };
    let (x0, y0) = (x0 + x_offset, y0 + drop);
    for (i, c) in s.text.chars().enumerate() {
        if s.cw == 0 || s.ch == 0 { continue; }
        let Some(cell) = f.cell(c, s) else { continue };
        let ok = cv.put(x0 + i as u32 * s.cw, y0, s.cw, s.ch, |u, v| cell[((if s.upside { s.ch - 1 - v } else { v }) * s.cw + u) as usize]);
        out.glyphs += 1;
        if !ok { out.outside += 1; }
    }
    for (thick, at, hh) in [(s.underline, 3 + (s.ch as f32 * ratio) as u32, 1), (s.strike, (s.ch as f32 / 2.5) as u32, s.strike)] {
        if thick == 0 { continue; }
        let y = if s.upside { h.saturating_sub(at + hh) } else { at };
        if !cv.put(x0, y0 + y, w, hh, |_, _| s.fg) { out.outside += 1; }
        out.lines += 1;
    }
}

#[derive(Default)]
pub struct Painted {
    pub sheets: Vec<Sheet>,
    /// pages as composed, at the time each was printed
    pub pages: Vec<Sheet>,
    pub glyphs: u64, pub pictures: u64, pub bars: u64, pub lines: u64, pub outside: u64,
}

pub fn paint(log: &[Ev]) -> Painted {
    let mut f = FONTS.with(|f| f.borrow_mut().take()).unwrap_or_else(Fonts::new);
    let p = paint_with(&mut f, log);
    FONTS.with(|g| *g.borrow_mut() = Some(f));
    p
}
fn paint_with(f: &mut Fonts, log: &[Ev]) -> Painted {
    let mut out = Painted::default();
    let mut paper = Canvas { w: 609, grow: true, ..Default::default() };
    let mut page = Canvas::default();
    for e in log {
        match e {
            Ev::Begin { .. } => { paper = Canvas { w: 609, grow: true, ..Default::default() }; page.w = 0; page.h = 0; page.px.clear(); }
            Ev::Text { spans, x_offset, max_height, page: p, .. } => {
                let cv = if *p { &mut page } else { &mut paper };
                for s in spans { text(f, cv, s, *x_offset, *max_height, &mut out); }
            }
            Ev::Image { img, page: p } => {
                let cv = if *p { &mut page } else { &mut paper };
                out.pictures += 1;
                if !cv.put(img.x, img.y, img.w, img.h, |u, v| img.px[((if img.upside { img.h - 1 - v } else { v }) * img.w + u) as usize]) { out.outside += 1; }
            }
            Ev::Rects { rects, color, page: p } => {
                let cv = if *p { &mut page } else { &mut paper };
                for r in rects { out.bars += 1; if !cv.put(r.0, r.1, r.2, r.3, |_, _| *color) { out.outside += 1; } }
            }
            Ev::PageBegin => { page.w = 0; page.h = 0; page.px.clear(); }
            Ev::PageArea { dir, w, h, .. } => {
                page.dir = *dir;
                let (pw, ph) = if dir % 2 == 1 { (*h, *w) } else { (*w, *h) };
                let (nw, nh) = (page.w.max(pw), page.h.max(ph));
                if (nw, nh) != (page.w, page.h) { page.extend(nw, nh); }
            }
            Ev::PageEnd => {}
            Ev::PagePrint { x, y, .. } => {
                let s = Sheet { w: page.w, h: page.h, px: page.px.clone() };
                if !paper.put(*x, *y, s.w, s.h, |u, v| { let p = s.px[v as usize * s.w as usize + u as usize]; (p[0], p[1], p[2], 255) }) { out.outside += 1; }
                out.pages.push(s);
            }
            Ev::Device(_) => {}
            Ev::End { y, .. } => {
                if *y > paper.h { paper.extend(609, *y); }
                let m = (PAPER_W - 609) / 2;
                let mut s = Sheet { w: PAPER_W, h: paper.h, px: vec![[255; 3]; PAPER_W as usize * paper.h as usize] };
                for v in 0..paper.h as usize { for u in 0..609usize { s.px[v * PAPER_W as usize + m as usize + u] = paper.px[v * 609 + u]; } }
                out.sheets.push(s);
                paper = Canvas { w: 609, grow: true, ..Default::default() };
            }
        }
    }
    out
}

/// Compares a rendered image with a painted sheet.
pub fn same(w: u32, h: u32, bytes: &[u8], s: &Sheet) -> Result<(), String> {
    if w != s.w { return Err(format!("image is {} wide, expected {}", w, s.w)); }
    if bytes.len() as u64 != w as u64 * h as u64 * 3 { return Err(format!("image of {}x{} has {} bytes", w, h, bytes.len())); }
    if h != s.h { return Err(format!("image is {} high, expected {}", h, s.h)); }
    for (i, p) in s.px.iter().enumerate() {
        if bytes[i * 3..i * 3 + 3] != p[..] {
            let n = s.px.iter().enumerate().filter(|(i, p)| bytes[i * 3..i * 3 + 3] != p[..]).count();
            return Err(format!("pixel {},{} is {:?}, expected {:?} ({} pixels differ)", i as u32 % w, i as u32 / w, &bytes[i * 3..i * 3 + 3], p, n));
        }
    }
    Ok(())
}
