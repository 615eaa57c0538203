//! Comparison of the event log of a real run with the reference layout.
use crate::core::*;
use crate::model::{self, MErr, MEv, MK, Out};
use crate::rec::{self, Ev, Recorded, Rgba};
pub use crate::model::merge_bars;
use thermal_parser::context::TextJustify;

pub struct Both { pub bytes: Vec<u8>, pub out: Out, pub rec: Recorded }

/// Runs the real layout and the reference; None: the reference leaves the job undecided.
pub fn both(bytes: &[u8]) -> Result<Both, &'static str> {
    let rec = rec::record(bytes);
    let out = model::run(bytes, &rec.log.ev);
    if let Some(u) = out.unclear { return Err(u); }
    Ok(Both { bytes: bytes.to_vec(), out, rec })
}

#[derive(Clone, Debug)]
pub struct LChar<'a> { pub c: char, pub s: &'a rec::Span, pub x: u32, pub y: u32, pub line: usize, pub page: bool }

pub fn log_chars(log: &[Ev]) -> Vec<LChar<'_>> {
    let mut v = vec![];
    let mut line = 0;
    for e in log {
        if let Ev::Text { spans, x_offset, page, .. } = e {
            for s in spans {
                let (x, y, _, _) = s.dim.unwrap_or((u32::MAX / 2, 0, 0, 0));
                for (i, c) in s.text.chars().enumerate() { v.push(LChar { c, s, x: x + x_offset + i as u32 * s.cw, y, line, page: *page }); }
            }
            line += 1;
        }
    }
    v
}
pub struct RChar<'a> { pub m: &'a model::MChar, pub line: usize, pub page: bool }
pub fn model_chars(out: &Out) -> Vec<RChar<'_>> {
    let mut v = vec![];
    let mut line = 0;
    for e in &out.ev {
        if let MK::Line { chars, page, .. } = &e.k { for m in chars { v.push(RChar { m, line, page: *page }); } line += 1; }
    }
    v
}

impl Both {
    pub fn near(&self, cmd: usize) -> String {
        match self.out.items.get(cmd) {
            Some(it) => { let a = it.start.saturating_sub(12); let e = (it.end + 6).min(self.bytes.len()).min(it.start + 60); format!("at byte {} in {}", it.start, show(&self.bytes[a..e])) }
            None => "at the end of the job".into(),
        }
    }
    fn job(&self) -> String { format!("\njob: {}", show(&self.bytes)) }

    /// Characters in order.
    pub fn chars(&self) -> Result<u64, String> {
        let l = log_chars(&self.rec.log.ev);
        let m = model_chars(&self.out);
        for (i, (a, b)) in l.iter().zip(m.iter()).enumerate() {
            if a.c != b.m.c { return Err(format!("character {} printed as {:?}, expected {:?} {}{}", i, a.c, b.m.c, self.near(b.m.cmd), self.job())); }
        }
        if l.len() != m.len() { return Err(format!("{} characters printed, expected {}{}", l.len(), m.len(), self.job())); }
        Ok(m.len() as u64)
    }
    pub fn styles(&self) -> Result<u64, String> {
        let l = log_chars(&self.rec.log.ev);
        let m = model_chars(&self.out);
        if l.len() != m.len() { return Ok(0); }
        for (i, (a, b)) in l.iter().zip(m.iter()).enumerate() {
            if a.c != b.m.c { return Ok(0); }
            let (s, t) = (a.s, &b.m.st);
            let bad = if s.font != t.font { Some(format!("font {:?}, expected {:?}", s.font, t.font)) }
                else if (s.cw, s.ch) != (t.cw(), t.ch()) { Some(format!("size {:?}, expected {:?}", (s.cw, s.ch), (t.cw(), t.ch()))) }
                else if (s.bcw, s.bch) != (t.bcw, t.bch) { Some(format!("base size {:?}, expected {:?}", (s.bcw, s.bch), (t.bcw, t.bch))) }
                else if s.bold != t.bold { Some(format!("bold {}", s.bold)) }
                else if s.italic != t.italic { Some(format!("italic {}", s.italic)) }
                else if s.underline != t.underline { Some(format!("underline of {} dots, expected {}", s.underline, t.underline)) }
                else if s.strike != t.strike { Some(format!("strike of {} dots, expected {}", s.strike, t.strike)) }
                else if s.inverted != t.inverted { Some(format!("inverted {}", s.inverted)) }
                else if s.upside != t.upside { Some(format!("upside down {}", s.upside)) }
                else if s.fg != t.fg { Some(format!("colour {:?}, expected {:?}", s.fg, t.fg)) }
                else if s.bg != t.bg { Some(format!("background {:?}, expected {:?}", s.bg, t.bg)) }
                else { None };
            if let Some(x) = bad { return Err(format!("character {} {:?} has {} {}{}", i, a.c, x, self.near(b.m.cmd), self.job())); }
        }
        Ok(m.len() as u64)
    }
    /// Which characters share a line.
    pub fn line_breaks(&self) -> Result<u64, String> {
        let l = log_chars(&self.rec.log.ev);
        let m = model_chars(&self.out);
        for (i, (a, b)) in l.iter().zip(m.iter()).enumerate() {
            if a.c != b.m.c { return Ok(0); }
            if a.line != b.line { return Err(format!("character {} {:?} is on printed line {}, expected line {} {}{}", i, a.c, a.line, b.line, self.near(b.m.cmd), self.job())); }
        }
        Ok(m.last().map(|c| c.line as u64 + 1).unwrap_or(0))
    }
    pub fn char_places(&self, page: bool) -> Result<u64, String> {
        let l = log_chars(&self.rec.log.ev);
        let m = model_chars(&self.out);
        if l.len() != m.len() { return Ok(0); }
        let mut n = 0;
        for (i, (a, b)) in l.iter().zip(m.iter()).enumerate() {
            if a.c != b.m.c { return Ok(n); }
            if a.page != b.page { return Err(format!("character {} {:?} printed {}on the page {}{}", i, a.c, if a.page { "" } else { "not " }, self.near(b.m.cmd), self.job())); }
            if b.page != page { continue; }
            n += 1;
            if (a.x, a.y) != (b.m.x, b.m.y) { return Err(format!("character {} {:?} is at {:?}, expected {:?} {}{}", i, a.c, (a.x, a.y), (b.m.x, b.m.y), self.near(b.m.cmd), self.job())); }
        }
        Ok(n)
    }
    /// Positions of pictures and symbols and the finished paper; page: those of page mode.
    pub fn places(&self, page: bool) -> Result<u64, String> {
        let mut n = self.char_places(page)?;
        let l: Vec<(&Ev, String, (u32, u32))> = self.rec.log.ev.iter().filter_map(|e| Some(match e {
            Ev::Image { img, page: p } if *p == page => (e, format!("picture of {}x{}", img.w, img.h), (img.x, img.y)),
            Ev::Rects { rects, page: p, .. } if *p == page => (e, "symbol".to_string(), rects.first().map(|r| (r.0, r.1)).unwrap_or((0, 0))),
            Ev::End { y, .. } if !page => (e, "end of the paper".to_string(), (0, *y)),
            _ => return None,
        })).collect();
        let m: Vec<(&MEv, String, (u32, u32))> = self.out.ev.iter().filter_map(|e| Some(match &e.k {
            MK::Image { x, y, pic, page: p } if *p == page => (e, format!("picture of {}x{}", pic.w, pic.h), (*x, *y)),
            MK::Bars { rects, page: p, .. } if *p == page => (e, "symbol".to_string(), rects.first().map(|r| (r.0, r.1)).unwrap_or((0, 0))),
            MK::Qr { x, y, page: p, .. } if *p == page => (e, "symbol".to_string(), (*x, *y)),
            MK::End { y } if !page => (e, "end of the paper".to_string(), (0, *y)),
            _ => return None,
        })).collect();
        for (i, (a, b)) in l.iter().zip(m.iter()).enumerate() {
            n += 1;
            if a.1 != b.1 { return Err(format!("output {} is a {}, expected a {} {}{}", i, a.1, b.1, self.near(b.0.cmd), self.job())); }
            if a.2 != b.2 {
                // the top left module of a symbol that doesn't fit may be missing
                if let (Ev::Rects { rects, .. }, MK::Qr { .. }) = (a.0, &b.0.k) { if rects.is_empty() { continue; } }
                return Err(format!("{} is at {:?}, expected {:?} {}{}", a.1, a.2, b.2, self.near(b.0.cmd), self.job()));
            }
        }
        if l.len() != m.len() { return Err(format!("{} pictures, symbols and paper ends, expected {}{}", l.len(), m.len(), self.job())); }
        Ok(n)
    }
    /// Order of all output, cuts and page events.
    pub fn order(&self) -> Result<u64, String> {
        let l: Vec<String> = self.rec.log.ev.iter().filter_map(|e| Some(match e {
            Ev::Begin { .. } => "begin".into(),
            Ev::Text { spans, .. } => { if spans.iter().all(|s| s.text.is_empty()) { return None; } "text line".into() }
            Ev::Image { .. } => "picture".into(),
            Ev::Rects { .. } => "symbol".into(),
            Ev::PageBegin => "page begin".into(),
            Ev::PageArea { rot, w, h, .. } => format!("page area turned by {} now {}x{}", rot, w, h),
            Ev::PageEnd => "page end".into(),
            Ev::PagePrint { x, y, dir } => format!("page print at {},{} direction {}", x, y, dir),
            Ev::Device(d) => { if !d.ends_with("Cut") { return None; } format!("device {}", d) }
            Ev::End { .. } => "end".into(),
        })).collect();
        let m: Vec<(usize, String)> = self.out.ev.iter().filter_map(|e| Some((e.cmd, match &e.k {
            MK::Begin => "begin".into(),
            MK::Line { .. } => "text line".into(),
            MK::Image { .. } => "picture".into(),
            MK::Bars { .. } | MK::Qr { .. } => "symbol".into(),
            MK::PageBegin => "page begin".into(),
            MK::PageArea { rot, w, h } => format!("page area turned by {} now {}x{}", rot, w, h),
            MK::PageEnd => "page end".into(),
            MK::PagePrint { x, y, dir, .. } => format!("page print at {},{} direction {}", x, y, dir),
            MK::Device(d) => { if !d.ends_with("Cut") { return None; } format!("device {}", d) }
            MK::End { .. } => "end".into(),
        }))).collect();
        for (i, (a, b)) in l.iter().zip(m.iter()).enumerate() {
            if *a != b.1 { return Err(format!("event {} is {:?}, expected {:?} {}{}", i, a, b.1, self.near(b.0), self.job())); }
        }
        if l.len() != m.len() { return Err(format!("{} events, expected {}: {:?}{}", l.len(), m.len(), l.get(m.len()).or(m.get(l.len()).map(|x| &x.1)), self.job())); }
        Ok(l.len() as u64)
    }
    /// Bars of every barcode, module by module; returns (symbols, bars).
    pub fn bars(&self) -> Result<(u64, u64), String> {
        let l: Vec<_> = self.rec.log.ev.iter().filter_map(|e| if let Ev::Rects { rects, .. } = e { Some(rects) } else { None }).collect();
        let m: Vec<_> = self.out.ev.iter().filter(|e| matches!(e.k, MK::Bars { .. } | MK::Qr { .. })).collect();
        let (mut n, mut k) = (0, 0);
        for (i, (a, e)) in l.iter().zip(m.iter()).enumerate() {
            let MK::Bars { rects, kind, data, mw, height, .. } = &e.k else { continue };
            n += 1;
            k += rects.len() as u64;
            let mut a = a.to_vec();
            a.sort();
            let a = merge_bars(&a);
            if a != *rects {
                return Err(format!("symbol {} of kind {} for {} with modules {} wide and {} high has the bars {:?}, expected {:?} {}{}", i, kind, show(data), mw, height,
                    &a[..a.len().min(40)], &rects[..rects.len().min(40)], self.near(e.cmd), self.job()));
            }
        }
        if l.len() != m.len() { return Err(format!("{} symbols drawn, expected {}{}", l.len(), m.len(), self.job())); }
        Ok((n, k))
    }
    /// Reads every QR code that is completely on the paper; returns what was read.
    pub fn qrs(&self) -> Result<Vec<crate::qr::Symbol>, String> {
        let l: Vec<_> = self.rec.log.ev.iter().filter_map(|e| if let Ev::Rects { rects, .. } = e { Some(rects) } else { None }).collect();
        let m: Vec<_> = self.out.ev.iter().filter(|e| matches!(e.k, MK::Bars { .. } | MK::Qr { .. })).collect();
        if l.len() != m.len() { return Err(format!("{} symbols drawn, expected {}{}", l.len(), m.len(), self.job())); }
        let mut v = vec![];
        for (a, e) in l.iter().zip(m.iter()) {
            let MK::Qr { x, y, n, size, sym, page } = &e.k else { continue };
            // cut off at the edge of the paper or the page
            if *page || x + n * size > model::WIDTH { continue; }
            let err = |t: String| format!("QR code of {} bytes, level {}, module size {}: {} {}{}", sym.data.len(), sym.ec, size, t, self.near(e.cmd), self.job());
            let s = crate::qr::modules(a, *x, *y, *n, *size).and_then(|m| crate::qr::decode(&m)).map_err(err)?;
            if s.data != sym.data { return Err(err(format!("reads as {}, expected {}", show(&s.data), show(&sym.data)))); }
            if s.micro != (sym.model == 51) { return Err(err(format!("micro {} for model {}", s.micro, sym.model))); }
            // M1 only has error detection, the lowest level of Micro QR
            if s.ec != sym.ec { return Err(err(format!("has level {}", s.ec))); }
            v.push(s);
        }
        Ok(v)
    }
    /// Pictures: size and dots.
    pub fn pictures(&self) -> Result<u64, String> {
        let l: Vec<_> = self.rec.log.ev.iter().filter_map(|e| if let Ev::Image { img, .. } = e { Some(img) } else { None }).collect();
        let m: Vec<_> = self.out.ev.iter().filter_map(|e| if let MK::Image { pic, .. } = &e.k { Some((e.cmd, pic)) } else { None }).collect();
        for (i, (a, (cmd, b))) in l.iter().zip(m.iter()).enumerate() {
            let flipped: Vec<Rgba>;
            let px = if a.upside { flipped = a.px.chunks(a.w.max(1) as usize).rev().flatten().copied().collect(); &flipped } else { &a.px };
            same_picture(a.w, a.h, px, b).map_err(|e| format!("picture {} {} {}{}", i, e, self.near(*cmd), self.job()))?;
        }
        if l.len() != m.len() { return Err(format!("{} pictures drawn, expected {}{}", l.len(), m.len(), self.job())); }
        Ok(m.len() as u64)
    }
    pub fn errors(&self) -> Result<u64, String> {
        let l: Vec<&str> = self.rec.errors.iter().map(|e| if e.contains("UnknownCommand") { "unknown command" } else if e.contains("GraphicsError") { "graphics error" } else { "other" }).collect();
        for (i, e) in self.out.errors.iter().enumerate() {
            let want = match e.1 { MErr::Unknown => "unknown command", MErr::Graphics => "graphics error" };
            match l.get(i) {
                Some(x) if *x == want => {}
                x => return Err(format!("error {} is {:?}, expected an {} {}\nerrors: {:?}{}", i, x, want, self.near(e.0), self.rec.errors, self.job())),
            }
        }
        if l.len() != self.out.errors.len() { return Err(format!("{} errors, expected {}: {:?}{}", l.len(), self.out.errors.len(), self.rec.errors, self.job())); }
        Ok(l.len() as u64)
    }
    /// Line properties: justification and height as handed over.
    pub fn line_meta(&self) -> Result<u64, String> {
        let l = self.rec.log.ev.iter().filter_map(|e| if let Ev::Text { max_height, justify, .. } = e { Some((*max_height, justify.clone())) } else { None });
        let m = self.out.ev.iter().filter_map(|e| if let MK::Line { max_height, justify, .. } = &e.k { Some((e.cmd, *max_height, justify.clone())) } else { None });
        let mut n = 0;
        for (i, (a, b)) in l.zip(m).enumerate() {
            n += 1;
            if a.0 != b.1 || a.1 != b.2 { return Err(format!("line {} is {:?} high and {:?}, expected {} and {:?} {}{}", i, a.0, a.1, b.1, b.2, self.near(b.0), self.job())); }
        }
        let _ = TextJustify::Left;
        Ok(n)
    }
}

pub fn same_picture(w: u32, h: u32, px: &[Rgba], b: &model::Pic) -> Result<(), String> {
    if (w, h) != (b.w, b.h) { return Err(format!("is {}x{} dots, expected {}x{}", w, h, b.w, b.h)); }
    if px.len() != b.px.len() { return Err(format!("has {} dots, expected {}", px.len(), b.px.len())); }
    for (i, (p, q)) in px.iter().zip(b.px.iter()).enumerate() {
        // the colour of a dot without ink doesn't matter
        if p.3 != q.3 || (q.3 != 0 && p != q) { return Err(format!("has {:?} at {},{}, expected {:?}", p, i as u32 % w, i as u32 / w, q)); }
    }
    Ok(())
}
