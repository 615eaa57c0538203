//! C16 and C17: the finished image and the HTML receipt against the event log of the layout.
use super::proj::{in_page, paged};
use crate::core::*;
use crate::e2e;
use crate::gen::*;
use crate::html;
use crate::paint;
use crate::rec::{self, Ev};
use crate::rng::Rng;

/// Rows of the tallest receipts that are painted: more than 16 bits count.
const TALL: u64 = 150_000;
/// A receipt of about 65536 rows or more.
pub fn tall(r: &mut Rng, i: usize) -> Vec<u8> {
    let mut v = vec![];
    let c = Cfg { img: 40, page: 0, ..Cfg::all() };
    if r.chance(1, 2) { v.extend(job(r, &c, 4)); v.push(LF) }
    let rows = [32_768usize, 65_536, 131_072, 65_536][i % 4] + r.below(3_000) - 1_500;
    match i / 4 % 3 {
        0 => { v.extend([ESC, b'3', 255]); for _ in 0..rows / (255 * 200) { v.extend([ESC, b'd', 200]) } for _ in 0..rows % (255 * 200) / 255 { v.push(LF) } v.extend([ESC, b'2']) }
        1 => { let h = rows.min(65_535); v.extend([GS, b'v', b'0', 0, 1 + r.below(2) as u8, 0]); v.extend(u16le(h)); let w = v[v.len() - 4] as usize; let d = raw_dots(r, w * h); v.extend(d); for _ in 0..rows.saturating_sub(h) / 24 { v.push(LF) } }
        _ => { for k in 0..rows / 24 { if k % 40 == 0 || k > rows / 24 - 30 { let w = word(r, true, 5); v.extend(w) } v.push(LF) } }
    }
    for _ in 0..2 + r.below(12) { if r.chance(1, 6) { v.extend([ESC, b'e', 1 + r.below(3) as u8]) } step(r, &mut v, &c); if r.chance(1, 3) { v.push(LF) } }
    v.extend(b"at the end\n");
    v
}

fn ink_states(ev: &[Ev], o: &mut Obs) {
    for e in ev {
        o.state(match e {
            Ev::Text { spans, page, .. } => fnv(&spans.iter().flat_map(|s| [s.cw as u8, s.ch as u8, s.underline as u8, s.strike as u8, s.bold as u8 | (s.italic as u8) << 1 | (s.inverted as u8) << 2 | (s.upside as u8) << 3, s.fg.0, s.bg.0]).collect::<Vec<_>>(), *page as u64),
            Ev::Image { img, page } => fnv(&[img.w as u8, img.h as u8, (img.x + img.w > 609) as u8, img.upside as u8], 2 + *page as u64),
            Ev::Rects { rects, page, .. } => fnv(&[rects.len() as u8, (rects.iter().any(|r| r.0 + r.2 > 609)) as u8], 4 + *page as u64),
            Ev::PagePrint { dir, .. } => 6 + *dir as u64,
            _ => continue,
        });
    }
}

pub fn eval16(c: &Case) -> Verdict {
    let b = &c.data[0];
    let mut o = Obs::default();
    let r = rec::record(b);
    if !e2e::within(&r.log, if c.family == "tall" { TALL } else if c.family == "large-laid-out" { 40_000 } else { e2e::MAX_ROWS }) { o.add("too_large_to_paint", 1); o.trivial = true; return Ok(o); }
    let p = paint::paint(&r.log.ev);
    // the sheet is at least as long as what was fed and printed
    let ends: Vec<u32> = r.log.ev.iter().filter_map(|e| if let Ev::End { y, .. } = e { Some(*y) } else { None }).collect();
    for (s, y) in p.sheets.iter().zip(&ends) { if s.h < *y { return Err("reference: sheet too short".into()); } }
    e2e::image(b, &r.log, &r.errors, &p).map_err(|e| format!("{}\njob: {}", e, show(b)))?;
    o.add("images", p.sheets.len() as u64);
    o.add("pixels_compared", p.sheets.iter().map(|s| s.px.len() as u64).sum());
    o.add("glyphs", p.glyphs); o.add("pictures", p.pictures); o.add("bars", p.bars); o.add("lines", p.lines); o.add("drawn_outside", p.outside); o.add("pages", p.pages.len() as u64);
    ink_states(&r.log.ev, &mut o);
    o.trivial = p.glyphs + p.pictures + p.bars == 0;
    Ok(o)
}
pub fn eval17(c: &Case) -> Verdict {
    let b = &c.data[0];
    let mut o = Obs::default();
    let r = rec::record(b);
    if !e2e::within(&r.log, if c.family == "tall" { TALL } else if c.family == "large-laid-out" { 40_000 } else { e2e::MAX_ROWS }) { o.add("too_large_to_paint", 1); o.trivial = true; return Ok(o); }
    let p = paint::paint(&r.log.ev);
    let n = e2e::html(b, &r.log, &r.errors, &p).map_err(|e| format!("{}\njob: {}", e, show(b)))?;
    o.add("elements_compared", n);
    let (styled, odd) = crate::css::counts();
    o.add("texts_judged_by_the_style_sheet", styled); o.add("texts_with_an_unknown_transform", odd);
    ink_states(&r.log.ev, &mut o);
    o.trivial = n == 0;
    let _ = html::COLORS;
    Ok(o)
}

fn color(r: &mut Rng, v: &mut Vec<u8>) { match r.below(3) { 0 => v.extend([ESC, b'r', r.below(2) as u8]), 1 => v.extend([GS, b'B', r.below(2) as u8]), _ => char_effect(r, v) } }

/// Things on top of each other.
pub fn overlaps(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..2 + r.below(12) {
        match r.below(10) {
            0 => v.extend([ESC, b'e', 1 + r.below(6) as u8]),
            1 => { v.extend([ESC, b'$']); v.extend(u16le(r.below(620))) }
            2 => { let c = Cfg { img: 100, ..Cfg::zero() }; image(r, &mut v, &c) }
            3 => { let k = r.below(9); let d = barcode_data(r, k); barcode_cmd(k, true, &d, &mut v) }
            4 => { qr_store(b"over", &mut v); gs_k(49, 81, &[48], &mut v) }
            5 => color(r, &mut v),
            6 => style(r, &mut v),
            7 => { let c = Cfg { img: 40, ..Cfg::zero() }; for _ in 0..1 + r.below(3) { store(r, &mut v, &c); } gs_l(false, 48, 50, &[], &mut v) }
            _ => { let a = r.below(4) != 0; let t = text(r, a); v.extend(&t[..t.len().min(60)]); v.push(LF) }
        }
    }
    v
}
/// Things that reach over the edges.
fn edges(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..1 + r.below(6) {
        match r.below(8) {
            0 => { v.extend([ESC, b'$']); v.extend(u16le(560 + r.below(60))) }
            1 => { let w = 560 + r.below(200); v.extend([ESC, b'*', *r.pick(&[0u8, 1, 32, 33])]); let m = v[v.len() - 1]; v.extend(u16le(w)); let d = raw_dots(r, w * if m > 1 { 3 } else { 1 }); v.extend(d) }
            2 => { let (wb, h) = (70 + r.below(30), 1 + r.below(30)); v.extend([GS, b'v', b'0', r.below(4) as u8]); v.extend(u16le(wb)); v.extend(u16le(h)); let d = raw_dots(r, wb * h); v.extend(d) }
            3 => { v.extend([GS, b'!', r.byte() & 0x77]); style(r, &mut v); let n = 1 + r.below(70); let t = word(r, true, n); v.extend(t); v.push(LF) }
            4 => { v.extend([ESC, b'a', r.below(3) as u8]); }
            5 => { v.extend([GS, b'w', 2 + r.below(5) as u8, GS, b'h', r.byte()]); let d = [b"{B".to_vec(), word(r, true, 40).into_iter().filter(|b| *b != b'{').collect()].concat(); barcode_cmd(8, true, &d, &mut v) }
            6 => { gs_k(49, 67, &[1 + r.below(16) as u8], &mut v); let d = qr_data(r); qr_store(&d, &mut v); gs_k(49, 81, &[48], &mut v) }
            _ => { let mut b = vec![ESC, b'L', ESC, b'W']; for m in [300, 300, 700, 500] { b.extend(u16le(r.below(m))); } b.extend([ESC, b'T', r.below(4) as u8]); let t = text(r, true); b.extend(&t[..t.len().min(50)]); b.push(LF); image(r, &mut b, &Cfg { img: 90, ..Cfg::zero() }); b.push(FF); v.extend(b) }
        }
    }
    v
}
fn outputs(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..1 + r.below(5) {
        let c = swarm(r, &Cfg::all());
        let k = r.below(8);
        v.extend(job(r, &c, k));
        if r.chance(1, 4) { feed(r, &mut v); }
        if r.chance(3, 4) { v.push(FF); }
    }
    v
}

/// Symbols of every size, up to the largest, and bars as long as the paper is wide.
fn symbols(r: &mut Rng, i: usize) -> Vec<u8> {
    let mut v = vec![];
    if r.chance(5, 6) { gs_k(49, 65, &[50, 0], &mut v) }
    for j in 0..1 + r.below(2) {
        if r.chance(1, 2) { v.extend([ESC, b'a', r.below(3) as u8]) }
        if r.chance(1, 4) { let k = 1 + r.below(9) as u8; gs_k(49, 67, &[k], &mut v) } else { let k = 1 + r.below(4) as u8; gs_k(49, 67, &[k], &mut v) }
        gs_k(49, 69, &[48 + r.below(4) as u8], &mut v);
        let n = if j == 0 { 1 + (i * 61 + r.below(61)) % 2960 } else { 1 + r.below(1200) };
        let d = match r.below(4) { 0 => vec![b'7'; n], 1 => vec![b'A'; n], 2 => (0..n).map(|k| b'0' + (k * k % 10) as u8).collect(), _ => r.bytes(n) };
        qr_store(&d, &mut v);
        gs_k(49, 81, &[48], &mut v);
        if r.chance(1, 3) { v.extend(b"between\n") }
        if r.chance(1, 3) { crate::bulk::bulk(r, 20, 100, &mut v) }
    }
    v.extend(b"the end\n");
    v
}

pub fn run16(x: &mut Ctx) {
    let n = x.n(200, 12_000);
    x.family("symbols", n, |r, i| { let v = symbols(r, i); Some(Case::one("symbols", v)) });
    let n = x.n(300, 8_000);
    x.family("large-laid-out", n, |r, i| { let v = crate::bulk::large(r, i, *r.clone().pick(crate::bulk::LAID_OUT)); Some(Case::one("large-laid-out", v)) });
    let n = if x.thorough { 240 } else { 16 };
    x.family("tall", n, |r, i| { let v = tall(r, i); Some(Case::one("tall", v)) });
    crate::bulk::family(x, 480, 15_000, crate::bulk::PAINTED);
    let n = x.n(5_000, 300_000);
    x.family("jobs", n, |r, _| { let mut c = swarm(r, &Cfg::all()); c.hostile = r.chance(1, 4); c.unknown = r.below(2); let k = 1 + r.below(30); Some(Case::one("jobs", job(r, &c, k))) });
    let n = x.n(3_000, 200_000);
    x.family("overlaps", n, |r, _| { let v = overlaps(r); Some(Case::one("overlaps", v)) });
    let n = x.n(1_500, 100_000);
    x.family("page-overlaps", n, |r, _| { let v = overlaps(r); Some(Case::one("page-overlaps", in_page(r, v))) });
    let n = x.n(3_000, 200_000);
    x.family("edges", n, |r, _| { let v = edges(r); Some(Case::one("edges", v)) });
    let n = x.n(2_000, 100_000);
    x.family("pages", n, |r, _| { let v = paged(r); Some(Case::one("pages", v)) });
    let n = x.n(2_000, 100_000);
    x.family("outputs", n, |r, _| { let v = outputs(r); Some(Case::one("outputs", v)) });
    // every character in every style that changes how it is inked
    x.family("glyphs", 16 * 3 * 7, |r, i| {
        let mut v = vec![ESC, b't', [0u8, 1, 2, 3, 4, 16, 255][i / 48]];
        v.extend([ESC, b'M', (i % 3) as u8, ESC, b'E', (i / 3 % 2) as u8, ESC, b'4', (i / 6 % 2) as u8, ESC, b'{', (i / 12 % 2) as u8, ESC, b'-', (i / 24 % 2) as u8]);
        if r.chance(1, 4) { v.extend([GS, b'!', r.byte() & 0x33]); }
        if r.chance(1, 3) { color(r, &mut v); }
        for l in (0..=255u8).filter(|b| is_text_byte(*b)).collect::<Vec<_>>().chunks(48) { v.extend(l); v.push(LF); }
        Some(Case::one("glyphs", v))
    });
}

/// Text that means something to HTML, the template or the attributes.
pub fn markup(r: &mut Rng) -> Vec<u8> {
    let l: &[&str] = &["<b>", "</b>", "</span>", "<!--", "-->", "<script>alert(1)</script>", "&amp;", "&lt;", "&#60;", "&nbsp;", "&", "&&", "<", ">", "\"", "'", "{{content}}", "{{style}}", "{{receipt-style}}", "{{color-0}}",
        "{{color-1}}", "{{", "}}", "{content}", "${x}", "%s", "{}", "{0}", "<p style='margin-top:0px'>", "' onclick='x", "\" class=\"b", "]]>", "<![CDATA[", "</p></article>", "</section>", "<img src=x>", "\\n", "\\", "\u{a0}", "  ", "   x", "$1", "$&", "&quot", "&#x27;", "<\u{0}"];
    let mut v = vec![];
    for _ in 0..1 + r.below(8) {
        match r.below(8) { 0 => style(r, &mut v), 1 => v.push(b' '), 2 => { let w = word(r, true, 6); v.extend(w) } 3 => v.push(LF), _ => v.extend(r.pick(l).bytes()) }
    }
    v.push(LF);
    v
}
pub fn run17(x: &mut Ctx) {
    let n = x.n(200, 12_000);
    x.family("symbols", n, |r, i| { let v = symbols(r, i); Some(Case::one("symbols", v)) });
    let n = x.n(300, 15_000);
    x.family("large-laid-out", n, |r, i| { let v = crate::bulk::large(r, i, *r.clone().pick(crate::bulk::LAID_OUT)); Some(Case::one("large-laid-out", v)) });
    let n = if x.thorough { 240 } else { 12 };
    x.family("tall", n, |r, i| { let v = tall(r, i); Some(Case::one("tall", v)) });
    crate::bulk::family(x, 480, 15_000, crate::bulk::PAINTED);
    let n = x.n(8_000, 500_000);
    x.family("markup", n, |r, _| { let mut v = vec![]; if r.chance(1, 3) { v.extend([ESC, b't', 255]); } v.extend(markup(r)); Some(Case::one("markup", v)) });
    let n = x.n(4_000, 300_000);
    x.family("jobs", n, |r, _| { let mut c = swarm(r, &Cfg::all()); c.hostile = r.chance(1, 4); c.unknown = r.below(2); let k = 1 + r.below(30); Some(Case::one("jobs", job(r, &c, k))) });
    let n = x.n(2_500, 200_000);
    x.family("overlaps", n, |r, _| { let v = overlaps(r); Some(Case::one("overlaps", v)) });
    let n = x.n(2_000, 100_000);
    x.family("edges", n, |r, _| { let v = edges(r); Some(Case::one("edges", v)) });
    let n = x.n(2_000, 100_000);
    x.family("pages", n, |r, _| { let v = paged(r); Some(Case::one("pages", v)) });
    let n = x.n(2_000, 100_000);
    x.family("outputs", n, |r, _| { let v = outputs(r); Some(Case::one("outputs", v)) });
    let n = x.n(2_000, 100_000);
    x.family("styles", n, |r, _| {
        let mut v = vec![];
        for _ in 0..2 + r.below(12) { for _ in 0..r.below(4) { style(r, &mut v); } let t = word(r, false, 6); v.extend(t); if r.chance(1, 3) { v.push(*r.pick(b" \t\n\r")); } }
        v.push(LF);
        Some(Case::one("styles", v))
    });
}
