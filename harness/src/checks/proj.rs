//! C06 to C14, C16 to C18: what a job draws, against the reference layout and the reference painter.
use crate::barcodes;
use crate::cmp::{self, Both};
use crate::core::*;
use crate::e2e;
use crate::gen::*;
use crate::model::{Style, MK};
use crate::rec::Ev;
use crate::rng::Rng;
use crate::tables;

/// Compares one job; families that start with "e2e" also check the pixels and the HTML.
fn with(c: &Case, f: fn(&Both, &mut Obs) -> Result<(), String>) -> Verdict {
    let mut o = Obs::default();
    match cmp::both(&c.data[0]) {
        Err(_) => { o.add("undecided", 1); o.trivial = true; }
        Ok(b) => {
            f(&b, &mut o)?;
            if c.family.starts_with("e2e") { drawn(&c.data[0], &b, &mut o)?; }
        }
    }
    Ok(o)
}
fn drawn(bytes: &[u8], b: &Both, o: &mut Obs) -> Result<(), String> {
    match e2e::both(bytes, &b.rec.log, &b.rec.errors).map_err(|e| format!("{}\njob: {}", e, show(bytes)))? {
        Some((i, h)) => { o.add("drawings_compared_in_image", i); o.add("elements_compared_in_html", h); }
        None => o.add("too_large_to_paint", 1),
    }
    Ok(())
}
fn style_hash(s: &Style) -> u64 { fnv(format!("{:?}", s).as_bytes(), 7) }

/// Starts page mode with an area; the job is printed with FF.
pub fn in_page(r: &mut Rng, body: Vec<u8>) -> Vec<u8> {
    let mut v = vec![ESC, b'L', ESC, b'W'];
    for (m, a) in [(60, 0), (60, 0), (400, 150), (300, 80)] { v.extend(u16le(a + r.below(m))); }
    if r.chance(3, 4) { v.extend([ESC, b'T', r.below(4) as u8]); }
    v.extend(body);
    v.push(FF);
    v
}
fn maybe_page(r: &mut Rng, n: usize, body: Vec<u8>) -> Vec<u8> { if r.chance(1, n) { in_page(r, body) } else { body } }

// ---------- C06 ----------
pub fn eval06(c: &Case) -> Verdict {
    with(c, |b, o| {
        let n = b.chars()?;
        o.add("characters_compared", n);
        for (_, ch, _) in &b.out.sent { o.state(*ch as u64); }
        o.trivial = n == 0;
        Ok(())
    })
}
pub fn all_text_bytes() -> Vec<u8> { (0..=255u8).filter(|b| is_text_byte(*b)).collect() }
pub fn run06(x: &mut Ctx) {
    crate::bulk::family(x, 600, 20_000, crate::bulk::LAID_OUT);
    let n = x.n(3_000, 200_000);
    x.family("across", n, |r, _| Some(Case::one("across", super::meta::across(r, b'c'))));
    // every table and every national set with every text byte
    x.family("e2e-every-table", 256, |r, i| {
        let mut v = vec![ESC, b't', i as u8];
        if r.chance(1, 3) { v.extend([ESC, b'R', *r.pick(&[0u8, 1, 5, 9, 66, 80])]); }
        for l in all_text_bytes().chunks(40) { v.extend(l); v.push(LF); }
        Some(Case::one("e2e-every-table", v))
    });
    x.family("every-set", 256 * 12, |_, i| {
        let mut v = vec![ESC, b'R', (i % 256) as u8, ESC, b't', [0u8, 1, 2, 3, 4, 5, 11, 12, 13, 16, 20, 255][i / 256]];
        for l in all_text_bytes().chunks(40) { v.extend(l); v.push(LF); }
        Some(Case::one("every-set", v))
    });
    let sel = |r: &mut Rng, v: &mut Vec<u8>| {
        match r.below(7) {
            0..=2 => v.extend([ESC, b't', *r.pick(&[0u8, 1, 2, 3, 4, 5, 11, 12, 13, 6, 14, 254, 255])]),
            3..=5 => v.extend([ESC, b'R', match r.below(4) { 0..=1 => r.below(18) as u8, 2 => 66 + r.below(17) as u8, _ => r.byte() }]),
            _ => style(r, v),
        }
    };
    let n = x.n(6_000, 600_000);
    let gen = move |r: &mut Rng| {
        let mut v = vec![];
        for _ in 0..1 + r.below(14) {
            sel(r, &mut v);
            if r.chance(1, 12) { v.extend([ESC, b'@']); }
            for _ in 0..1 + r.below(3) { let t = if r.chance(1, 2) { let k = 1 + r.below(20); word(r, false, k) } else { let all = all_text_bytes(); (0..1 + r.below(20)).map(|_| *r.pick(&all)).collect() }; v.extend(t); }
            if r.chance(1, 2) { v.push(LF); }
        }
        v.push(LF);
        maybe_page(r, 6, v)
    };
    let g = gen;
    x.family("selections", n, |r, _| Some(Case::one("selections", g(r))));
    let n = x.n(700, 40_000);
    x.family("e2e-selections", n, |r, _| Some(Case::one("e2e-selections", g(r))));
    let utf = |r: &mut Rng| {
        let mut v = vec![ESC, b't', 255];
        for _ in 0..1 + r.below(12) {
            match r.below(9) {
                0..=3 => { let ch = *r.pick(&['é', 'ß', '€', '漢', '字', '😀', 'Ж', 'Ω', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{80}', '\u{a0}', '\u{2028}', '\u{3000}', '\u{d7ff}', '\u{e000}', '\u{feff}']);
                    let mut b = [0; 4]; let s = ch.encode_utf8(&mut b).as_bytes().to_vec();
                    let k = if r.chance(1, 4) { r.below(s.len()) } else { s.len() }; v.extend(&s[..k]); }
                4 => { let w = word(r, true, 8); v.extend(w) }
                5 => v.extend([0x80 + r.below(64) as u8]),
                6 => v.extend(r.pick(&[&b"\xc0\xaf"[..], b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xe0\x80\x80", b"\xff", b"\xfe\xfe", b"\xf0\x9f\x98", b"\xe2\x82"]).to_vec()),
                7 => { v.push(LF) }
                _ => { sel(r, &mut v); if r.chance(2, 3) { v.extend([ESC, b't', 255]); } }
            }
        }
        v.push(LF);
        v
    };
    let n = x.n(6_000, 600_000);
    x.family("utf8", n, |r, _| { let v = utf(r); Some(Case::one("utf8", maybe_page(r, 8, v))) });
    let n = x.n(500, 20_000);
    x.family("e2e-utf8", n, |r, _| { let v = utf(r); Some(Case::one("e2e-utf8", v)) });
    let _ = tables::high(0);
}

// ---------- C07 ----------
pub fn eval07(c: &Case) -> Verdict {
    with(c, |b, o| {
        let n = b.styles()?;
        o.add("characters_compared", n);
        for (_, _, s) in &b.out.sent { o.state(style_hash(s)); }
        o.trivial = n == 0;
        Ok(())
    })
}
const STYLE_OPS: [&[u8]; 15] = [b"\x1bE", b"\x1bG", b"\x1b4", b"\x1b-", b"\x1b{", b"\x1br", b"\x1bM", b"\x1b!", b"\x1d!", b"\x1dB", b"\x1db", b"\x1bV",
    b"\x1d(N\x02\x000", b"\x1d(N\x02\x001", b"\x1d(N\x03\x002\x31"];
pub fn styled(r: &mut Rng) -> Vec<u8> {
    let mut c = Cfg::zero();
    c.text = 10; c.style = 14; c.lf = 3; c.layout = if r.chance(1, 3) { 2 } else { 0 }; c.init = r.below(2); c.noop = r.below(2); c.tab = r.below(2);
    c.ascii = r.chance(2, 3);
    let k = 2 + r.below(24);
    let mut v = vec![];
    for _ in 0..k {
        if r.chance(1, 4) { let w = word(r, true, 6); v.extend(w); style(r, &mut v); let w = word(r, true, 6); v.extend(w); }
        step(r, &mut v, &c);
    }
    v.push(LF);
    v
}
pub fn run07(x: &mut Ctx) {
    crate::bulk::family(x, 600, 20_000, crate::bulk::LAID_OUT);
    let n = x.n(3_000, 200_000);
    x.family("across", n, |r, _| Some(Case::one("across", super::meta::across(r, b's'))));
    let sweep = |r: &mut Rng, i: usize| {
        let op = STYLE_OPS[(i / 256) % STYLE_OPS.len()];
        let mut v = vec![];
        for _ in 0..r.below(4) { style(r, &mut v); }
        v.extend(b"Before");
        v.extend(op);
        v.push((i % 256) as u8);
        v.extend(b"After g");
        if r.chance(1, 2) { v.extend([ESC, b'!', r.byte()]); v.extend(b"Mode"); }
        style(r, &mut v);
        v.extend(b"more\x0alast\x0a");
        maybe_page(r, 6, v)
    };
    let n = STYLE_OPS.len() * 256 * x.n(1, 8);
    x.family("sweep", n, |r, i| Some(Case::one("sweep", sweep(r, i))));
    let step = x.n(5, 1);
    x.family("e2e-sweep", n, |r, i| if (i + i / 256) % step == 0 { Some(Case::one("e2e-sweep", sweep(r, i))) } else { None });
    let n = x.n(12_000, 1_500_000);
    x.family("styled", n, |r, _| { let v = styled(r); Some(Case::one("styled", maybe_page(r, 6, v))) });
    let n = x.n(900, 60_000);
    x.family("e2e-styled", n, |r, _| { let v = styled(r); Some(Case::one("e2e-styled", maybe_page(r, 6, v))) });
}

// ---------- C08 ----------
pub fn eval08(c: &Case) -> Verdict {
    with(c, |b, o| {
        let n = b.chars()?;
        o.add("characters_in_order", n);
        o.add("lines_compared", b.line_breaks()?);
        let moves = c_moves(&b.bytes);
        // independent of the reference: inside the paper, no two characters of a line overlap
        for e in &b.rec.log.ev {
            if let Ev::Text { spans, x_offset, page, .. } = e {
                let mut last = 0;
                for s in spans {
                    let Some((x, _, w, _)) = s.dim else { return Err(format!("a printed text has no place: {:?}\njob: {}", s.text, show(&b.bytes))) };
                    let (l, r) = (x + x_offset, x + x_offset + w);
                    if w != s.cw * s.text.chars().count() as u32 { return Err(format!("{:?} is {} wide, expected {} characters of {}\njob: {}", s.text, w, s.text.chars().count(), s.cw, show(&b.bytes))); }
                    if !page && r > 609 { return Err(format!("{:?} ends at {} beyond the printable width\njob: {}", s.text, r, show(&b.bytes))); }
                    if !moves && l < last { return Err(format!("{:?} at {} overlaps the text before it up to {}\njob: {}", s.text, l, last, show(&b.bytes))); }
                    last = r;
                }
                o.state(fnv(format!("{:?}", spans.iter().map(|s| (s.text.chars().count().min(9), s.cw)).take(6).collect::<Vec<_>>()).as_bytes(), 3));
                o.add("printed_lines", 1);
            }
        }
        o.trivial = n == 0;
        Ok(())
    })
}
/// Positions can put text over other text on purpose.
fn c_moves(b: &[u8]) -> bool { b.windows(2).any(|w| matches!(w, [ESC, b'$'] | [GS, b'$'] | [GS, b'\\'] | [ESC, b'T'] | [ESC, b'W'])) }
pub fn wrapped(r: &mut Rng, moves: bool) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..1 + r.below(10) {
        match r.below(14) {
            0 => v.extend([GS, b'!', (r.below(8) * 16 + r.below(3)) as u8]),
            1 => v.extend([ESC, b'M', r.below(2) as u8]),
            2 => v.extend([ESC, b'a', r.below(3) as u8]),
            3 if moves => { v.extend([ESC, b'$']); v.extend(u16le(r.below(700))); }
            4 => v.push(HT),
            5 => v.push(LF),
            6 => { if r.chance(1, 3) { v.push(CR) } else { style(r, &mut v) } }
            7 => { let k = 30 + r.below(160); let w = word(r, true, 1); v.extend((0..k).map(|_| w[0])); }
            8 => { let k = r.below(70); v.extend(vec![b' '; k]); }
            9 => { // close to the edge
                let w = *r.pick(&[48usize, 49, 50, 51, 52, 66, 67, 68]); v.extend(vec![b'#'; w]); v.push(b' '); }
            10 if r.chance(1, 2) => v.extend([ESC, b'D', r.below(20) as u8, r.below(34) as u8]),
            _ => { let t = text(r, true); v.extend(t); }
        }
    }
    v.push(LF);
    v
}
pub fn run08(x: &mut Ctx) {
    crate::bulk::family(x, 600, 20_000, crate::bulk::LAID_OUT);
    let n = x.n(14_000, 1_500_000);
    x.family("wrapped", n, |r, _| { let m = r.chance(1, 2); let v = wrapped(r, m); Some(Case::one("wrapped", v)) });
    let n = x.n(5_000, 500_000);
    x.family("wrapped-page", n, |r, _| { let m = r.chance(1, 3); let v = wrapped(r, m); Some(Case::one("wrapped-page", in_page(r, v))) });
    // every length of a line and of the word that follows, at every width
    let n = 80 * 16 * x.n(1, 8);
    x.family("edges", n, |r, i| {
        let (a, k) = (i % 80, (i / 80) % 16);
        let mut v = vec![];
        if k >= 8 { v.extend([ESC, b'M', 1]); }
        v.extend([GS, b'!', ((k % 8) * 16) as u8]);
        v.extend(vec![b'x'; a]);
        if r.chance(2, 3) { v.push(b' '); }
        if r.chance(1, 3) { style(r, &mut v); }
        let m = r.below(90);
        v.extend(vec![b'y'; m]);
        v.extend(b" z\x0aend\x0a");
        Some(Case::one("edges", v))
    });
    let n = x.n(800, 50_000);
    x.family("e2e-wrapped", n, |r, _| { let m = r.chance(1, 2); let v = wrapped(r, m); Some(Case::one("e2e-wrapped", maybe_page(r, 5, v))) });
    let n = x.n(4_000, 400_000);
    x.family("mixed", n, |r, _| { let mut c = swarm(r, &Cfg::all()); c.text = 20; let k = 2 + r.below(25); Some(Case::one("mixed", job(r, &c, k))) });
}

// ---------- C09 ----------
pub fn eval09(c: &Case) -> Verdict {
    with(c, |b, o| {
        o.add("events_in_order", b.order()?);
        b.line_breaks()?;
        o.add("places_compared", b.places(false)?);
        let mut bottom = 0;
        for e in &b.rec.log.ev {
            match e {
                Ev::Begin { .. } => bottom = 0,
                Ev::End { y, .. } => { o.add("papers", 1); bottom = bottom.max(*y); o.state(*y as u64); }
                _ => {}
            }
        }
        o.trivial = bottom == 0;
        Ok(())
    })
}
pub fn laid_out(r: &mut Rng) -> Vec<u8> {
    let mut c = Cfg::all();
    c.page = 0; c.layout = 14; c.feed = 6; c.lf = 8; c.tab = 6; c.style = 4; c.image = 4; c.barcode = 4; c.qr = 2;
    c.ascii = true; c.img = 96;
    let c = swarm(r, &c);
    let k = 2 + r.below(24);
    let mut v = job(r, &c, k);
    if r.chance(1, 3) { v.insert(0, ESC); v.insert(1, b'a'); v.insert(2, r.below(3) as u8); }
    if r.chance(1, 8) { v.push(FF); let k = r.below(8); let t = job(r, &c, k); v.extend(t); }
    v
}
/// Output as wide as what is left of its line, a dot less or a dot more, on paper or in a page area.
pub fn exact(r: &mut Rng, page: bool) -> Vec<u8> {
    let mut v = vec![];
    let mut width = 609usize;
    if page {
        v.extend([GS, b'P', 203, 203, ESC, b'L']);
        let dir = r.below(4) as u8;
        let (x, y, w, h) = (r.below(60), r.below(60), 20 + r.below(520), 20 + r.below(300));
        let mut a = vec![ESC, b'W'];
        for m in [x, y, w, h] { a.extend(u16le(m)); }
        let mut both = vec![a, vec![ESC, b'T', dir]];
        if r.chance(1, 2) { both.reverse(); }
        v.extend(both.concat());
        width = if dir % 2 == 0 { w } else { h };
    }
    if r.chance(1, 3) { v.extend([ESC, b'a', r.below(3) as u8]); }
    for _ in 0..1 + r.below(4) {
        let mut x = 0usize;
        let (k, font_b) = (1 + r.below(3), r.chance(1, 4));
        v.extend([ESC, b'M', font_b as u8, GS, b'!', (k as u8 - 1) * 16 + r.below(2) as u8]);
        for _ in 0..r.below(3) {
            match r.below(3) {
                0 => { let n = 1 + r.below(8); v.extend(vec![b'm'; n]); v.push(b' '); x += 12 * k * (n + 1) }
                1 => { let n = 1 + r.below(100); bit_image_1(r, n, &mut v); x += n }
                _ => { let n = r.below(width); v.extend([ESC, b'$']); if !page { v.extend([n as u8, (n >> 8) as u8]); x = n } else { v.extend(u16le(n)); x = n } }
            }
        }
        let want = (width.saturating_sub(x) + r.below(3)).saturating_sub(1).max(1);
        match r.below(5) {
            0 | 1 => bit_image_1(r, want.min(700), &mut v),
            2 => { let c = 12 * k; v.extend(vec![b'w'; want / c + r.below(2)]); if r.chance(1, 2) { v.push(b' ') } }
            3 => {
                let mut d = vec![48, 1, 1, 49];
                let w = width + r.below(3) - 1;
                d.extend(u16le(w)); d.extend(u16le(2));
                d.extend(raw_dots(r, (w + 7) / 8 * 2));
                gs_l(r.chance(1, 2), 48, 112, &d, &mut v);
                gs_l(false, 48, 50, &[], &mut v);
            }
            _ => { v.extend(vec![b'w'; width / (12 * k) + r.below(3)]); }
        }
        if r.chance(1, 2) { v.extend(b"t"); }
        if r.chance(2, 3) { v.push(LF); }
    }
    v.extend(b"end\x0a");
    if page { v.push(FF); }
    v
}
fn bit_image_1(r: &mut Rng, w: usize, v: &mut Vec<u8>) {
    let m = *r.pick(&[1u8, 33, 1, 33, 0, 32]);
    let w = if m % 32 == 0 { (w / 2).max(1) } else { w };
    v.extend([ESC, b'*', m]);
    v.extend(u16le(w));
    let d = raw_dots(r, w * if m >= 32 { 3 } else { 1 });
    v.extend(d);
}
/// What is on the paper, with pages in between.
pub fn around_pages(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..1 + r.below(4) {
        match r.below(4) { 0 => v.extend([ESC, b'a', r.below(3) as u8]), 1 => { v.extend([ESC, b'$']); v.extend(u16le(r.below(600))) } 2 => style(r, &mut v), _ => {} }
        if r.chance(1, 2) { let t = text(r, true); v.extend(t); if r.chance(1, 2) { v.push(LF) } }
        v.extend([ESC, b'L']);
        for _ in 0..r.below(4) {
            match r.below(6) {
                0 => { v.extend([ESC, b'W']); for (m, a) in [(60, 0), (60, 0), (400, 1), (300, 1)] { v.extend(u16le(a + r.below(m))); } }
                1 => v.extend([ESC, b'T', r.below(4) as u8]),
                2 => image(r, &mut v, &Cfg { img: 32, ..Cfg::zero() }),
                3 => feed(r, &mut v),
                _ => { let t = text(r, true); v.extend(t); if r.chance(1, 2) { v.push(LF) } }
            }
        }
        match r.below(7) { 0 | 1 | 2 => v.extend([ESC, b'S']), 3 | 4 => v.push(FF), 5 => v.extend([ESC, FF, ESC, b'S']), _ => v.extend([ESC, b'@']) }
        match r.below(4) { 0 => image(r, &mut v, &Cfg { img: 32, ..Cfg::zero() }), 1 => v.push(HT), 2 => feed(r, &mut v), _ => {} }
        let t = word(r, true, 9);
        v.extend(t);
        if r.chance(1, 2) { v.push(LF) }
    }
    v.extend(b"end\x0a");
    v
}
pub fn run09(x: &mut Ctx) {
    let n = x.n(4_000, 400_000);
    x.family("exact", n, |r, _| { let v = exact(r, false); Some(Case::one("exact", v)) });
    // many stops of a few columns each
    let n = x.n(2_000, 100_000);
    x.family("tab-stops", n, |r, _| {
        let mut v = vec![];
        let most = 1 + r.below(4);
        let from = r.below(20);
        for i in 0..32usize { if i >= from || r.chance(1, 2) { v.extend([ESC, b'D', r.below(most + 1) as u8, i as u8]); } }
        for _ in 0..1 + r.below(4) {
            if r.chance(1, 3) { v.extend([GS, b'!', (r.below(3) * 16) as u8]); }
            for _ in 0..1 + r.below(12) { let n = r.below(9); v.extend(vec![b'.'; n]); v.push(HT); if r.chance(1, 3) { v.push(b'x'); } }
            v.extend(b"x\x0a");
        }
        Some(Case::one("tab-stops", v))
    });
    crate::bulk::family(x, 600, 20_000, crate::bulk::LAID_OUT);
    let n = x.n(14_000, 1_500_000);
    x.family("laid-out", n, |r, _| { let v = laid_out(r); Some(Case::one("laid-out", v)) });
    let n = x.n(900, 60_000);
    x.family("e2e-laid-out", n, |r, _| { let v = laid_out(r); Some(Case::one("e2e-laid-out", v)) });
    // pages between what is on the paper: printed, left or thrown away
    let n = x.n(4_000, 300_000);
    x.family("around-pages", n, |r, _| { let v = around_pages(r); Some(Case::one("around-pages", v)) });
    // every value of every feed and spacing
    let n = 256 * 9 * x.n(1, 4);
    x.family("feeds", n, |r, i| {
        let p = (i % 256) as u8;
        let mut v = vec![];
        if r.chance(1, 2) { v.extend([GS, b'P', *r.pick(&[0u8, 50, 101, 203, 255]), *r.pick(&[0u8, 50, 101, 203, 255])]); }
        if r.chance(1, 2) { v.extend(b"first"); if r.chance(1, 2) { v.push(LF); } }
        match i / 256 % 9 {
            0 => v.extend([ESC, b'3', p]),
            1 => v.extend([ESC, b'd', p]),
            2 => v.extend([ESC, b'J', p]),
            3 => v.extend([ESC, b'$', p, r.below(3) as u8]),
            4 => v.extend([GS, b'V', p]),
            5 => v.extend([GS, b'V', *r.pick(&[65u8, 66, 97, 98, 103, 104]), p]),
            6 => { for _ in 0..r.below(6) { v.extend([ESC, b'd', r.below(9) as u8]); } v.extend([ESC, b'e', p]); }
            7 => v.extend([ESC, b'a', p]),
            _ => v.extend([ESC, b'D', r.below(20) as u8, p]),
        }
        v.extend(b"a\tb\x0a");
        image(r, &mut v, &Cfg { img: 32, ..Cfg::zero() });
        v.extend([GS, b'!', (r.below(8) + 16 * r.below(3)) as u8]);
        v.extend(b"last\x0a");
        Some(Case::one("feeds", v))
    });
    // motion units with positions
    let n = x.n(3_000, 200_000);
    x.family("units", n, |r, _| {
        let mut v = vec![];
        for _ in 0..1 + r.below(6) {
            match r.below(5) {
                0 => v.extend([GS, b'P', r.byte(), r.byte()]),
                1 => { v.extend([ESC, b'$']); v.extend(u16le(r.below(1400))); v.extend(b"X"); }
                2 => { let t = word(r, true, 9); v.extend(t); v.push(HT); }
                3 => dot_density(r, &mut v),
                _ => feed(r, &mut v),
            }
            if r.chance(1, 3) { let t = text(r, true); v.extend(t); v.push(LF); }
        }
        v.extend(b"end\x0a");
        Some(Case::one("units", v))
    });
}

// ---------- C10, C11 ----------
fn pictures(b: &Both, o: &mut Obs) -> Result<(), String> {
    let n = b.pictures()?;
    o.add("pictures_compared", n);
    o.add("errors_compared", b.errors()?);
    for e in &b.out.ev { if let MK::Image { pic, .. } = &e.k { o.add("dots_compared", pic.px.len() as u64); o.state(fnv(&pic.px.iter().map(|p| p.3 ^ p.0).take(64).collect::<Vec<_>>(), (pic.w * 1000 + pic.h) as u64)); } }
    o.trivial = n + b.out.errors.len() as u64 == 0;
    Ok(())
}
pub fn eval10(c: &Case) -> Verdict { with(c, pictures) }
fn incomplete(r: &mut Rng, v: &mut Vec<u8>) {
    // less data than the declared size: only a length prefix can tell, or the end of the job
    let (w, h) = (1 + r.below(40), 1 + r.below(40));
    let col = r.chance(1, 2);
    let need = if col { (h + 7) / 8 * w } else { (w + 7) / 8 * h };
    let n = match r.below(4) { 0 => need - 1, 1 => need + 1, 2 => r.below(need), _ => need + r.below(9) };
    let mut d = vec![48, 1, 1, 49];
    d.extend(u16le(w)); d.extend(u16le(h));
    d.extend(raw_dots(r, n));
    gs_l(r.chance(1, 2), 48, if col { 113 } else { 112 }, &d, v);
    gs_l(false, 48, 50, &[], v);
}
pub fn imaged(r: &mut Rng) -> Vec<u8> {
    let mut c = Cfg::zero();
    c.image = 10; c.lf = 2; c.text = 2; c.layout = 1; c.style = 1;
    c.ascii = true;
    c.img = *r.pick(&[8usize, 40, 100, 400, 700]);
    if r.chance(1, 4) { c.store = 6; }
    let mut v = vec![];
    for _ in 0..1 + r.below(5) { if r.chance(1, 8) { incomplete(r, &mut v); } else { step(r, &mut v, &c); } }
    // the end of the job cuts the last picture short
    if r.chance(1, 8) { image(r, &mut v, &c); let k = v.len() - r.below(v.len().min(40)); v.truncate(k); } else { v.push(LF); }
    v
}
pub fn run10(x: &mut Ctx) {
    crate::bulk::family(x, 600, 20_000, crate::bulk::LAID_OUT);
    let n = x.n(8_000, 600_000);
    x.family("pictures", n, |r, _| { let v = imaged(r); Some(Case::one("pictures", maybe_page(r, 6, v))) });
    // every mode byte and every small size
    let n = 256 * 2 * x.n(1, 6);
    x.family("modes", n, |r, i| {
        let m = (i % 256) as u8;
        let mut v = vec![];
        if (i / 256) % 2 == 0 {
            let w = r.below(50);
            v.extend([ESC, b'*', m]);
            v.extend(u16le(w));
            let d = raw_dots(r, w * if m == 32 || m == 33 { 3 } else { 1 });
            v.extend(d);
        } else {
            let (w, h) = (1 + r.below(6), 1 + r.below(30));
            v.extend([GS, b'v', b'0', m]);
            v.extend(u16le(w)); v.extend(u16le(h));
            let d = raw_dots(r, w * h);
            v.extend(d);
        }
        v.extend(b"t\x0a");
        Some(Case::one("modes", v))
    });
    let n = 34 * 34 * x.n(1, 6);
    x.family("sizes", n, |r, i| {
        let (w, h) = (1 + i % 34, 1 + i / 34 % 34);
        let mut v = vec![];
        let col = r.chance(1, 2);
        let mut d = vec![48, 1 + r.below(2) as u8, 1 + r.below(2) as u8, 49 + r.below(3) as u8];
        d.extend(u16le(w)); d.extend(u16le(h));
        d.extend(raw_dots(r, if col { (h + 7) / 8 * w } else { (w + 7) / 8 * h }));
        gs_l(r.chance(1, 2), 48, if col { 113 } else { 112 }, &d, &mut v);
        gs_l(false, 48, 50, &[], &mut v);
        if r.chance(1, 2) { incomplete(r, &mut v); }
        Some(Case::one("sizes", v))
    });
    let n = x.n(900, 60_000);
    x.family("e2e-pictures", n, |r, _| { let v = imaged(r); Some(Case::one("e2e-pictures", maybe_page(r, 3, v))) });
}
pub fn eval11(c: &Case) -> Verdict { with(c, pictures) }
pub fn stored(r: &mut Rng) -> Vec<u8> {
    let mut c = Cfg::zero();
    c.store = 20; c.lf = 2; c.text = 1; c.init = if r.chance(1, 3) { 1 } else { 0 }; c.image = 1; c.style = 1; c.noop = 1;
    c.ascii = true;
    c.img = *r.pick(&[10usize, 24, 40]);
    c.hostile = r.chance(1, 5);
    if r.chance(1, 5) { c.page = 2; c.feed = 1; }
    let k = 3 + r.below(22);
    let mut v = job(r, &c, k);
    // everything that is still there
    if r.chance(1, 2) { for a in b"AB" { for b in b"01" { for f in [69u8, 85] { gs_l(false, 48, f, &[*a, *b, 1, 1], &mut v); } } } gs_l(false, 48, 50, &[], &mut v); }
    v
}
pub fn run11(x: &mut Ctx) {
    crate::bulk::family(x, 600, 20_000, crate::bulk::LAID_OUT);
    let n = x.n(14_000, 1_200_000);
    x.family("stores", n, |r, _| { let v = stored(r); Some(Case::one("stores", v)) });
    let n = x.n(900, 60_000);
    x.family("e2e-stores", n, |r, _| { let v = stored(r); Some(Case::one("e2e-stores", v)) });
    // keys of all values, defined in one store and used with both
    let n = x.n(3_000, 200_000);
    x.family("keys", n, |r, _| {
        let mut v = vec![];
        let keys: Vec<[u8; 2]> = (0..1 + r.below(3)).map(|_| if r.chance(1, 2) { [32 + r.below(95) as u8, 32 + r.below(95) as u8] } else { [r.byte(), r.byte()] }).collect();
        for _ in 0..2 + r.below(10) {
            let k = *r.pick(&keys);
            let k = match r.below(6) { 0 => [k[1], k[0]], 1 => [k[0], k[1].wrapping_add(1)], _ => k };
            match r.below(6) {
                0..=2 => {
                    let (w, h) = (1 + r.below(20), 1 + r.below(20));
                    let col = r.chance(1, 2);
                    let mut d = vec![48, k[0], k[1], 1];
                    d.extend(u16le(w)); d.extend(u16le(h));
                    d.push(49 + r.below(3) as u8);
                    d.extend(raw_dots(r, if col { (h + 7) / 8 * w } else { (w + 7) / 8 * h }));
                    gs_l(r.chance(1, 3), 48, [67, 83, 68, 84][r.below(2) + 2 * col as usize], &d, &mut v);
                }
                3 | 4 => gs_l(false, 48, *r.pick(&[69u8, 85]), &[k[0], k[1], 1, 1], &mut v),
                _ => match r.below(4) { 0 => gs_l(false, 48, *r.pick(&[65u8, 81]), b"CLR", &mut v), _ => gs_l(false, 48, *r.pick(&[66u8, 82]), &k, &mut v) },
            }
        }
        for k in &keys { for f in [69u8, 85] { gs_l(false, 48, f, &[k[0], k[1], 1, 1], &mut v); } }
        Some(Case::one("keys", v))
    });
}

// ---------- C12 ----------
pub fn eval12(c: &Case) -> Verdict {
    with(c, |b, o| {
        b.errors()?;
        b.order()?;
        let (n, k) = b.bars()?;
        o.add("barcodes_compared", n);
        o.add("bars_compared", k);
        o.add("rejected_data", b.out.errors.len() as u64);
        // the human readable text
        o.add("hri_characters", b.out.chars_hri);
        b.chars()?; b.styles()?; b.places(false)?;
        for e in &b.out.ev { if let MK::Bars { kind, data, mw, height, .. } = &e.k { o.add(KIND_NAMES[*kind], 1); o.state(fnv(&data[..data.len().min(6)], (*kind * 100 + *mw as usize) as u64 * 1000 + *height as u64)); } }
        o.trivial = n + b.out.errors.len() as u64 == 0;
        Ok(())
    })
}
const KIND_NAMES: [&str; 9] = ["kind_upca", "kind_upce", "kind_ean13", "kind_ean8", "kind_code39", "kind_itf", "kind_codabar", "kind_code93", "kind_code128"];
pub fn bar_options(r: &mut Rng, v: &mut Vec<u8>) {
    if r.chance(1, 3) { v.extend([GS, b'h', if r.chance(1, 8) { r.byte() } else { 1 + r.below(90) as u8 }]); }
    if r.chance(1, 2) { v.extend([GS, b'w', if r.chance(1, 6) { param(r) } else { 1 + r.below(6) as u8 }]); }
    if r.chance(1, 2) { v.extend([GS, b'H', if r.chance(1, 6) { param(r) } else { r.below(4) as u8 }]); }
    if r.chance(1, 4) { v.extend([GS, b'f', r.below(2) as u8]); }
    if r.chance(1, 4) { v.extend([ESC, b'a', r.below(3) as u8]); }
}
pub fn barcoded(r: &mut Rng, kinds: &[usize]) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..1 + r.below(3) {
        bar_options(r, &mut v);
        if r.chance(1, 6) { style(r, &mut v); }
        if r.chance(1, 6) { let t = word(r, true, 9); v.extend(t); v.push(LF); }
        let kind = *r.pick(kinds);
        let mut d = barcode_data(r, kind);
        let f = r.chance(1, 2);
        if r.chance(1, 4) { // invalid or at the border
            match r.below(6) {
                0 => { let n = r.below(d.len() + 3); d.resize(n, b'7'); }
                1 if !d.is_empty() => { let k = r.below(d.len()); d[k] = r.byte(); }
                2 if !d.is_empty() => { let k = r.below(d.len()); d[k] = b'0' + r.below(10) as u8; }
                3 => { let k = r.below(d.len() + 1); d.insert(k, *r.pick(b"{*ABCDa 0\x7f\x80")); }
                4 => { let n = r.below(30); d = (0..n).map(|_| 32 + r.below(96) as u8).collect(); }
                _ => { let k = r.below(9); d = barcode_data(r, k); }
            }
        }
        if !(f || kind > 6) { d.retain(|b| *b != 0); }
        barcode_cmd(kind, f, &d, &mut v);
        if r.chance(1, 3) { let t = word(r, true, 9); v.extend(t); v.push(LF); }
    }
    v
}
pub fn run12(x: &mut Ctx) {
    crate::bulk::family(x, 600, 20_000, crate::bulk::LAID_OUT);
    let n = x.n(3_000, 200_000);
    x.family("across", n, |r, _| Some(Case::one("across", super::meta::across(r, b'b'))));
    let all = [0usize, 1, 2, 3, 4, 5, 6, 7, 8];
    let n = x.n(18_000, 2_000_000);
    x.family("barcodes", n, |r, i| { let k = r.below(9); let v = barcoded(r, &[all[i % 9], all[k]]); Some(Case::one("barcodes", v)) });
    let n = x.n(1_000, 60_000);
    x.family("e2e-barcodes", n, |r, i| { let v = barcoded(r, &[all[i % 9]]); Some(Case::one("e2e-barcodes", maybe_page(r, 4, v))) });
    // every character of the alphabets, next to every other
    let alpha: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";
    let coda: &[u8] = b"0123456789-$:/.+";
    let n = 43 * 43;
    x.family("pairs!", n * 2, |_, i| {
        let d = [alpha[i % 43], alpha[i / 43 % 43]];
        let mut v = vec![];
        barcode_cmd(if i < n { 4 } else { 7 }, true, &d, &mut v);
        Some(Case::one("pairs!", v))
    });
    x.family("pairs-codabar!", 16 * 16 * 16, |_, i| {
        let d = [b'A' + (i / 256 % 4) as u8, coda[i % 16], coda[i / 16 % 16], b'A' + (i / 1024 % 4) as u8];
        let mut v = vec![];
        barcode_cmd(6, false, &d, &mut v);
        Some(Case::one("pairs-codabar!", v))
    });
    x.family("pairs-128!", 3 * 96 * 96, |r, i| {
        let (a, b) = ((i % 96) as u8, (i / 96 % 96) as u8);
        let mut d = vec![];
        match i / 9216 {
            0 => d.extend([b'{', b'A', a, b]),
            1 => { d.extend(b"{B"); for c in [a + 32, b + 32] { if c == b'{' { d.push(c); } d.push(c); } }
            _ => { if a > 99 || b > 99 { return None; } d.extend(b"{C"); d.extend(format!("{:02}{:02}", a + r.below(4) as u8, b).bytes()); }
        }
        let mut v = vec![];
        barcode_cmd(8, true, &d, &mut v);
        Some(Case::one("pairs-128!", v))
    });
    // every length that a barcode of any length can have, and some that none has
    x.family("lengths!", 5 * 2 * 262, |r, i| {
        let (kind, f, n) = ([4usize, 5, 6, 7, 8][i % 5], i / 5 % 2 == 0, 1 + i / 10);
        if kind > 6 && !f || f && n > 255 { return None; }
        let set: &[u8] = match kind { 5 => b"0123456789", 6 => coda, _ => alpha };
        let mut d = match kind { 6 => b"A".to_vec(), 8 => b"{B".to_vec(), _ => vec![] };
        while d.len() < n { d.push(*r.pick(set)) }
        if kind == 6 { d[n - 1] = b'D' }
        let mut v = vec![GS, b'w', 2];
        if r.chance(1, 4) { v.extend([GS, b'H', 2]) }
        barcode_cmd(kind, f, &d, &mut v);
        v.extend(b"x\x0a");
        Some(Case::one("lengths!", v))
    });
    // all UPC-E numbers of one number system with their check digits, sampled
    let n = x.n(20_000, 1_000_000);
    x.family("digits!", n, |r, i| {
        let kind = [0usize, 1, 2, 3, 5][i % 5];
        let d = barcode_data(r, kind);
        let mut v = vec![GS, b'w', 2];
        barcode_cmd(kind, r.chance(1, 2), &d, &mut v);
        Some(Case::one("digits!", v))
    });
    // every option value
    x.family("options", 256 * 4 * x.n(1, 4), |r, i| {
        let mut v = vec![];
        bar_options(r, &mut v);
        v.extend([GS, b"hwHf"[i / 256 % 4], (i % 256) as u8]);
        let k = r.below(9);
        let d = barcode_data(r, k);
        barcode_cmd(k, true, &d, &mut v);
        v.extend(b"after\x0a");
        Some(Case::one("options", v))
    });
    let n = x.n(3_000, 300_000);
    x.family("among-others", n, |r, _| {
        let mut c = Cfg::all();
        c.barcode = 20; c.page = if r.chance(1, 6) { 3 } else { 0 }; c.lf = 14; c.hostile = r.chance(1, 5);
        let c = swarm(r, &c);
        let k = 2 + r.below(16);
        Some(Case::one("among-others", job(r, &c, k)))
    });
    let _ = barcodes::mod10(b"1");
}

// ---------- C13 ----------
pub fn eval13(c: &Case) -> Verdict {
    with(c, |b, o| {
        b.errors()?;
        b.order()?;
        b.places(false)?;
        let v = b.qrs()?;
        o.add("symbols_read", v.len() as u64);
        for s in &v {
            o.add("bytes_read", s.data.len() as u64);
            o.add(match s.ec { 0 => "level_l", 1 => "level_m", 2 => "level_q", _ => "level_h" }, 1);
            if s.micro { o.add("micro_symbols", 1); }
            o.state(s.micro as u64 * 100_000 + s.version as u64 * 1000 + s.ec as u64 * 100 + s.mask as u64);
            o.state(fnv(format!("{:?}", s.modes).as_bytes(), 99));
        }
        o.add("rejected_data", b.out.errors.len() as u64);
        o.trivial = v.is_empty() && b.out.errors.is_empty();
        Ok(())
    })
}
fn any_qr_data(r: &mut Rng, n: usize) -> Vec<u8> {
    let pick = |r: &mut Rng, s: &[u8], n: usize| -> Vec<u8> { (0..n).map(|_| *r.pick(s)).collect() };
    match r.below(8) {
        0 => digits(r, n),
        1 => pick(r, b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:", n),
        2 => pick(r, b"abcdefghijklmnopqrstuvwxyz0123456789 :/?&=.", n),
        3 => r.bytes(n),
        4 => { // mixed runs
            let mut v = vec![];
            while v.len() < n { let k = 1 + r.below(20); let t = match r.below(4) { 0 => digits(r, k), 1 => pick(r, b"ABCDEFG $%*+-./:", k), 2 => r.bytes(k), _ => pick(r, b"abc", k) }; v.extend(t); }
            v.truncate(n);
            v
        }
        5 => { // Shift JIS double byte characters
            let mut v = vec![];
            while v.len() < n { v.extend([*r.pick(&[0x81u8, 0x88, 0x93, 0x9f, 0xe0, 0xeb]), *r.pick(&[0x40u8, 0x7e, 0x80, 0x9f, 0xbf, 0xfc])]); if r.chance(1, 6) { v.push(b'a') } }
            v.truncate(n);
            v
        }
        6 => vec![r.byte(); n],
        _ => "https://example.com/r?id=0123456789&x=ÄÖ€漢".bytes().cycle().take(n).collect(),
    }
}
pub fn qr_options(r: &mut Rng, v: &mut Vec<u8>, micro: bool) {
    if r.chance(1, 2) { gs_k(49, 65, &[if micro { 51 } else { 49 + r.below(2) as u8 }, 0], v) } else if micro { gs_k(49, 65, &[51, 0], v) }
    if r.chance(2, 3) { gs_k(49, 67, &[if r.chance(1, 8) { r.byte() } else { 1 + r.below(8) as u8 }], v) }
    if r.chance(2, 3) { gs_k(49, 69, &[if r.chance(1, 8) { param(r) } else { 48 + r.below(4) as u8 }], v) }
}
pub fn qr_job(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..1 + r.below(3) {
        let micro = r.chance(1, 4);
        qr_options(r, &mut v, micro);
        if r.chance(1, 5) { v.extend([ESC, b'a', r.below(3) as u8]); }
        if r.chance(7, 8) {
            let n = if micro { r.below(40) } else { match r.below(6) { 0 => r.below(12), 1..=3 => r.below(80), _ => r.below(max) } };
            let d = any_qr_data(r, n);
            qr_store(&d, &mut v);
        }
        // settings that come after storing
        if r.chance(1, 5) { qr_options(r, &mut v, micro); }
        if r.chance(1, 12) { v.extend([ESC, b'@']); }
        if r.chance(1, 10) { gs_k(*r.pick(&[48u8, 50, 51, 52, 53, 54]), *r.pick(&[65u8, 66, 67, 69, 80, 81]), &[49, 50, 51], &mut v); }
        gs_k(49, 81, &[48], &mut v);
        if r.chance(1, 3) { v.extend(b"below\x0a"); }
    }
    v
}
pub fn run13(x: &mut Ctx) {
    crate::bulk::family(x, 600, 20_000, crate::bulk::LAID_OUT);
    let n = x.n(1_500, 100_000);
    x.family("across", n, |r, _| Some(Case::one("across", super::meta::across(r, b'q'))));
    let n = x.n(4_000, 300_000);
    x.family("symbols", n, |r, _| { let m = 300; let v = qr_job(r, m); Some(Case::one("symbols", v)) });
    // around the capacity of every version, level and model
    let caps: [usize; 40] = [17, 32, 53, 78, 106, 134, 154, 192, 230, 271, 321, 367, 425, 458, 520, 586, 644, 718, 792, 858, 929, 1003, 1091, 1171, 1273, 1367, 1465, 1528, 1628, 1732, 1840, 1952, 2068, 2188, 2303, 2431, 2563, 2699, 2809, 2953];
    let n = x.n(320, 9_600);
    x.family("capacities", n, |r, i| {
        let cap = caps[i % 40] as f64 * [1.0, 0.78, 0.56, 0.43][i / 40 % 4];
        let k = (cap as i64 - 4 + r.below(9) as i64).max(0) as usize;
        let mut v = vec![];
        gs_k(49, 65, &[if i / 160 % 2 == 0 { 50 } else { 49 }, 0], &mut v);
        gs_k(49, 67, &[1 + r.below(3) as u8], &mut v);
        gs_k(49, 69, &[48 + (i / 40 % 4) as u8], &mut v);
        let d = any_qr_data(r, k);
        qr_store(&d, &mut v);
        gs_k(49, 81, &[48], &mut v);
        Some(Case::one("capacities", v))
    });
    // too much for the largest symbol
    let n = x.n(60, 3_000);
    x.family("too-much", n, |r, _| {
        let mut v = vec![];
        if r.chance(1, 2) { qr_store(b"kept?", &mut v); }
        gs_k(49, 65, &[49 + r.below(3) as u8, 0], &mut v);
        gs_k(49, 69, &[48 + r.below(4) as u8], &mut v);
        let k = *r.pick(&[40usize, 300, 600, 1200, 1300, 1700, 2400, 2954, 3100, 7100]);
        let d = if r.chance(2, 3) { let c = *r.pick(b"abcxyz~"); vec![c; k] } else { any_qr_data(r, k) };
        qr_store(&d, &mut v);
        gs_k(49, 81, &[48], &mut v);
        v.extend(b"after\x0a");
        Some(Case::one("too-much", v))
    });
    // every Micro QR content and level
    let n = x.n(1_200, 60_000);
    x.family("micro", n, |r, i| {
        let mut v = vec![];
        gs_k(49, 65, &[51, 0], &mut v);
        gs_k(49, 69, &[48 + (i % 4) as u8], &mut v);
        let d = any_qr_data(r, i / 4 % 37);
        qr_store(&d, &mut v);
        gs_k(49, 81, &[48], &mut v);
        Some(Case::one("micro", v))
    });
    let n = x.n(500, 20_000);
    x.family("e2e-symbols", n, |r, _| { let v = qr_job(r, 120); Some(Case::one("e2e-symbols", maybe_page(r, 5, v))) });
    // every settings value
    x.family("settings", 256 * 3 * x.n(1, 4), |r, i| {
        let mut v = vec![];
        qr_options(r, &mut v, false);
        let p = (i % 256) as u8;
        match i / 256 % 3 { 0 => gs_k(49, 67, &[p], &mut v), 1 => gs_k(49, 69, &[p], &mut v), _ => gs_k(49, 65, &[p, 0], &mut v) }
        let k = 1 + r.below(14);
        let d = any_qr_data(r, k);
        qr_store(&d, &mut v);
        gs_k(49, 81, &[48], &mut v);
        Some(Case::one("settings", v))
    });
}

// ---------- C14 ----------
pub fn eval14(c: &Case) -> Verdict {
    with(c, |b, o| {
        o.add("events_in_order", b.order()?);
        let n = b.places(true)?;
        b.places(false)?;
        b.line_breaks()?;
        o.add("places_on_pages", n);
        let mut dir = 9;
        for e in &b.out.ev { match &e.k {
            MK::PagePrint { dir, .. } => { o.add("pages_printed", 1); o.state(50 + *dir as u64) }
            MK::PageArea { rot, w, h } => { o.add("area_changes", 1); o.state(*rot as u64 * 4 + (*w > 0) as u64 * 2 + (*h > 0) as u64); dir = *rot; }
            MK::PageEnd => o.add("pages_left", 1),
            MK::Line { page: true, .. } | MK::Image { page: true, .. } | MK::Bars { page: true, .. } => o.state(1000 + dir as u64),
            _ => {}
        } }
        o.trivial = n == 0;
        Ok(())
    })
}
pub fn paged(r: &mut Rng) -> Vec<u8> {
    let mut c = Cfg::all();
    c.page = 16; c.style = 4; c.layout = 5; c.lf = 8; c.text = 12; c.image = 4; c.barcode = 2; c.qr = 1; c.store = 1; c.feed = 2; c.img = 80;
    c.ascii = true;
    let c = swarm(r, &c);
    let mut v = vec![];
    if r.chance(1, 4) { let k = r.below(5); v.extend(job(r, &c, k)); }
    v.extend([ESC, b'L']);
    for _ in 0..2 + r.below(20) {
        if r.chance(1, 5) { page(r, &mut v, &Cfg { page: 1, ..Cfg::zero() }); }
        step(r, &mut v, &c);
    }
    match r.below(5) { 0 => {} 1 => v.extend([ESC, b'S']), 2 => v.extend([ESC, FF]), _ => v.push(FF) }
    if r.chance(1, 2) { v.extend(b"after the page\x0a"); }
    v
}
pub fn run14(x: &mut Ctx) {
    let n = x.n(3_000, 300_000);
    x.family("exact", n, |r, _| { let v = exact(r, true); Some(Case::one("exact", v)) });
    crate::bulk::family(x, 600, 20_000, crate::bulk::LAID_OUT);
    let n = x.n(9_000, 1_000_000);
    x.family("pages", n, |r, _| { let v = paged(r); Some(Case::one("pages", v)) });
    let n = x.n(2_500, 200_000);
    x.family("e2e-pages", n, |r, _| { let v = paged(r); Some(Case::one("e2e-pages", v)) });
    // areas and directions one after the other with something to see in each
    let n = x.n(2_500, 200_000);
    x.family("e2e-areas", n, |r, _| {
        let mut v = vec![ESC, b'L'];
        for _ in 0..1 + r.below(5) {
            let mut both: Vec<Vec<u8>> = vec![];
            if r.chance(3, 4) { let mut a = vec![ESC, b'W']; for m in [200, 200, 400, 300] { a.extend(u16le(r.below(m) + if m > 200 { 30 } else { 0 })); } both.push(a); }
            if r.chance(3, 4) { both.push(vec![ESC, b'T', r.below(4) as u8]); }
            if r.chance(1, 2) { both.reverse(); }
            for b in both { v.extend(b); }
            match r.below(4) {
                0 => { v.extend([ESC, b'$']); v.extend(u16le(r.below(200))); }
                1 => { v.extend([GS, b'$']); v.extend(u16le(r.below(150))); }
                2 => { v.extend([GS, b'\\']); v.extend(u16le(if r.chance(1, 2) { r.below(80) } else { 65536 - r.below(60) - 1 })); }
                _ => {}
            }
            match r.below(5) {
                0 => image(r, &mut v, &Cfg { img: 60, ..Cfg::zero() }),
                1 => { let d = digits(r, 7); v.extend([GS, b'h', 30, GS, b'w', 2]); barcode_cmd(3, true, &d, &mut v); }
                2 => { qr_store(b"page", &mut v); gs_k(49, 81, &[48], &mut v); }
                _ => { let t = text(r, true); v.extend(&t[..t.len().min(40)]); if r.chance(1, 2) { v.push(LF); } }
            }
            if r.chance(1, 6) { v.extend([ESC, FF]); }
            if r.chance(1, 6) { v.extend([ESC, b'e', r.below(5) as u8]); }
        }
        match r.below(5) { 0 => v.extend([ESC, b'S']), 1 => v.extend([ESC, FF]), _ => v.push(FF) }
        if r.chance(1, 2) { v.extend(b"tail\x0a"); }
        if r.chance(1, 6) { v.extend([ESC, b'L']); v.extend(b"second"); v.push(FF); }
        Some(Case::one("e2e-areas", v))
    });
}
