//! C15, C18, C19: relations between runs of the real code.
use crate::core::*;
use crate::e2e;
use crate::gen::*;
use crate::grammar;
use crate::paint;
use crate::rec::{self, Ev, Recorded};
use crate::rng::Rng;

// ---------- C15 ----------
fn shift(e: &Ev, dy: i64) -> Ev {
    let s = |y: u32| (y as i64 + dy).max(-1) as u32;
    match e.clone() {
        Ev::Begin { x, y } => Ev::Begin { x, y: s(y) },
        Ev::Text { mut spans, x_offset, max_height, justify, page: false } => {
            for sp in spans.iter_mut() { if let Some(d) = sp.dim.as_mut() { d.1 = s(d.1) } }
            Ev::Text { spans, x_offset, max_height, justify, page: false }
        }
        Ev::Image { mut img, page: false } => { img.y = s(img.y); Ev::Image { img, page: false } }
        Ev::Rects { rects, color, page: false } => Ev::Rects { rects: rects.into_iter().map(|r| (r.0, s(r.1), r.2, r.3)).collect(), color, page: false },
        Ev::PagePrint { x, y, dir } => Ev::PagePrint { x, y: s(y), dir },
        Ev::End { x, y, width, paper_w, margins } => Ev::End { x, y: s(y), width, paper_w, margins },
        e => e,
    }
}
/// Events that show on paper or page, or end one.
fn visible(e: &Ev) -> bool { !matches!(e, Ev::Device(_) | Ev::Begin { .. }) }

fn names_nv_define(b: &[u8]) -> bool { b.windows(3).any(|w| w[0] == 48 && matches!(w[1], 67 | 68) && w[2] == 48) }
fn names_nv_print(b: &[u8]) -> bool { b.windows(2).any(|w| w == [48, 69]) }

pub fn short(e: &Ev) -> String { let mut s = format!("{:?}", e); if s.len() > 500 { let mut k = 500; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); s.push_str(".."); } s }

pub fn eval15(c: &Case) -> Verdict {
    let (p, s) = (&c.data[0], &c.data[1]);
    let mut o = Obs::default();
    let before = [&p[..], b"\x1b@"].concat();
    let all = [&before[..], s].concat();
    // the initialize command has to be one, and not part of another command's data
    let items = grammar::split(&before);
    let whole = items.last().map(|i| i.kind == grammar::Kind::Cmd && i.op == 2 && i.opcode(&before) == b"\x1b@" && i.start == p.len()).unwrap_or(false);
    if !whole || (names_nv_define(p) && names_nv_print(s)) { o.trivial = true; o.add("not_an_initialize", 1); return Ok(o); }
    let a = rec::record(&before);
    let b = rec::record(s);
    // a reverse feed beyond the start of a job stops at its top, further down the paper it doesn't
    let backwards = grammar::split(s).iter().any(|i| i.kind == grammar::Kind::Cmd && i.opcode(s) == b"\x1be");
    if backwards {
        let far = rec::record(&[&b"\x1bd\xff\x1bd\xff"[..], s].concat());
        let first = |r: &Recorded, d: i64| r.log.ev.iter().filter(|e| visible(e)).scan(false, |done, e| { if *done { return None; } *done = matches!(e, Ev::End { .. }); Some(shift(e, d)) }).collect::<Vec<_>>();
        if first(&b, 510 * 24) != first(&far, 0) { o.trivial = true; o.add("reaches_above_its_start", 1); return Ok(o); }
    }
    let j = rec::record(&all);
    let job = || format!("\nbefore: {}\nafter: {}", show(p), show(s));
    let inits = |r: &Recorded| r.log.ev.iter().enumerate().filter(|(_, e)| **e == Ev::Device("Initialize".into())).map(|(i, _)| i).collect::<Vec<_>>();
    let k = inits(&a).len();
    if k == 0 { return Err(format!("no initialize reached the output{}", job())); }
    let at = *inits(&j).get(k - 1).ok_or_else(|| format!("an initialize is missing{}", job()))?;
    let a_at = inits(&a)[k - 1];
    // what was printed is kept
    if a.log.ev[..=a_at] != j.log.ev[..=at] { return Err(format!("what follows the initialize changes what was printed before{}", job())); }
    let begun = j.log.ev[..at].iter().rev().find_map(|e| match e { Ev::Begin { .. } => Some(true), Ev::End { .. } => Some(false), _ => None }).unwrap_or(false);
    let origin = match b.log.ev.iter().find(|e| matches!(e, Ev::Begin { .. })) { Some(Ev::Begin { y, .. }) => *y as i64, _ => return Err(format!("no output begun{}", job())) };
    let dy = if !begun { 0 } else {
        match a.log.ev[a_at..].iter().find_map(|e| if let Ev::End { y, .. } = e { Some(*y as i64) } else { None }) { Some(y) => y - origin, None => return Err(format!("no end of the output{}", job())) }
    };
    if backwards && dy < 0 { o.trivial = true; o.add("reaches_above_its_start", 1); return Ok(o); }
    let mut want = vec![];
    let mut first = true;
    let body = &b.log.ev[b.log.ev.iter().position(|e| visible(e)).unwrap_or(0)..];
    for e in body.iter().filter(|e| visible(e)) { want.push(if first { shift(e, dy) } else { e.clone() }); if matches!(e, Ev::End { .. }) { first = false; } }
    let mut got: Vec<Ev> = j.log.ev[at + 1..].iter().filter(|e| visible(e)).cloned().collect();
    if !begun {
        // nothing printed after the last form feed is no output of its own
        if matches!(want.first(), Some(Ev::End { .. })) && (got.len() < want.len()) { want.remove(0); }
    }
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        if g != w { return Err(format!("event {} after the initialize is {}, at the start of a job (moved down by {}) it is {}{}", i, short(g), dy, short(w), job())); }
    }
    if got.len() != want.len() { return Err(format!("{} events after the initialize, {} at the start of a job{}", got.len(), want.len(), job())); }
    o.add("events_compared", want.len() as u64);
    let errors: Vec<String> = [&a.errors[..], &b.errors[..]].concat();
    if errors != j.errors { return Err(format!("errors {:?}, expected {:?}{}", j.errors, errors, job())); }
    // never overprinted
    if e2e::small(&a.log) && e2e::small(&j.log) {
        if begun {
            let mut ev = a.log.ev[..=a_at].to_vec();
            ev.push(Ev::End { x: 0, y: 0, width: 0, paper_w: 0, margins: (0, 0) });
            let sheets = paint::paint(&ev).sheets;
            if let Some(sh) = sheets.last() {
                let ink = sh.px.iter().rposition(|p| *p != [255; 3]).map(|i| (i / sh.w.max(1) as usize + 1) as i64).unwrap_or(0);
                if ink > origin + dy { return Err(format!("printing goes on at row {} after an initialize, above the ink printed down to row {}{}", origin + dy, ink, job())); }
            }
            o.add("overprint_checks", 1);
        }
        if c.family.starts_with("e2e") {
            match e2e::both(&all, &j.log, &j.errors).map_err(|e| format!("{}{}", e, job()))? {
                Some((x, y)) => { o.add("drawings_compared_in_image", x); o.add("elements_compared_in_html", y); }
                None => o.add("too_large_to_paint", 1),
            }
        }
    }
    for e in &got { o.state(fnv(format!("{:?}", std::mem::discriminant(e)).as_bytes(), begun as u64)); }
    got.truncate(0);
    o.trivial = want.len() <= 1;
    Ok(o)
}

/// Changes as many settings as there are.
pub fn settings(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let c = Cfg { hostile: r.chance(1, 3), ..Cfg::all() };
    for _ in 0..4 + r.below(24) {
        match r.below(8) {
            0..=2 => style(r, &mut v),
            3 | 4 => layout(r, &mut v),
            5 => match r.below(4) { 0 => v.extend([GS, b'h', r.byte()]), 1 => v.extend([GS, b'w', param(r)]), 2 => v.extend([GS, b'H', param(r)]), _ => v.extend([GS, b'f', param(r)]) },
            6 => qr(r, &mut v, &c),
            _ => match r.below(5) { 0 => v.extend([ESC, b'T', r.below(4) as u8]), 1 => { v.extend([ESC, b'W']); for m in [200, 200, 400, 300] { v.extend(u16le(r.below(m))); } } 2 => v.extend([ESC, b'L']), 3 => store(r, &mut v, &c), _ => page(r, &mut v, &c) },
        }
    }
    v
}
/// A job that shows every setting.
pub fn exhibit(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let c = Cfg { img: 24, ..Cfg::all() };
    let mut parts: Vec<usize> = (0..9).collect();
    for i in (1..parts.len()).rev() { let k = r.below(i + 1); parts.swap(i, k); }
    for p in parts {
        match p {
            0 => { v.extend(text(r, false)); v.push(LF) }
            1 => { v.extend(b"a\tb\tcd\t\te"); v.push(LF) }
            2 => { v.extend([ESC, b'd', 2]); v.extend(b"x"); v.extend([ESC, b'J', 7]) }
            3 => { v.extend([ESC, b'$', 30, 0]); v.extend(b"moved\n") }
            4 => { let k = r.below(9); let d = barcode_data(r, k); barcode_cmd(k, true, &d, &mut v); if k == 5 || true { v.push(LF) } }
            5 => { gs_k(49, 81, &[48], &mut v); if r.chance(1, 2) { qr_store(b"again", &mut v); gs_k(49, 81, &[48], &mut v) } }
            6 => image(r, &mut v, &c),
            7 => { gs_l(false, 48, 50, &[], &mut v); gs_l(false, 48, 85, b"A0\x01\x01", &mut v) }
            _ => { v.extend([ESC, b'L']); if r.chance(1, 2) { v.extend(b"\x1bT\x01"); } v.extend(b"on a page\nsecond line\n"); v.push(FF) }
        }
        if r.chance(1, 3) { break; }
    }
    v
}
/// Something that settings last through: the end of a ticket or a line, a page, an element, an error.
pub fn event(r: &mut Rng, v: &mut Vec<u8>) {
    match r.below(12) {
        0 => v.extend([GS, b'V', *r.pick(&[0u8, 1, 48, 49])]),
        1 => v.extend([GS, b'V', *r.pick(&[65u8, 66]), r.below(40) as u8]),
        2 => v.push(FF),
        3 => { v.extend([ESC, b'L']); v.extend(b"page"); v.push(FF) }
        4 => { v.extend([ESC, b'L']); v.extend(b"page"); v.extend([ESC, b'S']) }
        5 => v.extend([ESC, b'L']),
        6 => v.extend([ESC, *r.pick(b"dJ"), r.below(5) as u8]),
        7 => image(r, v, &Cfg { img: 24, ..Cfg::all() }),
        8 => { let k = r.below(9); let d = barcode_data(r, k); barcode_cmd(k, true, &d, v) }
        9 => { qr_store(b"between", v); gs_k(49, 81, &[48], v) }
        10 => v.push(LF),
        _ => v.extend([ESC, b'S']),
    }
}
/// Settings, something they last through, and what shows them.
pub fn across(r: &mut Rng, what: u8) -> Vec<u8> {
    let mut v = vec![];
    let c = Cfg::all();
    for _ in 0..1 + r.below(3) {
        for _ in 0..1 + r.below(4) {
            match what {
                b'c' => v.extend(match r.below(3) { 0 => [ESC, b't', *r.pick(&[0u8, 1, 2, 3, 4, 5, 11, 12, 13, 255])], 1 => [ESC, b'R', r.below(18) as u8], _ => [ESC, b't', 255] }),
                b's' => style(r, &mut v),
                b'b' => match r.below(4) { 0 => v.extend([GS, b'h', 1 + r.below(255) as u8]), 1 => v.extend([GS, b'w', 1 + r.below(7) as u8]), 2 => v.extend([GS, b'H', 48 + r.below(4) as u8]), _ => v.extend([GS, b'f', r.below(2) as u8]) },
                _ => qr(r, &mut v, &c),
            }
        }
        if r.chance(1, 2) { v.extend(b"before"); }
        for _ in 0..1 + r.below(2) { event(r, &mut v); }
        match what {
            b'c' => { let all = super::proj::all_text_bytes(); for _ in 0..1 + r.below(20) { v.push(*r.pick(&all)); } v.extend("\u{e9}#\u{20ac}@".bytes()); v.push(LF) }
            b's' => v.extend(b"After g\nlast\n"),
            b'b' => { let k = r.below(9); let d = barcode_data(r, k); barcode_cmd(k, true, &d, &mut v) }
            _ => { qr_store(b"again", &mut v); gs_k(49, 81, &[48], &mut v) }
        }
    }
    v.push(LF);
    v
}
pub fn run15(x: &mut Ctx) {
    let prefix = |r: &mut Rng, kind: usize| -> Vec<u8> {
        let mut c = swarm(r, &Cfg::all());
        c.hostile = r.chance(1, 4);
        c.unknown = r.below(2);
        let mut v = vec![];
        if r.chance(1, 3) { v.extend(job(r, &c, 6)); }
        match kind {
            0 => { let k = r.below(30); v.extend(job(r, &c, k)) }
            1 => v.extend(settings(r)),
            2 => { v.extend([ESC, b'L']); v.extend(settings(r)); c.page = 2; v.extend(job(r, &c, 6)) }
            3 => { v.extend(settings(r)); v.extend(text(r, false)); v.push(FF); if r.chance(1, 2) { v.extend(settings(r)) } }
            _ => { v.extend(settings(r)); v.extend(text(r, false)); image(r, &mut v, &c); if r.chance(1, 2) { v.extend(text(r, true)) } }
        }
        v
    };
    let suffix = |r: &mut Rng| -> Vec<u8> {
        // output that follows a form feed begins with the first thing printed
        let mut v = if r.chance(1, 2) { vec![ESC, b'J', r.below(3) as u8] } else { vec![] };
        if r.chance(1, 2) { v.extend(exhibit(r)) } else {
            let mut c = swarm(r, &Cfg { init: 0, ..Cfg::all() });
            c.init = 0;
            c.hostile = r.chance(1, 6);
            let k = 1 + r.below(14);
            v.extend(job(r, &c, k));
        }
        v
    };
    let n = if x.thorough { 15_000 } else { 480 };
    x.family("init-large", n, |r, i| { let cap = *r.pick(crate::bulk::LAID_OUT); let l = crate::bulk::large(r, i, cap); Some(Case::new("init-large", if r.chance(3, 4) { vec![l, suffix(r)] } else { let mut p = prefix(r, i % 5); p.push(LF); vec![p, l] })) });
    let n = x.n(12_000, 600_000);
    x.family("init", n, |r, i| { let p = prefix(r, i % 5); Some(Case::new("init", vec![p, suffix(r)])) });
    let n = x.n(1_200, 40_000);
    x.family("e2e-init", n, |r, i| { let p = prefix(r, i % 5); Some(Case::new("e2e-init", vec![p, suffix(r)])) });
    // each setting alone, with every parameter
    let one: Vec<Vec<u8>> = (0..=255u8).flat_map(|n| {
        let mut l: Vec<Vec<u8>> = [&b"\x1bE"[..], b"\x1bG", b"\x1b4", b"\x1b-", b"\x1b{", b"\x1br", b"\x1dB", b"\x1d!", b"\x1b!", b"\x1bM", b"\x1bt", b"\x1bR", b"\x1db", b"\x1b3", b"\x1ba", b"\x1dh", b"\x1dw", b"\x1dH", b"\x1df", b"\x1dP\x50", b"\x1b$\x10", b"\x1bL\x1bT",
            b"\x1d(N\x02\x0000", b"\x1d(N\x02\x0001", b"\x1d(k\x03\x001C", b"\x1d(k\x03\x001E", b"\x1d(k\x04\x001A\x33"].iter().map(|c| [c, &[n][..]].concat()).collect();
        l.push(vec![ESC, b'D', n, 3]);
        l.push([&b"\x1bL\x1bW\x10\x00"[..], &[n, 0, 200, 0, 100, 0]].concat());
        l.push([&b"\x1d(k"[..], &[4 + (n % 8), 0, 49, 80, 48], &vec![b'0' + n % 10; 1 + (n % 8) as usize]].concat());
        l
    }).collect();
    let n = one.len();
    x.family("each", n, |r, i| Some(Case::new("each", vec![one[i].clone(), if i % 2 == 0 { exhibit(r) } else { [&b"ab {~\x80\t#\n\x1d(k\x03\x001Q0\x1bd\x01\x1dkA\x0b01234567890\x1dkE\x03ABC\x1bLpage\n\x0c"[..], &exhibit(r)].concat() }])));
}

// ---------- C18 ----------
use crate::barcodes::{self, Code};
use crate::cmp;

/// The paper of a job: characters with their places and styles, pictures, symbols, pages, cuts, ends.
fn paper(ev: &[Ev]) -> Vec<String> {
    let mut v = vec![];
    for e in ev {
        match e {
            Ev::Text { .. } => {
                for c in cmp::log_chars(std::slice::from_ref(e)) {
                    let s = c.s;
                    v.push(format!("{:?} at {},{} {:?}", c.c, c.x, c.y, (&s.font, s.cw, s.ch, s.bold, s.italic, s.underline, s.strike, s.inverted, s.upside, s.fg, s.bg, c.page)));
                }
            }
            Ev::Device(d) => if ["Full Cut", "Partial Cut"].contains(&d.as_str()) { v.push(d.clone()) },
            Ev::Begin { .. } => {}
            e => v.push(format!("{:?}", e)),
        }
    }
    v
}
pub fn eval18(c: &Case) -> Verdict {
    let mut o = Obs::default();
    let f = c.family.as_str();
    if f.starts_with("insert") {
        let (p, bad, s) = (&c.data[0], &c.data[1], &c.data[2]);
        let job = || format!("\nbefore: {}\nfaulty: {}\nafter: {}", show(p), show(bad), show(s));
        let first = rec::record(p);
        let base = rec::record(&[&p[..], s].concat());
        let with = rec::record(&[&p[..], bad, s].concat());
        let k = first.errors.len();
        if with.errors.len() != base.errors.len() + 1 { return Err(format!("{} errors, {} without the faulty command: {:?}{}", with.errors.len(), base.errors.len(), with.errors, job())); }
        let mut rest = with.errors.clone();
        rest.remove(k);
        if rest != base.errors { return Err(format!("the errors {:?} are not in the order of the job, without the faulty command they are {:?}{}", with.errors, base.errors, job())); }
        let (a, b) = (paper(&with.log.ev), paper(&base.log.ev));
        for (x, y) in a.iter().zip(&b) { if x != y { return Err(format!("with the faulty command the paper shows {}, without it {}{}", x.chars().take(400).collect::<String>(), y.chars().take(400).collect::<String>(), job())); } }
        if a.len() != b.len() { return Err(format!("with the faulty command the paper shows {} things, without it {}{}", a.len(), b.len(), job())); }
        o.add("faulty_commands", 1);
        o.add("things_compared", a.len() as u64);
        o.state(fnv(&bad[..bad.len().min(6)], 1));
        if f.contains("e2e") {
            let all = [&p[..], bad, s].concat();
            if let Some((x, y)) = e2e::both(&all, &with.log, &with.errors).map_err(|e| format!("{}{}", e, job()))? { o.add("drawings_compared_in_image", x); o.add("elements_compared_in_html", y); }
        }
        return Ok(o);
    }
    let b = &c.data[0];
    if f.starts_with("valid") {
        let r = rec::record(b);
        if !r.errors.is_empty() { return Err(format!("a valid job has the errors {:?}\njob: {}", r.errors, show(b))); }
        o.add("valid_jobs", 1);
        if f.contains("e2e") && e2e::small(&r.log) {
            let p = paint::paint(&r.log.ev);
            if p.outside == 0 {
                for (n, e) in [("image", rec::image_of(b, None).errors), ("HTML", rec::html_of(b, None).errors)] {
                    if !e.is_empty() { return Err(format!("{}: a valid job has the errors {:?}\njob: {}", n, e, show(b))); }
                }
                o.add("valid_jobs_drawn", 1);
            } else { o.add("drawn_outside_of_the_paper", 1) }
        }
        o.state(fnv(format!("{:?}", r.log.ev.iter().map(std::mem::discriminant).take(12).collect::<Vec<_>>()).as_bytes(), 3));
        return Ok(o);
    }
    match cmp::both(b) {
        Err(_) => { o.trivial = true; o.add("undecided", 1) }
        Ok(x) => {
            let n = x.errors()?;
            o.add("errors_compared", n);
            x.order()?; x.chars()?; x.places(false)?; x.places(true)?; x.pictures()?;
            for (i, e) in &x.out.errors { if let Some(it) = x.out.items.get(*i) { o.state(fnv(&b[it.start..it.end.min(it.start + 5)], format!("{:?}", e).len() as u64)) } }
            o.trivial = n == 0;
            if f.starts_with("e2e") { if let Some((i, h)) = e2e::both(b, &x.rec.log, &x.rec.errors).map_err(|e| format!("{}\njob: {}", e, show(b)))? { o.add("drawings_compared_in_image", i); o.add("elements_compared_in_html", h); } }
        }
    }
    Ok(o)
}

/// A job that stays on the paper: narrow content, QR codes that fit, no faulty data.
fn valid(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let mut page = false;
    for _ in 0..1 + r.below(24) {
        match r.below(14) {
            0..=2 => { let t = text(r, false); v.extend(t); if r.chance(2, 3) { v.push(LF) } }
            3 | 4 => style(r, &mut v),
            5 => if !page { layout(r, &mut v) },
            6 => if !page { feed(r, &mut v) },
            7 => image(r, &mut v, &Cfg { img: 48, ..Cfg::zero() }),
            8 => { for _ in 0..1 + r.below(4) { store(r, &mut v, &Cfg { img: 40, ..Cfg::zero() }); } }
            9 | 10 => { let k = r.below(9); let d = barcode_data(r, k); v.push(LF); barcode_cmd(k, r.chance(1, 2), &d, &mut v) }
            11 => { gs_k(49, 65, &[50, 0], &mut v); gs_k(49, 67, &[1 + r.below(4) as u8], &mut v); gs_k(49, 69, &[48 + r.below(4) as u8], &mut v); let d = qr_data(r); qr_store(&d, &mut v); v.push(LF); gs_k(49, 81, &[48], &mut v) }
            12 => noop(r, &mut v),
            _ => if page { v.push(FF); page = false } else if r.chance(1, 2) { v.extend(b"\x1bL"); if r.chance(1, 2) { v.extend([ESC, b'T', r.below(4) as u8]) } page = true } else { v.extend(b"\x1b@") },
        }
    }
    v
}
/// Barcode data that the symbology can't carry.
fn bad_barcode(r: &mut Rng) -> Option<Vec<u8>> {
    for _ in 0..20 {
        let kind = r.below(9);
        let mut d = barcode_data(r, kind);
        match r.below(5) {
            0 => { let n = r.below(d.len() + 4); d.resize(n, *r.pick(b"07A")); }
            1 => { if !d.is_empty() { let k = r.below(d.len()); d[k] = 1 + r.below(254) as u8; } }
            2 => { if !d.is_empty() { let k = r.below(d.len()); d[k] = *r.pick(b"*az#,E{ ~\x1b\x1d\x0a"); } }
            3 => { let k = r.below(d.len() + 1); d.insert(k, *r.pick(b"*abA9E-{\x7f\x80")); }
            _ => { if !d.is_empty() { let k = r.below(d.len()); d.remove(k); } }
        }
        let fb = r.chance(1, 2) || kind > 6;
        if !fb && d.contains(&0) || d.len() > 250 { continue; }
        if !fb && d.is_empty() { continue; }
        if barcodes::encode(kind, &d, 2) == Code::Invalid {
            let mut v = vec![];
            barcode_cmd(kind, fb, &d, &mut v);
            return Some(v);
        }
    }
    None
}
/// One faulty command (or the store and print pair of one symbol or picture) that adds one error.
fn faulty(r: &mut Rng) -> Option<Vec<u8>> {
    let mut v = vec![];
    match r.below(7) {
        0 => { unknown(r, &mut v); if r.chance(1, 2) { let w = word(r, true, 6); v.extend(w.into_iter().filter(|b| *b >= 32)); } }
        1 | 2 => return bad_barcode(r),
        3 => { let d = vec![*r.pick(b"abc~"); 2954 + r.below(2000)]; qr_store(&d, &mut v); gs_k(49, 81, &[48], &mut v); }
        4 => { let cn = *r.pick(&[48u8, 50, 51, 52, 53, 54]); gs_k(cn, 81, &[48], &mut v); }
        5 => {
            // a picture with too little data or an impossible size
            let (w, h) = (1 + r.below(60), 1 + r.below(40));
            let need = (w + 7) / 8 * h;
            let mut d = vec![48, 1, 1, 49];
            d.extend(u16le(w)); d.extend(u16le(h));
            let k = r.below(need);
            d.extend(r.bytes(k));
            gs_l(r.chance(1, 2), 48, 112, &d, &mut v);
            gs_l(false, 48, *r.pick(&[2u8, 50]), &[], &mut v);
        }
        _ => {
            let (w, h) = (1 + r.below(60), 1 + r.below(40));
            let need = (w + 7) / 8 * h;
            let key = [b'Z', b'0' + r.below(3) as u8];
            let mut d = vec![48, key[0], key[1], 1];
            d.extend(u16le(w)); d.extend(u16le(h)); d.push(49);
            let k = r.below(need);
            d.extend(r.bytes(k));
            let disc = r.chance(1, 2);
            gs_l(r.chance(1, 2), 48, if disc { 67 } else { 83 }, &d, &mut v);
            gs_l(false, 48, if disc { 69 } else { 85 }, &[key[0], key[1], 1, 1], &mut v);
        }
    }
    Some(v)
}
pub fn run18(x: &mut Ctx) {
    crate::bulk::family(x, 600, 20_000, crate::bulk::LAID_OUT);
    let n = x.n(12_000, 600_000);
    x.family("valid!", n, |r, _| { let v = valid(r); Some(Case::one("valid!", v)) });
    let n = x.n(1_500, 60_000);
    x.family("valid!e2e", n, |r, _| { let v = valid(r); Some(Case::one("valid!e2e", v)) });
    let parts = |r: &mut Rng| -> Option<Vec<Vec<u8>>> {
        let bad = faulty(r)?;
        let mut c = swarm(r, &Cfg { init: 0, ..Cfg::all() });
        c.hostile = r.chance(1, 5);
        let mut p = vec![];
        if r.chance(1, 4) { p.extend(b"\x1bL"); }
        let k = r.below(14);
        p.extend(job(r, &Cfg { store: 0, ..c.clone() }, k));
        p.push(LF);
        // the faulty store leaves no symbol to print, and an unknown command reaches up to the next one
        let mut s = vec![*r.pick(&[LF, LF, ESC])];
        if s[0] == ESC { s.extend([b'J', r.below(20) as u8]); }
        let k = r.below(12);
        s.extend(job(r, &Cfg { qr: 0, ..c }, k));
        Some(vec![p, bad, s])
    };
    let n = x.n(14_000, 700_000);
    x.family("insert!", n, |r, _| Some(Case::new("insert!", parts(r)?)));
    let n = x.n(1_000, 40_000);
    x.family("insert!e2e", n, |r, _| Some(Case::new("insert!e2e", parts(r)?)));
    // commands cut off by the end of the job
    let n = x.n(4_000, 200_000);
    x.family("cut-off", n, |r, _| {
        let c = swarm(r, &Cfg::all());
        let k = r.below(6);
        let mut v = job(r, &c, k);
        let mut t = vec![];
        match r.below(5) { 0 => image(r, &mut t, &Cfg { img: 64, ..Cfg::zero() }), 1 => barcode(r, &mut t, &Cfg::zero()), 2 => store(r, &mut t, &Cfg { img: 40, ..Cfg::zero() }), 3 => qr(r, &mut t, &Cfg::zero()), _ => unknown(r, &mut t) }
        let k = r.below(t.len() + 1);
        v.extend(&t[..k]);
        Some(Case::one("cut-off", v))
    });
    let n = x.n(8_000, 500_000);
    x.family("faults", n, |r, _| {
        let mut c = swarm(r, &Cfg::all());
        c.hostile = true; c.unknown = 3;
        let mut v = vec![];
        for _ in 0..1 + r.below(12) { if r.chance(1, 3) { if let Some(b) = faulty(r) { v.extend(b); } } else { step(r, &mut v, &c); } }
        Some(Case::one("faults", v))
    });
    let n = x.n(700, 40_000);
    x.family("e2e-faults", n, |r, _| {
        let mut c = swarm(r, &Cfg::all());
        c.hostile = true; c.unknown = 3;
        let mut v = vec![];
        for _ in 0..1 + r.below(12) { if r.chance(1, 3) { if let Some(b) = faulty(r) { v.extend(b); } } else { step(r, &mut v, &c); } }
        Some(Case::one("e2e-faults", v))
    });
    // every two byte opcode
    x.family("opcodes", 256 * 7, |r, i| {
        let mut v = b"before\x0a".to_vec();
        v.extend([[DLE, CAN, ESC, FS, GS, GS, DLE][i / 256], (i % 256) as u8]);
        if i / 256 >= 5 { v.truncate(v.len() - 2); v.extend(if i / 256 == 5 { vec![GS, b'(', (i % 256) as u8] } else { vec![FS, b'(', (i % 256) as u8] }); }
        let n = r.below(12);
        for _ in 0..n { v.push(if r.chance(1, 2) { 0 } else { param(r) }); }
        v.extend(b"\x0aafter\x0a");
        Some(Case::one("opcodes", v))
    });
}
