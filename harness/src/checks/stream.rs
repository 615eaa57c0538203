//! C23: form feeds separate outputs, C24: what is printed is final. Relations between a job and its parts.
use super::meta::short;
use crate::core::*;
use crate::e2e;
use crate::gen::*;
use crate::grammar::{self, Item, Kind};
use crate::rec::{self, Ev, Recorded};
use crate::rng::Rng;
use crate::samples;

fn shown(e: &Ev) -> bool { !matches!(e, Ev::Begin { .. } | Ev::Device(_)) }

/// A command that only sets something: it prints nothing and moves nothing.
/// Graphics that are collected for the buffer count as settings as long as nothing prints the buffer.
fn sets(b: &[u8], i: &Item) -> bool {
    if i.kind != Kind::Cmd { return false; }
    let p = i.params(b);
    match i.opcode(b) {
        b"\x18@" | b"\x0d" | b"\x0c" | b"\x09" | b"\x0a" | b"\x1b*" | b"\x1dv0" | b"\x1dk" | b"\x1bd" | b"\x1bJ" | b"\x1be" | b"\x1dV" | b"\x1b$" | b"\x1d$" | b"\x1d\\"
            | b"\x1bL" | b"\x1bS" | b"\x1b\x0c" | b"\x1bp" | b"\x1dI" => false,
        b"\x1d(k" => p.get(3) != Some(&81),
        b"\x1d(L" | b"\x1d8L" => {
            let f = p.get(if i.opcode(b) == b"\x1d(L" { 3 } else { 5 });
            !matches!(f, Some(69 | 85))
        }
        _ => true,
    }
}
fn graphics_function(b: &[u8], i: &Item) -> Option<u8> {
    if i.kind != Kind::Cmd { return None; }
    match i.opcode(b) { b"\x1d(L" => i.params(b).get(3).copied(), b"\x1d8L" => i.params(b).get(5).copied(), _ => None }
}
/// The settings a job leaves behind, as a job of its own that prints nothing.
pub fn settings_of(b: &[u8]) -> Vec<u8> {
    let items = grammar::split(b);
    // buffered graphics that are printed again are no settings
    let printed = items.iter().rposition(|i| matches!(graphics_function(b, i), Some(2 | 50)));
    let mut v = vec![];
    let mut page = false;
    for (k, i) in items.iter().enumerate() {
        if i.kind == Kind::Cmd {
            match i.opcode(b) {
                b"\x1bL" => page = true,
                b"\x1bS" | b"\x1b@" | b"\x0c" => page = false,
                // areas and directions are set in page mode only
                b"\x1bT" | b"\x1bW" if page => { v.extend(b"\x1bL"); v.extend(&b[i.start..i.end]); v.extend(b"\x1bS"); continue }
                _ => {}
            }
        }
        match graphics_function(b, i) {
            Some(2 | 50) => continue,
            Some(112 | 113) if Some(k) <= printed => continue,
            _ => {}
        }
        if sets(b, i) { v.extend(&b[i.start..i.end]); }
    }
    v
}

// ---------- C23 ----------
/// The visible events of a log, output by output; the last part is what follows the last end.
fn outputs(ev: &[Ev]) -> Vec<Vec<Ev>> {
    let mut v = vec![vec![]];
    for e in ev {
        if !shown(e) { continue; }
        v.last_mut().unwrap().push(e.clone());
        if matches!(e, Ev::End { .. }) { v.push(vec![]); }
    }
    v
}
fn fully_split(b: &[u8]) -> bool { grammar::split(b).last().map(|i| i.kind != Kind::Unknown).unwrap_or(true) }

pub fn eval23(c: &Case) -> Verdict {
    let (a, b) = (&c.data[0], &c.data[1]);
    let mut o = Obs::default();
    let job = || format!("\nfirst: {}\nthen: {}", show(a), show(b));
    // leave page mode, so that the form feed ends the output
    let first = [&a[..], b"\x1bS\x0c"].concat();
    let tail: Vec<Item> = grammar::split(&first).into_iter().rev().take(2).collect();
    let whole = tail.len() == 2 && tail[0].kind == Kind::Cmd && tail[1].kind == Kind::Cmd && tail[1].start == a.len() && tail[1].end == a.len() + 2;
    if !whole { o.trivial = true; o.add("not_a_form_feed", 1); return Ok(o); }
    let set = settings_of(a);
    let all = [&first[..], b].concat();
    let alone = [&set[..], b].concat();
    if !fully_split(&set) { o.trivial = true; o.add("not_a_form_feed", 1); return Ok(o); }
    let (f, s, x, y) = (rec::record(&first), rec::record(&set), rec::record(&all), rec::record(&alone));
    let job = || format!("{}\nsettings: {}", job(), show(&set));
    // what was printed before is not touched
    let (fo, xo, mut yo) = (outputs(&f.log.ev), outputs(&x.log.ev), outputs(&y.log.ev));
    let n = fo.len() - 1;
    for k in 0..n {
        let (g, w) = (xo.get(k), &fo[k]);
        if g != Some(w) { return Err(format!("output {} is another when something follows its form feed{}", k, job())); }
    }
    if fo[n] != vec![] { return Err(format!("{} is printed after the last form feed{}", short(&fo[n][0]), job())); }
    // what follows is printed as if it came first
    let rest = &xo[n..];
    // nothing printed is no output of its own
    let own = outputs(&s.log.ev)[0].len() - 1;
    yo[0].drain(..own);
    if yo.len() > rest.len() && yo[0].len() == 1 { yo.remove(0); }
    if rest.len() != yo.len() { return Err(format!("{} outputs after the form feed, {} on their own{}", rest.len() - 1, yo.len() - 1, job())); }
    for (k, (g, w)) in rest.iter().zip(&yo).enumerate() {
        for (g, w) in g.iter().zip(w) { if g != w { return Err(format!("output {} after the form feed: {}, on its own: {}{}", k, short(g), short(w), job())); } }
        if g.len() != w.len() { return Err(format!("output {} after the form feed has {} events, on its own {}{}", k, g.len(), w.len(), job())); }
        o.add("events_compared", g.len() as u64);
    }
    let want: Vec<&String> = f.errors.iter().chain(y.errors.iter().skip(s.errors.len())).collect();
    if x.errors.iter().collect::<Vec<_>>() != want { return Err(format!("errors {:?}, expected {:?}{}", x.errors, want, job())); }
    o.add("outputs_compared", (n + rest.len() - 1) as u64);
    o.state(fnv(format!("{:?}", rest.iter().map(|r| r.iter().map(std::mem::discriminant).collect::<Vec<_>>()).collect::<Vec<_>>()).as_bytes(), n as u64));
    if c.family.starts_with("e2e") && e2e::small(&f.log) && e2e::small(&x.log) && e2e::small(&y.log) {
        let (fi, xi, mut yi) = (rec::image_of(&first, None).output, rec::image_of(&all, None).output, rec::image_of(&alone, None).output);
        if yi.len() + fi.len() > xi.len() { yi.remove(0); }
        if xi.len() != fi.len() + yi.len() { return Err(format!("{} images, {} of the parts{}", xi.len(), fi.len() + yi.len(), job())); }
        for (k, (g, w)) in xi.iter().zip(fi.iter().chain(&yi)).enumerate() {
            if (g.width, g.height) != (w.width, w.height) { return Err(format!("image {} is {}x{}, of the parts {}x{}{}", k, g.width, g.height, w.width, w.height, job())); }
            if let Some(i) = g.bytes.iter().zip(&w.bytes).position(|(a, b)| a != b) { return Err(format!("image {} differs from that of the parts at pixel {},{}{}", k, i / 3 % g.width as usize, i / 3 / g.width as usize, job())); }
            o.add("images_compared", 1);
        }
        match e2e::both(&all, &x.log, &x.errors).map_err(|e| format!("{}{}", e, job()))? {
            Some((p, q)) => { o.add("drawings_compared_in_image", p); o.add("elements_compared_in_html", q); }
            None => o.add("too_large_to_paint", 1),
        }
    }
    o.trivial = rest.iter().all(|r| r.len() <= 1);
    Ok(o)
}

fn sheet(r: &mut Rng, k: usize) -> Vec<u8> {
    let mut c = swarm(r, &Cfg::all());
    c.hostile = r.chance(1, 5);
    c.unknown = r.below(2);
    let steps = 1 + r.below(14);
    let mut v = vec![];
    if k % 3 == 0 { v.extend(super::meta::settings(r)); }
    v.extend(job(r, &c, steps));
    if k % 4 == 1 { v.push(FF); let n = r.below(6); v.extend(job(r, &c, n)); }
    v
}
/// Moves without printing.
fn move_only(r: &mut Rng, v: &mut Vec<u8>) {
    match r.below(6) {
        0 => { v.extend([ESC, b'$']); v.extend(u16le(r.below(400))) }
        1 => { v.extend([GS, b'$']); v.extend(u16le(r.below(300))) }
        2 => { v.extend([GS, b'\\']); v.extend(u16le(r.below(200))) }
        3 => v.push(HT),
        4 => v.extend([ESC, b'd', r.below(3) as u8]),
        _ => v.push(CR),
    }
}
pub fn run23(x: &mut Ctx) {
    let n = if x.thorough { 15_000 } else { 480 };
    x.family("joined-large", n, |r, i| {
        let cap = *r.pick(crate::bulk::LAID_OUT);
        let l = crate::bulk::large(r, i, cap);
        let k = r.below(1000);
        let s = sheet(r, k);
        Some(Case::new("joined-large", if r.chance(3, 4) { vec![l, s] } else { vec![s, l] }))
    });
    let n = x.n(12_000, 600_000);
    x.family("joined", n, |r, i| {
        let a = sheet(r, i);
        if i % 9 == 4 { let b = twin(r, &a); return Some(Case::new("joined", vec![a, b])); }
        let mut b = vec![];
        match i % 5 {
            0 => { move_only(r, &mut b); if r.chance(1, 2) { b.push(FF) } }
            1 => b.extend(super::meta::exhibit(r)),
            2 => { for _ in 0..r.below(3) { b.push(FF) } }
            _ => {}
        }
        let k = r.below(1000);
        b.extend(sheet(r, k));
        Some(Case::new("joined", vec![a, b]))
    });
    let n = x.n(1_000, 40_000);
    x.family("e2e-joined", n, |r, i| {
        let a = sheet(r, i);
        if i % 5 == 4 { let b = twin(r, &a); return Some(Case::new("e2e-joined", vec![a, b])); }
        let mut b = vec![];
        if i % 3 == 0 { move_only(r, &mut b); }
        if i % 2 == 0 { b.extend(super::meta::exhibit(r)) } else { let k = r.below(1000); b.extend(sheet(r, k)) }
        Some(Case::new("e2e-joined", vec![a, b]))
    });
}

// ---------- C24 ----------
/// The log without what the end of the job adds: the end itself and the line that was still open.
fn settled(r: &Recorded) -> (Vec<Ev>, Option<Ev>) {
    let mut ev = r.log.ev.clone();
    let ended = matches!(ev.last(), Some(Ev::End { .. }));
    if !ended { return (ev, None); }
    ev.pop();
    if let Some(Ev::Device(d)) = ev.last() { if d == "End Print" { ev.pop(); } }
    let open = if let Some(Ev::Text { .. }) = ev.last() { ev.pop() } else { None };
    (ev, open)
}
pub fn eval24(c: &Case) -> Verdict {
    let b = &c.data[0];
    let mut o = Obs::default();
    let items = grammar::split(b);
    let at = |k: usize| if items.is_empty() { 0 } else { items[k % items.len()].end };
    let k = c.data[1].iter().fold(0usize, |n, b| n * 256 + *b as usize);
    let cut = at(k);
    if cut >= b.len() { o.trivial = true; o.add("nothing_follows", 1); return Ok(o); }
    let job = || format!("\nfirst: {}\nlater: {}", show(&b[..cut]), show(&b[cut..]));
    let (p, f) = (rec::record(&b[..cut]), rec::record(b));
    let (ev, open) = settled(&p);
    // a form feed as the last thing has ended the output for good
    let form_feed = items[k % items.len()].opcode(b) == b"\x0c";
    // (in page mode it only prints the page: text after it then belongs to the same output)
    let ends = |l: &rec::Log| l.ev.iter().filter(|e| matches!(e, Ev::End { .. })).count();
    let last_is_end = form_feed && {
        let mut more = b[..cut].to_vec();
        more.extend_from_slice(b"X\n");
        ends(&rec::record(&more).log) > ends(&p.log)
    } && {
        let mut next = f.log.ev.iter().skip(ev.len()).filter(|e| !matches!(e, Ev::Device(_)));
        let e = next.next();
        matches!(if open.is_some() { next.next() } else { e }, Some(Ev::End { .. }))
    };
    for (i, e) in ev.iter().enumerate() {
        match f.log.ev.get(i) {
            Some(g) if g == e => {}
            g => return Err(format!("event {} was {}, with what is sent later it is {}{}", i, short(e), g.map(short).unwrap_or("missing".into()), job())),
        }
    }
    o.add("events_kept", ev.len() as u64);
    if let Some(Ev::Text { spans, .. }) = &open {
        // settings in the middle of a line are announced before the line is printed
        match f.log.ev[ev.len()..].iter().find(|e| !matches!(e, Ev::Device(_))) {
            Some(Ev::Text { spans: g, .. }) if g.len() >= spans.len() && g[..spans.len()] == spans[..] => o.add("open_lines_kept", 1),
            g => return Err(format!("the last line was {}, with what is sent later it is {}{}", short(open.as_ref().unwrap()), g.map(short).unwrap_or("missing".into()), job())),
        }
    }
    if f.errors.len() < p.errors.len() || f.errors[..p.errors.len()] != p.errors[..] { return Err(format!("the errors {:?} become {:?}{}", p.errors, f.errors, job())); }
    o.add("errors_kept", p.errors.len() as u64);
    o.state(fnv(format!("{:?} {:?}", ev.iter().rev().take(4).map(std::mem::discriminant).collect::<Vec<_>>(), f.log.ev.get(ev.len()).map(std::mem::discriminant)).as_bytes(), open.is_some() as u64 + 2 * last_is_end as u64));
    if c.family.starts_with("e2e") && e2e::small(&p.log) && e2e::small(&f.log) {
        let (pi, fi) = (rec::image_of(&b[..cut], None).output, rec::image_of(b, None).output);
        let (ph, fh) = (rec::html_of(&b[..cut], None).output, rec::html_of(b, None).output);
        let done = outputs(&ev).len() - 1 + last_is_end as usize;
        for k in 0..done {
            let same = match (pi.get(k), fi.get(k)) { (Some(p), Some(f)) => (p.width, p.height) == (f.width, f.height) && p.bytes == f.bytes, _ => false };
            if !same { return Err(format!("image {} was finished and is changed by what is sent later{}", k, job())); }
            if ph.get(k).map(|h| &h.content) != fh.get(k).map(|h| &h.content) || ph.len() <= k { return Err(format!("HTML {} was finished and is changed by what is sent later{}", k, job())); }
            o.add("finished_outputs_compared", 1);
        }
        // ink on the unfinished output stays ink
        if open.is_none() && !last_is_end {
            if let (Some(p), Some(f)) = (pi.get(done), fi.get(done)) {
                let w = p.width as usize * 3;
                if p.width != f.width { return Err(format!("the width {} becomes {}{}", p.width, f.width, job())); }
                for (k, px) in p.bytes.chunks(3).enumerate() {
                    if px == [255; 3] { continue; }
                    let q = f.bytes.get(k * 3..k * 3 + 3);
                    if q.is_none() || q == Some(&[255; 3]) { return Err(format!("the ink at {},{} is gone with what is sent later{}", k * 3 % w / 3, k * 3 / w, job())); }
                    o.add("inked_pixels_kept", 1);
                }
                o.add("unfinished_images_compared", 1);
            }
        }
    }
    o.trivial = ev.len() <= 2;
    Ok(o)
}
pub fn run24(x: &mut Ctx) {
    let pos = |r: &mut Rng| r.below(65536).to_be_bytes()[6..].to_vec();
    let n = if x.thorough { 15_000 } else { 480 };
    x.family("prefix-large", n, |r, i| { let cap = *r.pick(crate::bulk::LAID_OUT); let mut b = crate::bulk::large(r, i, cap); let k = r.below(1000); b.extend(sheet(r, k)); Some(Case::new("prefix-large", vec![b, pos(r)])) });
    let n = x.n(14_000, 700_000);
    x.family("prefix", n, |r, i| {
        let mut b = vec![];
        if i % 3 == 0 { b.extend(sheet(r, i)); }
        if i % 4 == 1 { b.extend(super::meta::exhibit(r)); }
        let mut c = swarm(r, &Cfg::all());
        c.hostile = r.chance(1, 5);
        c.unknown = r.below(2);
        let k = 4 + r.below(30);
        b.extend(job(r, &c, k));
        Some(Case::new("prefix", vec![b, pos(r)]))
    });
    let n = x.n(1_200, 50_000);
    x.family("e2e-prefix", n, |r, i| {
        let mut b = sheet(r, i);
        if i % 2 == 0 { b.push(FF) }
        let mut c = swarm(r, &Cfg::all());
        c.hostile = r.chance(1, 5);
        let k = 4 + r.below(16);
        b.extend(job(r, &c, k));
        Some(Case::new("e2e-prefix", vec![b, pos(r)]))
    });
    // later output reaches back over what is already there
    let n = x.n(1_000, 60_000);
    x.family("e2e-overlay", n, |r, i| {
        let mut b = if i % 4 == 0 { sheet(r, i) } else { vec![] };
        b.extend(super::drawn::overlaps(r));
        for _ in 0..1 + r.below(3) {
            match r.below(4) {
                0 => b.extend([ESC, b'{', 1]),
                1 => b.extend([ESC, b'3', r.below(20) as u8]),
                _ => {}
            }
            style(r, &mut b);
            let t = text(r, true);
            b.extend(&t[..t.len().min(30)]);
            b.push(LF);
            b.extend([ESC, b'e', 1 + r.below(4) as u8]);
        }
        if r.chance(1, 3) { b.extend([ESC, b'@']) }
        b.extend(super::drawn::overlaps(r));
        let v = if i % 5 == 0 { super::proj::in_page(r, b) } else { b };
        Some(Case::new("e2e-overlay", vec![v, pos(r)]))
    });
    let s = samples::all();
    let n = x.n(400, 8_000);
    x.family("e2e-prefix-samples", n, |r, i| {
        let mut b = s[i % s.len()].clone();
        if i >= s.len() && r.chance(1, 2) { let o = s[r.below(s.len())].clone(); mutate(r, &mut b, &o); }
        Some(Case::new(if b.len() < 6_000 { "e2e-prefix-samples" } else { "prefix-samples" }, vec![b, pos(r)]))
    });
    let n = x.n(3_000, 150_000);
    x.family("prefix-noise", n, |r, _| { let k = 20 + r.below(300); Some(Case::new("prefix-noise", vec![noise(r, k), pos(r)])) });
}
