//! C26: sending what is already set, or what prints nothing, changes nothing.
use super::meta::{exhibit, short};
use crate::core::*;
use crate::e2e;
use crate::gen::*;
use crate::grammar::{self, Item, Kind};
use crate::rec::{self, Ev, Span};
use crate::rng::Rng;
use crate::samples;

/// The part of the printer's state a command sets, and the parts its parameter is read with; None: no setting.
fn sets(b: &[u8], i: &Item) -> Option<u32> {
    if i.kind != Kind::Cmd { return None; }
    let p = i.params(b);
    let bit = |n: u32| Some(1u32 << n);
    const MOTION: u32 = 1 << 20;
    match i.opcode(b) {
        b"\x1bE" | b"\x1bG" => bit(0),
        b"\x1b-" => bit(1),
        b"\x1b4" => bit(2),
        b"\x1bM" => bit(3),
        b"\x1b{" => bit(4),
        b"\x1dB" | b"\x1br" | b"\x1d(N" => bit(5),
        b"\x1d!" => bit(6),
        b"\x1b!" => Some(1 | 2 | 8 | 64),
        b"\x1bt" => bit(7),
        b"\x1bR" => bit(8),
        b"\x1b2" | b"\x1b3" => Some(1 << 9 | MOTION),
        b"\x1dP" => Some(MOTION),
        b"\x1ba" => bit(10),
        b"\x1bD" => bit(11),
        b"\x1dh" => bit(12),
        b"\x1dw" => bit(13),
        b"\x1dH" => bit(14),
        b"\x1df" => bit(15),
        b"\x1db" => bit(16),
        b"\x1d(k" => match (p.get(2), p.get(3)) { (Some(49), Some(65)) => bit(17), (Some(49), Some(67)) => bit(18), (Some(49), Some(69)) => bit(19), _ => None },
        b"\x1d(L" => match p.get(3) { Some(1 | 49) => Some(1 << 22 | MOTION), _ => None },
        _ => None,
    }
}
/// What the power-on settings are, by the commands that set them.
const POWER_ON: &[&[u8]] = &[b"\x1bE\0", b"\x1bG\0", b"\x1b-\0", b"\x1b4\0", b"\x1bM\0", b"\x1b{\0", b"\x1dB\0", b"\x1d!\0", b"\x1b!\0", b"\x1bt\0", b"\x1bR\0", b"\x1b2", b"\x1ba\0", b"\x1br\0", b"\x1db\0", b"\x1dH\0", b"\x1bE0", b"\x1b-0", b"\x1ba0", b"\x1bM0",
    b"\x1dh\x28", b"\x1dw\x03", b"\x1df\0", b"\x1b3\x18", b"\x1bD\x08\0", b"\x1bD\x08\x1f", b"\x1d(k\x04\x00\x31\x41\x31\0", b"\x1d(k\x03\0\x31\x43\x03", b"\x1d(k\x03\0\x31\x45\x30", b"\x1dP\0\0", b"\x1dP\xcb\xcb"];
/// Commands that print nothing and set nothing.
const IDLE: &[&[u8]] = &[b"\x1b=\x01", b"\x1bc3\0", b"\x1bc4\x0f", b"\x1bc5\x01", b"\x1bp\0\x32\x32", b"\x1dI\x01", b"\x1d(H\x06\0\x30\x30abcd"];

/// The job with commands added that change nothing.
fn with_idle(r: &mut Rng, b: &[u8], o: &mut Obs) -> Vec<u8> {
    let items = grammar::split(b);
    let mut v: Vec<u8> = vec![];
    // commands in effect, and the state they set
    let mut set: Vec<(Vec<u8>, u32)> = vec![];
    let mut touched = 0u32;
    let mut page = false;
    // nothing is on the line, which the text before it ended
    let mut ended = false;
    let (mut repeated, mut thrown) = (0, 0);
    let dense = 1 + r.below(4);
    let mut add = |r: &mut Rng, v: &mut Vec<u8>, set: &Vec<(Vec<u8>, u32)>, touched: u32, page: bool| {
        if !r.chance(1, dense) { return; }
        for _ in 0..1 + r.below(3) {
            match r.below(6) {
                0 if !page && r.chance(1, 4) => { v.extend(b"\x1bS"); o.add("standard_mode_selected_again", 1) }
                0 => { v.extend(*r.pick(IDLE)); o.add("idle_commands_added", 1) }
                1 | 2 => {
                    let c = *r.pick(POWER_ON);
                    let i = &grammar::split(c)[0];
                    if sets(c, i).map(|k| k & touched == 0).unwrap_or(false) { v.extend(c); o.add("power_on_settings_added", 1); o.state(fnv(&c[..2], 1)) }
                }
                _ if !set.is_empty() => { let c = &r.pick(set).0; v.extend(c); o.add("settings_repeated", 1); o.state(fnv(&c[..2], 2)) }
                _ => {}
            }
        }
    };
    for i in &items {
        let c = &b[i.start..i.end];
        match i.kind {
            Kind::Unknown => { v.extend(c); continue }
            Kind::Text => {
                ended = false;
                // after a blank: a word, with the blank that ends it, may be broken where a command parts it
                if r.chance(1, 2) && c.len() > 1 {
                    let k = 1 + r.below(c.len() - 1);
                    if c[k - 1] < 0x80 && c[k] < 0x80 && c[k - 1] == b' ' { v.extend(&c[..k]); add(r, &mut v, &set, touched, page); v.extend(&c[k..]); continue }
                }
                v.extend(c);
            }
            Kind::Cmd => {
                v.extend(c);
                // areas and directions end the open line and, in page mode, move the position: repeated at once and outside it
                if !page && i.end < b.len() && matches!(i.opcode(b), b"\x1bT" | b"\x1bW") && r.chance(1, 2) { v.extend(c); repeated += 1 }
                match i.opcode(b) { b"\x1bL" => page = true, b"\x1bS" | b"\x0c" | b"\x1b@" => page = false, _ => {} }
                if i.opcode(b) == b"\x1b@" { set.clear(); touched = 0 }
                else if let Some(k) = sets(b, i) {
                    set.retain(|s| s.1 & k == 0);
                    touched |= k;
                    // complete commands only
                    if i.end < b.len() || i.opcode(b) == b"\x1b2" { set.push((c.to_vec(), k)) }
                }
            }
        }
        ended = match i.kind {
            Kind::Cmd => i.opcode(b) == b"\n" || ended && (sets(b, i).is_some() || i.opcode(b) == b"\x1b$"),
            _ => false,
        };
        if ended && !page && i.end < b.len() && r.chance(1, 8) {
            // a page that is not printed
            v.extend(b"\x1bL");
            if r.chance(1, 2) { v.extend(b"gone"); if r.chance(1, 2) { v.push(b'\n') } }
            v.extend(b"\x1bS");
            thrown += 1;
        }
        if i.end < b.len() { add(r, &mut v, &set, touched, page) }
    }
    o.add("pages_thrown_away", thrown);
    o.add("page_settings_repeated", repeated);
    v
}

fn style(s: &Span) -> Span { Span { text: String::new(), dim: None, ..s.clone() } }
/// The log without the traces of settings: spans joined where nothing changes between them.
fn seen(ev: &[Ev]) -> Vec<Ev> {
    let mut v: Vec<Ev> = vec![];
    let mut at = 0;
    while at < ev.len() {
        let e = &ev[at];
        at += 1;
        match e {
            Ev::Device(_) => {}
            // pages with nothing but text that are not printed
            Ev::PageBegin if ev[at..].iter().find(|e| !matches!(e, Ev::PageArea { .. } | Ev::Device(_) | Ev::Text { .. })) == Some(&Ev::PageEnd) => {
                while ev[at - 1] != Ev::PageEnd { at += 1 }
            }
            Ev::Text { spans, x_offset, max_height, justify, page } => {
                let mut j: Vec<Span> = vec![];
                for s in spans {
                    if let Some(l) = j.last_mut() {
                        if style(l) == style(s) {
                            if let (Some(a), Some(b)) = (l.dim, s.dim) {
                                if a.0 + a.2 == b.0 && a.1 == b.1 && a.3 == b.3 { l.text.push_str(&s.text); l.dim = Some((a.0, a.1, a.2 + b.2, a.3)); continue }
                            }
                        }
                    }
                    j.push(s.clone());
                }
                v.push(Ev::Text { spans: j, x_offset: *x_offset, max_height: *max_height, justify: justify.clone(), page: *page });
            }
            e => v.push(e.clone()),
        }
    }
    v
}

pub fn eval26(c: &Case) -> Verdict {
    let b = &c.data[0];
    let mut o = Obs::default();
    let mut r = Rng::new(fnv(&c.data[1], 26));
    let w = with_idle(&mut r, b, &mut o);
    if w == *b { o.trivial = true; return Ok(o); }
    let job = || format!("\njob: {}\nwith commands that change nothing: {}", show(b), show(&w));
    let (x, y) = (rec::record(b), rec::record(&w));
    let (p, q) = (seen(&x.log.ev), seen(&y.log.ev));
    for (i, (g, w)) in q.iter().zip(&p).enumerate() {
        if g != w { return Err(format!("event {} is {}, without them it is {}{}", i, short(g), short(w), job())); }
    }
    if p.len() != q.len() { return Err(format!("{} events, {} without them{}", q.len(), p.len(), job())); }
    if x.errors != y.errors { return Err(format!("errors {:?}, without them {:?}{}", y.errors, x.errors, job())); }
    o.add("events_compared", p.len() as u64);
    if c.family.starts_with("e2e") && e2e::small(&x.log) {
        let (i, j) = (rec::image_of(b, None), rec::image_of(&w, None));
        if i.output.len() != j.output.len() { return Err(format!("{} images, {} without them{}", j.output.len(), i.output.len(), job())); }
        for (k, (g, w)) in j.output.iter().zip(&i.output).enumerate() {
            if (g.width, g.height) != (w.width, w.height) || g.bytes != w.bytes { return Err(format!("image {} of {}x{} is another than without them, {}x{}{}", k, g.width, g.height, w.width, w.height, job())); }
        }
        o.add("images_compared", i.output.len() as u64);
    }
    Ok(o)
}

pub fn run26(x: &mut Ctx) {
    let seedling = |r: &mut Rng| r.bytes(4);
    let n = x.n(8_000, 500_000);
    x.family("jobs", n, |r, _| { let mut c = swarm(r, &Cfg { img: 32, ..Cfg::all() }); c.hostile = r.chance(1, 4); c.unknown = r.below(2); let k = 1 + r.below(40); let b = job(r, &c, k); Some(Case::new("jobs", vec![b, seedling(r)])) });
    let n = x.n(3_000, 200_000);
    x.family("settings", n, |r, _| { let mut b = super::meta::settings(r); b.extend(exhibit(r)); Some(Case::new("settings", vec![b, seedling(r)])) });
    let n = x.n(1_200, 80_000);
    x.family("e2e-jobs", n, |r, _| { let c = swarm(r, &Cfg { img: 32, ..Cfg::all() }); let k = 1 + r.below(25); let b = job(r, &c, k); Some(Case::new("e2e-jobs", vec![b, seedling(r)])) });
    let n = x.n(400, 30_000);
    let s = samples::all();
    x.family("e2e-samples", n, |r, i| { let b = s[i % s.len()].clone(); if b.len() > 60_000 { return None; } Some(Case::new("e2e-samples", vec![b, seedling(r)])) });
    let n = if x.thorough { 6_000 } else { 200 };
    x.family("large", n, |r, i| { let cap = *r.pick(&[12_000usize, 3_000, 40_000]); let b = crate::bulk::large(r, i, cap); Some(Case::new("large", vec![b, seedling(r)])) });
}
