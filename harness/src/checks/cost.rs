//! C20: time and memory of the real code at n and at 16 n.
use crate::core::*;
use crate::gen::*;
use crate::rec;
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use thermal_renderer::renderer::{DebugProfile, Renderer};

// ---------- counting allocator ----------
pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}
#[inline]
fn count(add: i64) {
    let _ = LIVE.try_with(|l| {
        let n = l.get() + add;
        l.set(n);
        if add > 0 {
            let _ = PEAK.try_with(|p| if n > p.get() { p.set(n) });
            let _ = TOTAL.try_with(|t| t.set(t.get() + add as u64));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { count(l.size() as i64); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { count(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { count(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { count(-(l.size() as i64)); count(n as i64); System.realloc(p, l, n) }
}

#[repr(C)]
struct Timespec { s: i64, n: i64 }
extern "C" { fn clock_gettime(c: i32, t: *mut Timespec) -> i32; }
/// CPU time of this thread in microseconds.
fn cpu() -> f64 { let mut t = Timespec { s: 0, n: 0 }; unsafe { clock_gettime(3, &mut t); } t.s as f64 * 1e6 + t.n as f64 / 1e3 }

#[derive(Clone, Copy, Debug)]
pub struct Cost { pub us: f64, pub peak: f64, pub total: f64 }

/// A renderer used before keeps its buffers: the scaling families measure with new ones.
fn stage(s: &str, b: &[u8], new: bool) -> Cost {
    let mut fresh = if new && matches!(s, "image" | "html") { Some(rec::Pixels::new()) } else { None };
    let text = if s == "compile" { String::from_utf8_lossy(b).into_owned() } else { String::new() };
    let v = b.to_vec();
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    let total = TOTAL.with(|t| t.get());
    let t = cpu();
    match s {
        "parse" => { std::hint::black_box(thermal_parser::parse_esc_pos(&v)); }
        "layout" => { std::hint::black_box(rec::count_only(&v)); }
        "image" => { std::hint::black_box(match fresh.as_mut() { Some(p) => Renderer::new(&mut p.image, DebugProfile::default()).render(&v), None => rec::image_of(&v, None) }); }
        "html" => { std::hint::black_box(match fresh.as_mut() { Some(p) => Renderer::new(&mut p.html, DebugProfile::default()).render(&v), None => rec::html_of(&v, None) }); }
        "to-thermal" => { std::hint::black_box(thermal_parser::thermal_file::cmds_to_thermal(&thermal_parser::parse_esc_pos(&v))); }
        _ => { std::hint::black_box(thermal_parser::thermal_file::parse_str(&text)); }
    }
    Cost { us: cpu() - t, peak: (PEAK.with(|p| p.get()) - live) as f64, total: (TOTAL.with(|t| t.get()) - total) as f64 }
}
const STAGES: [&str; 5] = ["parse", "layout", "image", "html", "to-thermal"];
pub const K: usize = 16;

/// The job of a family at size n.
fn build(f: &str, c: &Case, n: usize) -> Vec<u8> {
    let kind = f.split('!').nth(1).unwrap_or("");
    let mut v = vec![];
    match kind {
        "two" => { v.extend(&c.data[0]); for _ in 0..n { v.extend(&c.data[1]); } for _ in 0..n { v.extend(&c.data[2]); } v.extend(b"\n"); }
        "repeat" | "source" => { v.extend(&c.data[0]); for _ in 0..n { v.extend(&c.data[1]); } v.extend(&c.data[2]); }
        "raster-rows" => { let w = 1 + c.data[0][0] as usize % 72; v.extend(b"\x1dv0"); v.push(c.data[0][1] % 4); v.extend(u16le(w)); v.extend(u16le(n * 16)); for i in 0..w * n * 16 { v.push((i * 37 % 251) as u8) } v.push(LF) }
        "column" => { let w = n * 16; v.extend(b"\x1b*\x21"); v.extend(u16le(w)); for i in 0..w * 3 { v.push((i * 37 % 251) as u8) } v.push(LF) }
        "large" => { let (w, h) = (400, n * 16); let mut d = vec![48, 1, 1, 49]; d.extend(u16le(w)); d.extend(u16le(h)); for i in 0..w / 8 * h { d.push((i * 37 % 251) as u8) } gs_l(true, 48, 112, &d, &mut v); gs_l(false, 48, 50, &[], &mut v) }
        "large-scaled" => { let (w, h) = (200, n * 16); let mut d = vec![48, 2, 2, 49]; d.extend(u16le(w)); d.extend(u16le(h)); for i in 0..w / 8 * h { d.push((i * 37 % 251) as u8) } gs_l(true, 48, 112, &d, &mut v); gs_l(false, 48, 50, &[], &mut v) }
        "define" => { let (w, h) = (200, n * 16); let mut d = vec![48, b'A', b'0', 1]; d.extend(u16le(w)); d.extend(u16le(h)); d.push(49); for i in 0..w / 8 * h { d.push((i * 37 % 251) as u8) } gs_l(true, 48, 83, &d, &mut v); gs_l(false, 48, 85, b"A0\x01\x01", &mut v) }
        "define-column" => { let (w, h) = (n * 16, 200); let mut d = vec![48, b'A', b'0', 1]; d.extend(u16le(w)); d.extend(u16le(h)); d.push(49); for i in 0..w * (h / 8) { d.push((i * 37 % 251) as u8) } gs_l(true, 48, 84, &d, &mut v); gs_l(false, 48, 85, b"A0\x01\x01", &mut v) }
        "many-keys" => { for i in 0..n { let mut d = vec![48, 32 + (i % 95) as u8, 32 + (i / 95 % 95) as u8, 1, 8, 0, 8, 0, 49]; d.extend([i as u8; 8]); gs_l(false, 48, 83, &d, &mut v); } for i in 0..n { gs_l(false, 48, 85, &[32 + (i % 95) as u8, 32 + (i / 95 % 95) as u8, 1, 1], &mut v); v.push(LF) } }
        "layers" => { for _ in 0..n { let mut d = vec![48, 1, 1, 49, 64, 0, 8, 0]; d.extend([0x5a; 64]); gs_l(false, 48, 112, &d, &mut v); } gs_l(false, 48, 50, &[], &mut v) }
        "qr-big" => { let d: Vec<u8> = (0..n * 8).map(|i| b'a' + (i % 26) as u8).collect(); gs_k(49, 65, &[50, 0], &mut v); gs_k(49, 67, &[3], &mut v); qr_store(&d, &mut v); gs_k(49, 81, &[48], &mut v) }
        "barcode-long" => { let d = digits_of(n); for _ in 0..8 { barcode_cmd(if c.data[0][0] % 2 == 0 { 5 } else { 4 }, true, &d, &mut v) } v.push(LF) }
        "page-height" => { v.extend(b"\x1bL\x1bW\x00\x00\x00\x00\x40\x02"); v.extend(u16le(n * 64)); v.extend([ESC, b'T', c.data[0][0] % 4]); v.extend(b"text on a page\n"); v.push(FF) }
        "page-lines" => { v.extend(b"\x1bL\x1bW\x00\x00\x00\x00\x40\x02"); v.extend(u16le(n * 34)); for _ in 0..n { v.extend(b"text on a page, one line of many\n"); } v.push(FF) }
        "page-print" => { v.extend(b"\x1bL\x1bW\x00\x00\x00\x00\x40\x02\x80\x00text"); for _ in 0..n { v.extend(b"\x1b\x0c"); } v.push(FF) }
        "truncated" => { v.extend(&c.data[0]); v.extend((n as u32 * 64).to_le_bytes()); for i in 0..n * 64 { v.push((i * 37 % 251) as u8) } }
        _ => panic!("no family {}", kind),
    }
    v
}
fn digits_of(n: usize) -> Vec<u8> { (0..n.clamp(2, 250) / 2 * 2).map(|i| b'0' + (i * 7 % 10) as u8).collect() }

/// Cheapest of some rounds.
fn best(s: &str, b: &[u8], rounds: usize, new: bool) -> Cost {
    let mut c = stage(s, b, new);
    for _ in 1..rounds { let d = stage(s, b, new); c.us = c.us.min(d.us); c.peak = c.peak.min(d.peak); c.total = c.total.min(d.total); }
    c
}

pub fn eval20(c: &Case) -> Verdict {
    let mut o = Obs::default();
    let f = c.family.as_str();
    if f.starts_with("short!") {
        // one short command: bounded by the paper and pages it asks for
        let b = &c.data[0];
        let log = rec::count_only(b);
        let px = (log.paper.min(1 << 32) as f64 + 64.0) * 640.0 + log.page_px as f64 * (2.0 + log.pages as f64);
        if px > 4e7 { o.trivial = true; o.add("asks_for_much_paper", 1); return Ok(o); }
        for s in STAGES {
            let limit = |x: Cost| -> Option<String> {
                if x.us > 150_000.0 + px * 0.25 { return Some(format!("{:.0} ms", x.us / 1000.0)); }
                if x.peak > 8e6 + px * 40.0 { return Some(format!("{:.0} MB at once", x.peak / 1e6)); }
                if x.total > 3e7 + px * 100.0 { return Some(format!("{:.0} MB in all", x.total / 1e6)); }
                None
            };
            stage(s, b"warm\n", false);
            let mut x = stage(s, b, false);
            if limit(x).is_some() { x = best(s, b, 3, false); }
            if let Some(e) = limit(x) { return Err(format!("{} takes {} for {} dots of paper and page\njob of {} bytes: {}", s, e, px as u64, b.len(), show(b))); }
            o.add("stages_measured", 1);
            o.state(fnv(s.as_bytes(), (x.total as u64).max(1).ilog2() as u64));
        }
        return Ok(o);
    }
    let n = u16::from_le_bytes([c.data.last().unwrap()[0], c.data.last().unwrap()[1]]) as usize;
    let (small, big) = (build(f, c, n), build(f, c, n * K));
    let stages: &[&str] = if f.contains("source") { &["compile"] } else { &STAGES };
    // paper and pages that the larger job asks for beyond its size
    let px = |b: &[u8]| { let e = rec::count_only(b); (e.paper as f64 + 64.0) * 640.0 + e.page_px as f64 * (2.0 + e.pages as f64) };
    let extra = if f.contains("source") { 0.0 } else { (px(&big) - K as f64 * px(&small)).max(0.0) };
    if extra > 1e8 { o.trivial = true; o.add("asks_for_much_paper", 1); return Ok(o); }
    for s in stages {
        stage(s, b"warm\n", false);
        let (mut x, mut y) = (best(s, &small, 2, true), stage(s, &big, true));
        // what a fixed overhead hides is not judged
        let slow = |x: Cost, y: Cost| y.us > 30_000.0 && y.us > 3.0 * K as f64 * (x.us + 200.0) + extra * 0.3;
        let fat = |x: Cost, y: Cost| y.peak > 4e6 && y.peak > 2.0 * K as f64 * (x.peak + 20_000.0) + extra * 60.0;
        let churn = |x: Cost, y: Cost| y.total > 2e7 && y.total > 2.0 * K as f64 * (x.total + 50_000.0) + extra * 150.0;
        if slow(x, y) { x = best(s, &small, 9, true); y = best(s, &big, 4, true); }
        let what = |k: &str, a: f64, b: f64| format!("{}: a job {} times as large ({} bytes instead of {}) takes {:.1} times the {}: {:.1} instead of {:.1}\n{}", s, K, big.len(), small.len(), b / a, k, b, a, c.data.iter().map(|d| show(d)).collect::<Vec<_>>().join(" || "));
        if slow(x, y) { return Err(what("time (ms)", x.us / 1e3, y.us / 1e3)); }
        if fat(x, y) { return Err(what("memory at once (kB)", x.peak / 1e3, y.peak / 1e3)); }
        if churn(x, y) { return Err(what("memory in all (kB)", x.total / 1e3, y.total / 1e3)); }
        if std::env::var("VH_COST").is_ok() { eprintln!("{} {}: n={} bytes {} -> {}; ms {:.2} -> {:.2} ({:.2}); peak kB {:.0} -> {:.0} ({:.2}); total kB {:.0} -> {:.0} ({:.2})", f, s, n, small.len(), big.len(), x.us / 1e3, y.us / 1e3, y.us / x.us / K as f64, x.peak / 1e3, y.peak / 1e3, y.peak / x.peak / K as f64, x.total / 1e3, y.total / 1e3, y.total / x.total / K as f64); }
        o.add("scalings_measured", 1);
        o.add("cpu_ms_observed", (y.us / 1e3) as u64);
        o.state(fnv(f.as_bytes(), fnv(s.as_bytes(), (y.total as u64).max(1).ilog2() as u64)));
    }
    Ok(o)
}

pub fn run20(x: &mut Ctx) {
    // (name, before, repeated, after, n)
    let l: Vec<(&str, &[u8], &[u8], &[u8], usize)> = vec![
        ("words", b"", b"word and more ", b"\n", 400), ("one-word", b"", b"abcdefghij", b"\n", 400), ("spaces", b"", b"          ", b"\n", 400), ("tabs", b"", b"\t", b"\n", 2000),
        ("lines", b"", b"a line of text\n", b"", 100), ("empty-lines", b"", b"\n", b"", 400), ("cr", b"", b"x\r", b"\n", 400),
        ("styles", b"", b"\x1bE\x01b\x1bE\x00n", b"\n", 300), ("styles-words", b"", b"\x1b-\x01ab \x1b-\x00cd ", b"\n", 300), ("settings", b"", b"\x1b!\x38\x1d!\x11\x1ba\x01\x1bt\x02\x1bR\x03", b"x\n", 800),
        ("wide", b"\x1d!\x77", b"W ", b"\n", 60), ("moves", b"", b"\x1b$\x10\x00x\x1b\\\x05\x00", b"\n", 400), ("overprint", b"", b"\x1b$\x00\x00mmmmmmmmmm", b"\n", 300),
        ("utf8", b"\x1bt\xff", b"\xe2\x82\xac\xc3\xa9\xff ", b"\n", 400), ("cp", b"\x1bt\x10", b"\xe9\xa4\x80\x9f ", b"\n", 400),
        ("feed", b"", b"\x1bJ\xff", b"", 4), ("feed-lines", b"", b"\x1bd\x08", b"", 4), ("feed-back", b"\x1bJ\xff\x1bJ\xff", b"\x1bK\x10x\n", b"", 200), ("cuts", b"", b"\x1dV\x00", b"", 300), ("cut-feeds", b"x", b"\x1dVA\x10", b"", 60),
        ("ff", b"", b"x\x0c", b"", 40), ("init", b"", b"\x1b@", b"x\n", 1500), ("init-text", b"", b"\x1b@x\n", b"", 60),
        ("unknown", b"", b"\x1b\x01", b"\n", 1500), ("unknown-long", b"", b"\x1b\x01abcdefgh", b"\n", 800), ("esc", b"", b"\x1b", b"", 4000), ("gs", b"", b"\x1d", b"", 4000), ("fs", b"", b"\x1c", b"", 4000), ("dle", b"", b"\x10", b"", 4000), ("can", b"", b"\x18", b"", 2000), ("nul", b"", b"\x00", b"", 4000), ("gs-paren", b"", b"\x1d(", b"", 3000), ("gs-paren-q", b"", b"\x1d(Q\x00\x00", b"", 1500),
        ("sub-unknown", b"", b"\x1d(k\x03\x00\x09\x09\x09", b"", 600), ("raster-small", b"", b"\x1dv0\x00\x01\x00\x08\x00\xaa\x55\xaa\x55\xaa\x55\xaa\x55", b"", 60), ("column-small", b"", b"\x1b*\x00\x04\x00\xaa\x55\xaa\x55", b"\n", 200), ("column-lines", b"", b"\x1b*\x21\x02\x00\xaa\x55\xaa\x55\xaa\x55\n", b"", 40),
        ("raster-bad", b"", b"\x1dv0\x00\x00\x00\x00\x00", b"", 800), ("buffer-print", b"", b"\x1d(L\x0b\x00\x30\x70\x30\x01\x01\x31\x08\x00\x01\x00\xff\x1d(L\x02\x00\x30\x32", b"", 150), ("buffer-empty", b"", b"\x1d(L\x02\x00\x30\x32", b"", 1000),
        ("redefine", b"", b"\x1d(L\x0c\x00\x30\x53\x30A0\x01\x08\x00\x01\x001\xff", b"", 500), ("print-key", b"\x1d(L\x0c\x00\x30\x53\x30A0\x01\x08\x00\x01\x001\xff", b"\x1d(L\x06\x000UA0\x01\x01", b"", 300), ("print-missing", b"", b"\x1d(L\x06\x000UZZ\x01\x01", b"", 800), ("delete", b"", b"\x1d(L\x04\x000RA0", b"", 800),
        ("barcode39", b"", b"\x1dkE\x04AB12", b"\n", 12), ("barcode128", b"", b"\x1dkI\x08{BAB12{C\x0c", b"\n", 12), ("ean", b"\x1dH\x02", b"\x1dkC\x0c590123412345", b"\n", 12), ("barcode-bad", b"", b"\x1dkC\x03abc", b"\n", 800), ("barcode-a", b"", b"\x1dk\x04AB12\x00", b"", 12),
        ("qr", b"\x1d(k\x0a\x001P0payload", b"\x1d(k\x03\x001Q0", b"", 8), ("qr-store", b"", b"\x1d(k\x0a\x001P0payload", b"\x1d(k\x03\x001Q0", 60), ("qr-empty", b"", b"\x1d(k\x03\x001Q0", b"", 600), ("qr-size", b"", b"\x1d(k\x03\x001C\x04\x1d(k\x03\x001E1", b"", 800),
        ("pages", b"", b"\x1bL\x1bW\x00\x00\x00\x00\x40\x01\x40\x00page\x0c", b"", 20), ("page-text", b"\x1bL\x1bW\x00\x00\x00\x00\x40\x02\x00\x02", b"text ", b"\x0c", 400), ("page-areas", b"\x1bL", b"\x1bW\x00\x00\x00\x00\x40\x01\x40\x00", b"x\x0c", 100), ("page-turns", b"\x1bL\x1bW\x00\x00\x00\x00\x80\x00\x80\x00", b"\x1bT\x01a\x1bT\x00b", b"\x0c", 60), ("page-left", b"", b"\x1bL\x1bW\x00\x00\x00\x00\x40\x01\x40\x00x\x1bS", b"", 60), ("page-cancel", b"\x1bL", b"text\x18", b"\x0c", 200), ("page-moves", b"\x1bL", b"\x1d$\x10\x00x\x1d\\\x01\x00", b"\x0c", 200),
        ("tab-stops", b"", b"\x1bD\x08\x10\x18\x20\x00\ta\t", b"\n", 300), ("margins", b"", b"\x1dL\x05\x00\x1dW\x00\x02x\n", b"", 60), ("density", b"", b"\x1d(E\x00\x00", b"", 1000), ("realtime", b"", b"\x10\x04\x01", b"", 1000), ("pulse", b"", b"\x1bp\x00\x10\x10", b"", 1000), ("status", b"", b"\x1dI\x01\x1da\x01\x1dr\x01", b"", 500),
    ];
    let reps = x.n(2, 12);
    let n = l.len() * reps;
    x.family("scale!repeat", n, |_, i| {
        let e = &l[i % l.len()];
        let n = e.4 * [4, 1, 8, 2, 6, 3, 12, 1, 16, 5, 10, 7][i / l.len() % 12] / 2;
        Some(Case::new("scale!repeat", vec![e.1.to_vec(), e.2.to_vec(), e.3.to_vec(), u16le(n.max(1)).to_vec()]))
    });
    for (k, n0) in [("raster-rows", 8), ("column", 8), ("large", 8), ("large-scaled", 4), ("define", 8), ("define-column", 6), ("many-keys", 60), ("layers", 100), ("qr-big", 8), ("barcode-long", 6), ("page-height", 6), ("page-lines", 4), ("page-print", 3)] {
        let name = format!("scale!{}", k);
        let m = x.n(3, 40);
        x.family(&name, m, |r, i| Some(Case::new(&name, vec![r.bytes(4), u16le((n0 * [1, 2, 4][i % 3]) as usize).to_vec()])));
    }
    let heads: Vec<&[u8]> = vec![b"\x1d8L", b"\x1d(k", b"\x1d(L", b"\x1dv0\x00\x48\x00", b"\x1b*\x21", b"\x1dkI\xff", b"\x1d(N", b"\x1b&\x03", b"\x1cq"];
    let m = heads.len() * x.n(1, 6);
    x.family("scale!truncated", m, |_, i| Some(Case::new("scale!truncated", vec![heads[i % heads.len()].to_vec(), u16le(30 + 20 * (i / heads.len())).to_vec()])));
    // random pieces of jobs, over and over
    let m = x.n(48, 3_000);
    x.family("scale!repeat", m, |r, _| {
        let mut c = swarm(r, &Cfg { img: 16, ..Cfg::all() });
        c.hostile = r.chance(1, 4);
        c.unknown = r.below(2);
        let k = 1 + r.below(8);
        let mut u = job(r, &c, k);
        match r.below(4) { 0 => u.push(LF), 1 => u.push(FF), 2 => u.extend(b"\x1b@"), _ => {} }
        if u.len() > 600 { return None; }
        let n = 1 + r.below(4);
        // what a repetition asks for has to be the same each time
        let log = |m: usize| { let mut v = vec![]; for _ in 0..m { v.extend(&u); } let l = rec::count_only(&v); (l.paper + 50, l.page_px + 1000) };
        let (a, b) = (log(n), log(n * K));
        if b.0 > a.0 * 24 || b.1 > a.1 * 2 || b.0 > 40_000 || b.1 > 2_000_000 { return None; }
        Some(Case::new("scale!repeat", vec![vec![], u, vec![], u16le(n).to_vec()]))
    });
    // one thing many times, then another many times
    let m = x.n(160, 6_000);
    x.family("scale!two", m, |r, _| {
        let (a, b) = (&l[r.below(l.len())], &l[r.below(l.len())]);
        let n = (a.4.min(b.4) * (1 + r.below(3))).clamp(4, 1500);
        let mut u = a.2.to_vec();
        if r.chance(1, 3) { u.extend(a.3); }
        Some(Case::new("scale!two", vec![[a.1, b.1].concat(), u, b.2.to_vec(), u16le(n).to_vec()]))
    });
    // sources
    let s: Vec<(&[u8], &[u8], &[u8], usize)> = vec![(b"", b"ESC \"E\" 1\n", b"", 300), (b"", b"ESC 0x45 'text' 65 ", b"\n", 300), (b"\"", b"text\\\"more\\n", b"\"", 400), (b"'", b"a", b"'", 4000), (b"", b"// comment line\n", b"", 400), (b"// ", b"comment ", b"\n", 600), (b"", b"\n", b"", 5000), (b"", b" ", b"", 5000), (b"", b"word", b"", 2000), (b"", b"\"", b"", 2000), (b"", b"\\", b"", 2000), (b"\"", b"\\", b"\"", 2000), (b"", b"\"open\n", b"", 400), (b"", b"\xe2\x82\xac ", b"\n", 600), (b"", b"0x1B ", b"\n", 1000), (b"", b"255\t", b"\r\n", 1000), (b"", b"'a' \"b\" 'c\n", b"", 500)];
    let m = s.len() * x.n(2, 8);
    x.family("scale!source", m, |_, i| { let e = &s[i % s.len()]; let n = (e.3 * [4, 10, 1, 2, 3, 5, 7, 8][i / s.len() % 8]).min(4000); Some(Case::new("scale!source", vec![e.0.to_vec(), e.1.to_vec(), e.2.to_vec(), u16le(n).to_vec()])) });
    // every opcode with the largest and other parameters
    let m = 256 * 3 * x.n(2, 12);
    x.family("short!", m, |r, i| {
        let mut v = match r.below(5) { 0 => b"\x1bL".to_vec(), 1 => b"\x1bL\x1bW\x00\x00\x00\x00\x40\x02\x00\x04".to_vec(), 2 => b"\x1d!\x77\x1b3\xff".to_vec(), 3 => b"\x1d(k\x08\x001P0dataX\x1dh\xff\x1dw\x06".to_vec(), _ => vec![] };
        v.extend([[ESC, GS, FS][i / 256 % 3], (i % 256) as u8]);
        let k = r.below(14);
        for _ in 0..k { let b = match r.below(4) { 0 => 255, 1 => r.byte(), 2 => param(r), _ => 0x30 + r.below(60) as u8 }; v.push(b); }
        if r.chance(1, 2) { v.extend(b"A\n"); }
        if r.chance(1, 3) { v.push(FF); }
        Some(Case::one("short!", v))
    });
    let m = x.n(600, 40_000);
    x.family("short!any", m, |r, _| {
        let mut c = swarm(r, &Cfg::all());
        c.hostile = true;
        let k = 1 + r.below(5);
        let mut v = job(r, &c, k);
        v.truncate(400);
        Some(Case::one("short!any", v))
    });
    let _: Option<Rng> = None;
}
