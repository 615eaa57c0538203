//! C01 totality: every input returns normally from every entry point.
use crate::core::*;
use crate::gen::*;
use crate::grammar::{CUSTOM, FIXED};
use crate::rec::*;
use crate::samples;
use thermal_renderer::renderer::DebugProfile;

/// Paper rows and page dots up to which the pixel renderers are run (memory guard).
const MAX_ROWS: u64 = 40_000;
const MAX_PAGE: u64 = 24_000_000;

pub fn eval(c: &Case) -> Verdict {
    let mut o = Obs::default();
    if c.family.starts_with("thermal") {
        let t = String::from_utf8_lossy(&c.data[0]).to_string();
        let b = thermal_parser::thermal_file::parse_str(&t);
        for l in t.lines() { thermal_parser::thermal_file::parse_tokens(l); }
        o.add("thermal_bytes_out", b.len() as u64);
        return Ok(o);
    }
    let bytes = &c.data[0];
    let cmds = thermal_parser::parse_esc_pos(bytes);
    o.add("commands_parsed", cmds.len() as u64);
    let ctx = thermal_parser::context::Context::new();
    for k in &cmds {
        k.handler.debug(k, &ctx);
        k.handler.get_command_bytes(k);
        o.state(fnv(k.name.as_bytes(), k.data.len().min(12) as u64));
    }
    let t = thermal_parser::thermal_file::cmds_to_thermal(&cmds);
    thermal_parser::thermal_file::parse_str(&t);
    let r = record(bytes);
    o.add("layout_events", r.log.ev.len() as u64);
    o.add("reported_errors", r.errors.len() as u64);
    if r.log.max_y <= (if c.family == "render-tall" { 150_000 } else { MAX_ROWS }) && r.log.page_px <= MAX_PAGE {
        let im = image_of(bytes, None);
        o.add("image_renders", 1);
        o.add("image_rows", im.output.iter().map(|i| i.height as u64).sum());
        let h = html_of(bytes, None);
        o.add("html_renders", 1);
        o.add("html_bytes", h.output.iter().map(|i| i.content.len() as u64).sum());
        if c.family.starts_with("debug") {
            let p = DebugProfile { text: true, image: true, page: true, info: true };
            image_of(bytes, Some(p));
            html_of(bytes, Some(p));
            o.add("debug_renders", 2);
        }
    } else {
        o.add("too_large_for_pixels", 1);
    }
    Ok(o)
}

pub fn run(x: &mut Ctx) {
    let n = if x.thorough { 240 } else { 12 };
    x.family("render-tall", n, |r, i| Some(Case::one("render-tall", super::drawn::tall(r, i))));
    let n = if x.thorough { 15_000 } else { 480 };
    x.family("render-large", n, |r, i| { let cap = *r.pick(&[140_000usize, 30_000, 7_000, 1_600]); Some(Case::one("render-large", crate::bulk::large(r, i, cap))) });
    let samples = samples::all();
    // systematic: every opcode x every value of each parameter position, between content, in both modes
    let ops: Vec<(&[u8], usize)> = FIXED.iter().map(|f| (f.0, f.1)).chain(CUSTOM.iter().map(|c| (*c, 4))).collect();
    let total = ops.len() * 256 * 2;
    let step = x.n(3, 1);
    x.family("render-param-sweep", total, |r, i| {
        if (i + i / 256) % step != 0 { return None; }
        let (op, n) = ops[i / 512];
        let val = (i % 256) as u8;
        let page = (i / 256) % 2 == 1;
        let mut v = vec![];
        if page { v.extend(b"\x1bL\x1bW\x00\x00\x00\x00\x60\x00\x40\x00\x1bT"); v.push(r.below(4) as u8); }
        v.extend(b"ab c");
        v.extend(op);
        if n > 0 {
            let at = r.below(n);
            for k in 0..n { v.push(if k == at { val } else { param(r) }); }
        } else { v.push(val); }
        v.extend(b"x\x0ay z");
        if r.chance(1, 3) { image(r, &mut v, &Cfg::all()); }
        v.push(LF);
        if page { v.push(FF); v.extend(b"tail\n"); }
        Some(Case::one("render-param-sweep", v))
    });
    let n = x.n(8_000, 1_500_000);
    x.family("render-job", n, |r, _| {
        let mut c = Cfg::all();
        c.unknown = 1;
        let c = swarm(r, &c);
        let k = 1 + r.below(30);
        Some(Case::one("render-job", job(r, &c, k)))
    });
    let n = x.n(8_000, 2_500_000);
    x.family("render-hostile", n, |r, _| {
        let mut c = Cfg::all();
        c.unknown = 1;
        c.hostile = true;
        c.page = 6;
        let c = swarm(r, &c);
        let k = 1 + r.below(25);
        let mut v = job(r, &c, k);
        // hostile feeds and positions
        if r.chance(1, 3) {
            let i = r.below(v.len() + 1);
            let e: Vec<u8> = match r.below(6) { 0 => vec![ESC, b'e', r.byte()], 1 => vec![ESC, b'$', r.byte(), r.byte()], 2 => vec![GS, b'$', r.byte(), r.byte()],
                3 => vec![GS, b'P', r.byte(), r.byte()], 4 => vec![GS, b'!', r.byte()], _ => vec![ESC, b'3', r.byte()] };
            for (t, b) in e.into_iter().enumerate() { v.insert(i + t, b); }
        }
        Some(Case::one("render-hostile", v))
    });
    let n = x.n(8_000, 3_000_000);
    let s2 = samples.clone();
    x.family("render-mutated", n, |r, _| {
        let mut v = if r.chance(1, 4) { let s = r.pick(&s2); let a = r.below(s.len()); let l = r.below(1500); s[a..(a + l).min(s.len())].to_vec() }
            else { let mut c = Cfg::all(); c.hostile = true; c.unknown = 1; let c = swarm(r, &c); let k = 1 + r.below(12); job(r, &c, k) };
        let o = r.pick(&s2).clone();
        mutate(r, &mut v, &o);
        v.truncate(6000);
        Some(Case::one("render-mutated", v))
    });
    let n = x.n(8_000, 2_000_000);
    x.family("render-noise", n, |r, _| { let k = 1 + r.below(120); Some(Case::one("render-noise", noise(r, k))) });
    // truncation points of valid jobs
    let n = x.n(4_000, 300_000);
    x.family("render-truncated", n, |r, _| {
        let mut c = swarm(r, &Cfg::all());
        c.img = 24;
        let k = 1 + r.below(6);
        let mut v = job(r, &c, k);
        let i = r.below(v.len() + 1);
        v.truncate(i);
        Some(Case::one("render-truncated", v))
    });
    let n = x.n(800, 200_000);
    x.family("debug-job", n, |r, _| {
        let mut c = Cfg::all();
        c.hostile = r.chance(1, 2);
        c.unknown = 1;
        let c = swarm(r, &c);
        let k = 1 + r.below(20);
        Some(Case::one("debug-job", job(r, &c, k)))
    });
    // extremes: positions and sizes pushed as far as possible, then every kind of output
    let n = x.n(4_000, 200_000);
    x.family("render-extreme", n, |r, _| {
        let mut v = vec![];
        let reps = 1 + r.below(8);
        for _ in 0..reps {
            match r.below(12) {
                10 => { let z = *r.pick(&[0u8, 1, 16, 255]); for at in 0..32 { v.extend([ESC, b'D', if r.chance(1, 8) { r.byte() } else { z }, at]); } }
                11 => { for _ in 0..1 + r.below(40) { v.extend([ESC, b'D', *r.pick(&[255u8, 255, 8, 1]), r.below(34) as u8]); } }
                0 => v.extend([ESC, b'L']),
                1 => { v.extend([ESC, b'W']); for _ in 0..4 { let z = *r.pick(&[0usize, 1, 2, 50, 609, 649, 2000, 65535]); v.extend(u16le(z)); } }
                2 => v.extend([ESC, b'T', r.below(4) as u8]),
                3 => { let z = *r.pick(&[0usize, 1, 600, 608, 609, 610, 65535]); v.extend([ESC, b'$']); v.extend(u16le(z)); }
                4 => { let z = *r.pick(&[0usize, 1, 600, 609, 32767, 32768, 65535]); v.extend([GS, b'$']); v.extend(u16le(z)); }
                5 => { let z = *r.pick(&[0usize, 1, 600, 32767, 32768, 65535]); v.extend([GS, b'\\']); v.extend(u16le(z)); }
                6 => v.extend([GS, b'!', *r.pick(&[0x77u8, 0x70, 0x07, 0xff, 0x11])]),
                7 => v.extend([ESC, b'3', *r.pick(&[0u8, 1, 255])]),
                8 => { for _ in 0..1 + r.below(4) { v.extend([ESC, b'e', 255]); } }
                _ => v.extend([GS, b'P', *r.pick(&[1u8, 255, 0, 203]), *r.pick(&[1u8, 255, 0, 203])]),
            }
        }
        match r.below(6) {
            0 => { let t = text(r, false); v.extend(t) }
            1 => { let mut c = Cfg::all(); c.img = 700; image(r, &mut v, &c) }
            2 => { let d = barcode_data(r, 2); v.extend([GS, b'h', r.byte()]); barcode_cmd(2, true, &d, &mut v) }
            3 => { gs_k(49, 67, &[r.byte()], &mut v); qr_store(b"hello", &mut v); gs_k(49, 81, &[48], &mut v) }
            4 => { style(r, &mut v); let t = text(r, false); v.extend(t); v.push(LF) }
            _ => { for _ in 0..1 + r.below(3) { v.extend([HT, b'a']); } v.extend([HT, b'b', LF]) }
        }
        if r.chance(1, 2) { v.push(FF); }
        if r.chance(1, 3) { v.extend(b"end\n"); }
        Some(Case::one("render-extreme", v))
    });
    // the same few moves over and over: positions and counters reach the end of their range
    let n = x.n(640, 20_000);
    x.family("render-accumulate", n, |r, _| {
        let mut v = vec![];
        if r.chance(1, 2) { v.extend([ESC, b'3', 255]); }
        if r.chance(1, 3) { v.extend([GS, b'!', *r.pick(&[0x77u8, 0x70, 0x07])]); }
        if r.chance(1, 6) { v.extend([GS, b'P', 1, 1]); }
        let page = r.chance(1, 2);
        if page {
            v.extend([ESC, b'L', ESC, b'W']);
            for _ in 0..4 { let d = *r.pick(&[0usize, 0, 1, 300, 608, 65535]); v.extend(u16le(d)); }
            v.extend([ESC, b'T', r.below(4) as u8]);
        }
        let mut unit = vec![];
        for _ in 0..1 + r.below(2) {
            match r.below(if page { 16 } else { 12 }) {
                0 => unit.extend([ESC, b'd', 255]),
                1 => unit.extend([ESC, b'J', 255]),
                2 => unit.extend([GS, b'V', 65, 255]),
                3 => unit.push(LF),
                4 => unit.extend([ESC, b'e', 255]),
                5 => unit.extend([b'x', HT]),
                6 => unit.extend(b"xxxxxxxx"),
                7 => { unit.extend([ESC, b'*', 33, 0, 0]); }
                8 => { unit.extend([ESC, b'*', 0, 1, 0, 255]); }
                9 => { unit.extend([ESC, b'$', 255, 255]); }
                10 => { unit.extend([GS, b'h', 255, GS, b'k', 2]); unit.extend(b"4006381333931\0"); }
                11 => { unit.extend([ESC, b'@']); }
                12 | 13 => { unit.extend([GS, b'\\', 255, 127]); }
                14 => unit.extend([ESC, FF]),
                _ => { unit.extend([GS, b'$', 255, 255]); }
            }
        }
        let mut reps = (1usize << (10 + r.below(8))).min(300_000 / unit.len());
        // every character, symbol and image costs painting time
        if unit.contains(&b'x') || unit.contains(&b'k') || unit.contains(&b'*') { reps = reps.min(2048); }
        for _ in 0..reps { v.extend(&unit); }
        v.extend(b"end");
        if r.chance(1, 2) { gs_k(49, 67, &[16], &mut v); qr_store(b"hello", &mut v); gs_k(49, 81, &[48], &mut v); }
        if r.chance(1, 2) { image(r, &mut v, &Cfg::all()); }
        if page && r.chance(2, 3) { v.extend([ESC, FF]); }
        if r.chance(1, 2) { v.push(FF); }
        v.extend(b"tail\n");
        Some(Case::one("render-accumulate", v))
    });
    let n = x.n(40_000, 2_000_000);
    x.family("thermal-source", n, |r, _| {
        let toks = ["ESC", "GS", "0x", "0xFF", "0xfg", "\"", "\\", "\\\"", "\"a b\"", "255", "256", "-1", "+1", "é", "漢", "\u{85}", "\u{2028}", "'//", " ", "\n", "\r\n", "\r", "\t", "x", "0x1F600", "\"\\", "😀"];
        let mut s = String::new();
        for _ in 0..r.below(30) { s.push_str(r.pick(&toks)); if r.chance(1, 3) { s.push(' ') } if r.chance(1, 10) { s.push(r.byte() as char) } }
        Some(Case::one("thermal-source", s.into_bytes()))
    });
}
