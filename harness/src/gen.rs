//! Workload generators: ESC/POS jobs built from commands.
use crate::rng::Rng;

pub const NUL: u8 = 0;
pub const HT: u8 = 9;
pub const LF: u8 = 10;
pub const FF: u8 = 12;
pub const CR: u8 = 13;
pub const DLE: u8 = 0x10;
pub const CAN: u8 = 0x18;
pub const ESC: u8 = 0x1b;
pub const FS: u8 = 0x1c;
pub const GS: u8 = 0x1d;

/// Bytes that never start a command: legal inside a text run.
pub fn is_text_byte(b: u8) -> bool {
    !matches!(b, HT | LF | FF | CR | DLE | CAN | ESC | FS | GS)
}

/// Relative weights of the command classes in a generated job.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub text: usize,
    pub lf: usize,
    pub tab: usize,
    pub cr: usize,
    pub style: usize,
    pub layout: usize,
    pub feed: usize,
    pub image: usize,
    pub store: usize,
    pub barcode: usize,
    pub qr: usize,
    pub page: usize,
    pub init: usize,
    pub noop: usize,
    pub unknown: usize,
    /// parameters may be out of range, data may be truncated or inconsistent
    pub hostile: bool,
    /// text bytes restricted to printable ASCII
    pub ascii: bool,
    /// maximum image side in dots
    pub img: usize,
}
impl Cfg {
    pub fn zero() -> Cfg {
        Cfg { text: 0, lf: 0, tab: 0, cr: 0, style: 0, layout: 0, feed: 0, image: 0, store: 0, barcode: 0, qr: 0, page: 0,
            init: 0, noop: 0, unknown: 0, hostile: false, ascii: false, img: 64 }
    }
    pub fn all() -> Cfg {
        Cfg { text: 12, lf: 8, tab: 2, cr: 1, style: 12, layout: 6, feed: 2, image: 4, store: 4, barcode: 3, qr: 2, page: 4,
            init: 1, noop: 2, unknown: 0, hostile: false, ascii: false, img: 64 }
    }
}

pub fn word(r: &mut Rng, ascii: bool, max: usize) -> Vec<u8> {
    let n = 1 + r.below(max.max(1));
    (0..n)
        .map(|_| {
            if ascii || r.chance(3, 4) {
                *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,:;-+*/#$%&()<>\"'\\=@[]^_`{|}~!?")
            } else {
                loop {
                    let b = r.byte();
                    if is_text_byte(b) && b != b' ' { break b; }
                }
            }
        })
        .collect()
}

pub fn text(r: &mut Rng, ascii: bool) -> Vec<u8> {
    let mut v = vec![];
    let words = match r.below(10) { 0..=5 => 1 + r.below(3), 6..=8 => 3 + r.below(8), _ => 10 + r.below(20) };
    for i in 0..words {
        if i > 0 || r.chance(1, 5) { for _ in 0..(if r.chance(1, 8) { 1 + r.below(4) } else { 1 }) { v.push(b' '); } }
        let max = match r.below(12) { 0..=8 => 8, 9..=10 => 20, _ => 90 };
        v.extend(word(r, ascii, max));
    }
    if r.chance(1, 4) { v.push(b' '); }
    v
}

/// A parameter byte: documented small and ASCII-digit values are favoured.
pub fn param(r: &mut Rng) -> u8 {
    match r.below(10) {
        0..=3 => r.below(6) as u8,
        4..=6 => b'0' + r.below(5) as u8,
        7 => *r.pick(&[255u8, 254, 128, 127, 97, 98, 65, 66]),
        _ => r.byte(),
    }
}

pub fn u16le(n: usize) -> [u8; 2] { [(n & 255) as u8, ((n >> 8) & 255) as u8] }

pub fn style(r: &mut Rng, v: &mut Vec<u8>) {
    let n = param(r);
    match r.below(18) {
        0 => v.extend([ESC, b'E', n]),
        1 => v.extend([ESC, b'G', n]),
        2 => v.extend([ESC, b'4', n]),
        3 => v.extend([ESC, b'-', n]),
        4 => v.extend([ESC, b'{', n]),
        5 => v.extend([ESC, b'r', n]),
        6 => v.extend([GS, b'B', if r.chance(2, 3) { r.below(2) as u8 } else { n }]),
        7 | 8 => v.extend([GS, b'!', if r.chance(1, 2) { (r.below(8) * 16 + r.below(8)) as u8 } else if r.chance(1, 2) { (r.below(2) * 16 + r.below(2)) as u8 } else { r.byte() }]),
        9 | 10 => v.extend([ESC, b'!', r.byte()]),
        11 | 12 => v.extend([ESC, b'M', n]),
        13 => v.extend([ESC, b't', match r.below(5) { 0 => 255, 1..=3 => r.below(20) as u8, _ => r.byte() }]),
        14 => v.extend([ESC, b'R', match r.below(4) { 0..=1 => r.below(18) as u8, 2 => 66 + r.below(17) as u8, _ => r.byte() }]),
        15 => v.extend([GS, b'b', n]),
        _ => char_effect(r, v),
    }
}

pub fn char_effect(r: &mut Rng, v: &mut Vec<u8>) {
    let f = *r.pick(&[48u8, 48, 49, 49, 50]);
    let m = match r.below(4) { 0..=2 => 48 + r.below(4) as u8, _ => r.byte() };
    if f == 50 { v.extend([GS, b'(', b'N', 3, 0, f, m, param(r)]) } else { v.extend([GS, b'(', b'N', 2, 0, f, m]) }
}

pub fn layout(r: &mut Rng, v: &mut Vec<u8>) {
    match r.below(9) {
        0 => v.extend([ESC, b'3', match r.below(3) { 0 => r.byte(), _ => r.below(80) as u8 }]),
        1 => v.extend([ESC, b'2']),
        2 | 3 => v.extend([ESC, b'a', param(r)]),
        4 => for _ in 0..if r.chance(1, 5) { r.below(12) } else { 1 } { v.extend([ESC, b'D', if r.chance(1, 8) { r.byte() } else { r.below(20) as u8 }, r.below(34) as u8]) },
        5 | 6 => { let x = u16le(if r.chance(1, 8) { r.below(1200) } else { r.below(600) }); v.extend([ESC, b'$', x[0], x[1]]) }
        7 => v.extend([GS, b'P', *r.pick(&[0u8, 203, 203, 101, 50, 67, 180, 1, 2, 25]), *r.pick(&[0u8, 203, 203, 101, 50, 67, 180, 1, 2, 25])]),
        _ => dot_density(r, v),
    }
}
pub fn dot_density(r: &mut Rng, v: &mut Vec<u8>) {
    let d = 50 + r.below(2) as u8;
    v.extend([GS, b'(', b'L', 4, 0, 48, *r.pick(&[49u8, 1]), d, d]);
}

pub fn feed(r: &mut Rng, v: &mut Vec<u8>) {
    match r.below(7) {
        6 => v.extend([ESC, b'e', if r.chance(1, 6) { r.byte() } else { r.below(4) as u8 }]),
        0 | 1 => v.extend([ESC, b'd', if r.chance(1, 10) { r.byte() } else { r.below(6) as u8 }]),
        2 | 3 => v.extend([ESC, b'J', r.byte()]),
        _ => match r.below(3) {
            0 => v.extend([GS, b'V', *r.pick(&[0u8, 1, 48, 49])]),
            _ => v.extend([GS, b'V', *r.pick(&[65u8, 66, 97, 98, 103, 104]), r.byte()]),
        },
    }
}

pub fn raw_dots(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(6) {
        0 => vec![0xff; n],
        1 => vec![0; n],
        2 => (0..n).map(|i| if i % 2 == 0 { 0xaa } else { 0x55 }).collect(),
        _ => r.bytes(n),
    }
}

pub fn image(r: &mut Rng, v: &mut Vec<u8>, cfg: &Cfg) {
    if r.chance(1, 2) {
        let m = if cfg.hostile && r.chance(1, 5) { r.byte() } else { *r.pick(&[0u8, 1, 32, 33]) };
        let w = if cfg.hostile && r.chance(1, 20) { r.below(3000) } else if cfg.hostile { r.below(cfg.img + 1) } else { 1 + r.below(cfg.img.max(1)) };
        let per = if m == 32 || m == 33 { 3 } else { 1 };
        v.extend([ESC, b'*', m]);
        v.extend(u16le(w));
        let d = raw_dots(r, w * per);
        v.extend(d);
    } else {
        let m = if cfg.hostile { param(r) } else { *r.pick(&[0u8, 1, 2, 3, 48, 49, 50, 51]) };
        let wb = r.below(cfg.img / 8 + 1) + (if cfg.hostile { 0 } else { 1 });
        let h = r.below(cfg.img + 1) + (if cfg.hostile { 0 } else { 1 });
        v.extend([GS, b'v', b'0', m]);
        v.extend(u16le(wb));
        v.extend(u16le(h));
        let d = raw_dots(r, wb * h);
        v.extend(d);
    }
}

/// Wraps graphics function data in GS ( L or GS 8 L.
pub fn gs_l(large: bool, m: u8, fnc: u8, data: &[u8], v: &mut Vec<u8>) {
    let n = data.len() + 2;
    if large || n > 65535 {
        v.extend([GS, b'8', b'L']);
        v.extend((n as u32).to_le_bytes());
    } else {
        v.extend([GS, b'(', b'L']);
        v.extend(u16le(n));
    }
    v.extend([m, fnc]);
    v.extend(data);
}

/// One storage / print-buffer operation. `keys` keeps keys colliding.
pub fn store(r: &mut Rng, v: &mut Vec<u8>, cfg: &Cfg) {
    let kc = [*r.pick(b"AB"), *r.pick(b"01")];
    let large = r.chance(1, 4);
    let mut w = 1 + r.below(cfg.img.min(40));
    let h = 1 + r.below(cfg.img.min(40));
    if r.chance(1, 2) { w = (w + 7) / 8 * 8; }
    match r.below(14) {
        0 | 1 | 2 => {
            // define, raster or column
            let ram = r.chance(1, 2);
            let col = r.chance(1, 3);
            let colors = 1 + r.below(3);
            let mut d = vec![48, kc[0], kc[1], colors as u8];
            d.extend(u16le(w));
            d.extend(u16le(h));
            let layer = if col { (h + 7) / 8 * w } else { (w + 7) / 8 * h };
            for i in 0..colors {
                d.push(49 + ((i + r.below(3)) % 3) as u8);
                d.extend(raw_dots(r, layer));
            }
            let f = match (ram, col) { (false, false) => 67, (false, true) => 68, (true, false) => 83, (true, true) => 84 };
            if cfg.hostile && r.chance(1, 4) { let k = r.below(d.len() + 1); d.truncate(k); }
            gs_l(large, 48, f, &d, v);
        }
        3 | 4 | 5 => gs_l(large, 48, *r.pick(&[69u8, 85]), &[kc[0], kc[1], 1 + r.below(2) as u8, 1 + r.below(2) as u8], v),
        6 => gs_l(large, 48, *r.pick(&[66u8, 82]), &kc, v),
        7 => { if r.chance(1, 3) { gs_l(large, 48, *r.pick(&[65u8, 81]), b"CLR", v) } else { gs_l(large, 48, *r.pick(&[64u8, 80]), b"KC", v) } }
        8 | 9 | 10 => {
            let col = r.chance(1, 3);
            let by = |r: &mut Rng| if r.chance(1, 8) { *r.pick(&[0usize, 3, 49, 50, 255]) } else { 1 + r.below(2) };
            let (bx, by) = (by(r), by(r));
            let c = 49 + r.below(3);
            let mut d = vec![48, bx as u8, by as u8, c as u8];
            d.extend(u16le(w));
            d.extend(u16le(h));
            let n = if col { (h + 7) / 8 * w } else { (w + 7) / 8 * h };
            d.extend(raw_dots(r, n));
            if cfg.hostile && r.chance(1, 4) { let k = r.below(d.len() + 1); d.truncate(k); }
            if cfg.hostile && r.chance(1, 4) { let k = r.below(d.len().max(1)); if !d.is_empty() { d[k] = r.byte(); } }
            gs_l(large, 48, if col { 113 } else { 112 }, &d, v);
        }
        11 | 12 => gs_l(large, 48, *r.pick(&[2u8, 50]), &[], v),
        _ => gs_l(large, 48, *r.pick(&[0u8, 48, 4, 52]), &[], v),
    }
}

pub fn digits(r: &mut Rng, n: usize) -> Vec<u8> { (0..n).map(|_| b'0' + r.below(10) as u8).collect() }

fn chars(r: &mut Rng, set: &[u8], n: usize) -> Vec<u8> { (0..n).map(|_| *r.pick(set)).collect() }

pub fn ean_check(d: &[u8]) -> u8 {
    // weights 3,1,3,.. from the right
    let mut s = 0u32;
    for (i, b) in d.iter().rev().enumerate() { s += (*b as u32 - 48) * if i % 2 == 0 { 3 } else { 1 }; }
    b'0' + ((10 - s % 10) % 10) as u8
}

/// Valid data for symbology index 0..=8
/// (UPC-A, UPC-E, EAN13, EAN8, CODE39, ITF, CODABAR, CODE93, CODE128)
pub fn barcode_data(r: &mut Rng, kind: usize) -> Vec<u8> {
    match kind {
        0 => { let mut d = digits(r, 11); if r.chance(1, 2) { d.push(ean_check(&d)); } d }
        1 => {
            let e = digits(r, 6);
            let ns = b'0' + r.below(2) as u8;
            match r.below(5) {
                0 => e,
                1 => [&[ns][..], &e].concat(),
                2 => { let a = crate::barcodes::upce_expand(ns, &e); [&[ns][..], &e, &[ean_check(&a)]].concat() }
                k => { let mut a = crate::barcodes::upce_expand(ns, &e); if k == 4 { a.push(ean_check(&a)); } a }
            }
        }
        2 => { let mut d = digits(r, 12); if r.chance(1, 2) { d.push(ean_check(&d)); } d }
        3 => { let mut d = digits(r, 7); if r.chance(1, 2) { d.push(ean_check(&d)); } d }
        4 => { let n = 1 + r.below(12); let d = chars(r, b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%", n); if r.chance(1, 4) { [b"*".to_vec(), d, b"*".to_vec()].concat() } else { d } }
        5 => { let n = 2 + r.below(14); digits(r, n) }
        6 => { let a = *r.pick(b"ABCD"); let b = *r.pick(b"ABCD"); let n = 1 + r.below(10); let mut d = vec![a]; d.extend(chars(r, b"0123456789-$/:.+", n)); d.push(b); d }
        7 => { let n = 1 + r.below(12); chars(r, b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%", n) }
        _ => {
            let mut d = vec![];
            let mut set = 3;
            for _ in 0..1 + r.below(4) {
                let next = loop { let k = r.below(3); if k != set { break k; } };
                set = next;
                d.extend([b'{', b'A' + set as u8]);
                if r.chance(1, 8) { d.extend(b"{1"); }
                match set {
                    2 => { let n = 2 * (1 + r.below(5)); d.extend(digits(r, n)) }
                    _ => for _ in 0..1 + r.below(6) {
                        let a = set == 0;
                        let shift = r.chance(1, 12);
                        if shift { d.extend(b"{S"); } else if r.chance(1, 20) { d.extend([b'{', b'1' + r.below(4) as u8]); continue; }
                        // NUL would end the data of the first form
                        d.push(loop { let c = if a != shift { 1 + r.below(95) as u8 } else { 32 + r.below(95) as u8 }; if c != b'{' { break c; } });
                        if !a && !shift && r.chance(1, 20) { d.extend(b"{{"); }
                    },
                }
            }
            d
        }
    }
}

pub fn barcode_cmd(kind: usize, func_b: bool, data: &[u8], v: &mut Vec<u8>) {
    if func_b || kind > 6 {
        v.extend([GS, b'k', 65 + kind as u8, data.len() as u8]);
        v.extend(data);
    } else {
        v.extend([GS, b'k', kind as u8]);
        v.extend(data);
        v.push(NUL);
    }
}

pub fn barcode(r: &mut Rng, v: &mut Vec<u8>, cfg: &Cfg) {
    match r.below(8) {
        0 => v.extend([GS, b'h', if cfg.hostile { r.byte() } else { 1 + r.below(120) as u8 }]),
        1 => v.extend([GS, b'w', param(r)]),
        2 => v.extend([GS, b'H', param(r)]),
        3 => v.extend([GS, b'f', param(r)]),
        _ => {
            let kind = r.below(9);
            let mut d = barcode_data(r, kind);
            if cfg.hostile {
                if r.chance(1, 3) { let n = r.below(d.len() + 3); d.resize(n, b'7'); }
                if r.chance(1, 3) && !d.is_empty() { let k = r.below(d.len()); d[k] = r.byte(); }
                if r.chance(1, 10) { let n = r.below(256); d = r.bytes(n); }
            }
            barcode_cmd(kind, r.chance(1, 2), &d, v);
        }
    }
}

pub fn gs_k(cn: u8, fnc: u8, data: &[u8], v: &mut Vec<u8>) {
    v.extend([GS, b'(', b'k']);
    v.extend(u16le(data.len() + 2));
    v.extend([cn, fnc]);
    v.extend(data);
}
pub fn qr_store(data: &[u8], v: &mut Vec<u8>) {
    let mut d = vec![48u8];
    d.extend(data);
    gs_k(49, 80, &d, v);
}
pub fn qr_data(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) { 0 => 1, 1..=4 => 1 + r.below(30), 5..=6 => r.below(120), _ => r.below(300) }.max(1);
    match r.below(4) {
        0 => digits(r, n),
        1 => chars(r, b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:", n),
        2 => chars(r, b"abcdefghijklmnopqrstuvwxyz0123456789 :/?&=.", n),
        _ => r.bytes(n),
    }
}
pub fn qr(r: &mut Rng, v: &mut Vec<u8>, cfg: &Cfg) {
    match r.below(10) {
        0 => gs_k(49, 65, &[if cfg.hostile { param(r) } else { 49 + r.below(2) as u8 }, 0], v),
        1 | 2 => gs_k(49, 67, &[if cfg.hostile { param(r) } else { 1 + r.below(6) as u8 }], v),
        3 | 4 => gs_k(49, 69, &[if cfg.hostile { param(r) } else { 48 + r.below(4) as u8 }], v),
        5 | 6 => { let d = qr_data(r); qr_store(&d, v) }
        7 | 8 => gs_k(49, 81, &[48], v),
        _ => {
            if cfg.hostile || r.chance(1, 2) {
                let cn = 48 + r.below(7) as u8;
                let f = *r.pick(&[65u8, 66, 67, 68, 69, 70, 71, 72, 80, 82]);
                if cn == 49 && !cfg.hostile { gs_k(49, 82, &[48], v) } else {
                    let n = if cfg.hostile { r.below(6) } else { 3 };
                    let d: Vec<u8> = (0..n).map(|_| if cfg.hostile { param(r) } else { 48 + r.below(2) as u8 }).collect();
                    gs_k(cn, f, &d, v)
                }
            } else { gs_k(49, 82, &[48], v) }
        }
    }
}

pub fn page(r: &mut Rng, v: &mut Vec<u8>, cfg: &Cfg) {
    let big = |r: &mut Rng, m: usize| u16le(if cfg.hostile && r.chance(1, 12) { r.below(65536) } else { r.below(m) });
    match r.below(14) {
        0 | 1 | 2 => v.extend([ESC, b'L']),
        3 | 4 => { v.extend([ESC, b'W']); for m in [200, 200, 400, 300] { let b = big(r, m); v.extend(b); } }
        5 | 6 => v.extend([ESC, b'T', if cfg.hostile { param(r) } else { *r.pick(&[0u8, 1, 2, 3, 48, 49, 50, 51]) }]),
        7 => { v.extend([GS, b'$']); let b = big(r, 300); v.extend(b); }
        8 => { v.extend([GS, b'\\']); let b = if r.chance(1, 3) { u16le(65536 - 1 - r.below(200)) } else { big(r, 200) }; v.extend(b); }
        9 | 10 => v.push(FF),
        11 => v.extend([ESC, FF]),
        _ => v.extend([ESC, b'S']),
    }
}

pub fn noop(r: &mut Rng, v: &mut Vec<u8>) {
    match r.below(8) {
        0 => v.extend([ESC, b'=', param(r)]),
        1 => v.extend([ESC, b'c', b'3' + r.below(3) as u8, param(r)]),
        2 => v.extend([ESC, b'p', r.below(2) as u8, r.byte(), r.byte()]),
        3 => v.extend([GS, b'I', param(r)]),
        4 => v.extend([CAN, b'@']),
        5 => { v.extend([GS, b'(', b'G', 2, 0]); v.extend([r.byte(), r.byte()]); }
        6 => { v.extend([GS, b'(', b'H', 6, 0, 48, 48]); v.extend(r.bytes(4)); }
        _ => v.extend([GS, b'f', r.below(2) as u8]),
    }
}

pub fn unknown(r: &mut Rng, v: &mut Vec<u8>) {
    match r.below(5) {
        0 => v.extend([DLE, *r.pick(&[4u8, 5, 20]), r.below(5) as u8]),
        1 => v.extend([FS, *r.pick(b".&!C-S2?gq")]),
        2 => v.extend([ESC, *r.pick(b"%&?BFNQYZ\\u")]),
        3 => v.extend([GS, *r.pick(b"#*:/^cgrz")]),
        _ => v.extend([GS, b'(', *r.pick(b"ACDEFKMPQVXYz")]),
    }
}

pub fn step(r: &mut Rng, v: &mut Vec<u8>, c: &Cfg) {
    let ws = [c.text, c.lf, c.tab, c.cr, c.style, c.layout, c.feed, c.image, c.store, c.barcode, c.qr, c.page, c.init, c.noop, c.unknown];
    let total: usize = ws.iter().sum();
    let mut k = r.below(total.max(1));
    let mut i = 0;
    while i < ws.len() && k >= ws[i] { k -= ws[i]; i += 1; }
    match i {
        0 => { let t = text(r, c.ascii); v.extend(t) }
        1 => v.push(LF),
        2 => v.push(HT),
        3 => v.push(CR),
        4 => style(r, v),
        5 => layout(r, v),
        6 => feed(r, v),
        7 => image(r, v, c),
        8 => store(r, v, c),
        9 => barcode(r, v, c),
        10 => qr(r, v, c),
        11 => page(r, v, c),
        12 => v.extend([ESC, b'@']),
        13 => noop(r, v),
        _ => unknown(r, v),
    }
}

pub fn job(r: &mut Rng, c: &Cfg, steps: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..steps {
        let at = v.len();
        step(r, &mut v, c);
        if r.chance(1, 16) { let t = twin(r, &v[at..]); v.extend(t); }
    }
    v
}

/// A look-alike: the same commands with the same amounts of data, only that data is rearranged
/// (dots mirrored or moved, characters swapped). Whatever confuses two contents confuses these first.
pub fn twin(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for i in crate::grammar::split(b) {
        let end = i.end.min(v.len());
        let p = i.start + i.op;
        let (skip, back, dots) = if i.kind == crate::grammar::Kind::Text { (0, 0, false) } else if i.kind == crate::grammar::Kind::Cmd {
            let par = &b[p.min(end)..end];
            match i.opcode(b) {
                b"\x1b*" => (3, 0, true),
                b"\x1dv0" => (5, 0, true),
                b"\x1dk" => if par.first().map_or(true, |m| *m < 65) { (1, 1, false) } else { (2, 0, false) },
                b"\x1d(k" if par.get(3) == Some(&80) => (5, 0, false),
                b"\x1d(L" => match par.get(3) { Some(112 | 113) => (12, 0, true), Some(67 | 68 | 83 | 84) => (12, 0, true), _ => continue },
                b"\x1d8L" => match par.get(5) { Some(112 | 113) => (14, 0, true), Some(67 | 68 | 83 | 84) => (14, 0, true), _ => continue },
                _ => continue,
            }
        } else { continue };
        let (a, z) = ((p + skip).min(end), end.saturating_sub(back));
        if z <= a { continue; }
        let d = &mut v[a..z];
        if dots {
            match r.below(3) {
                0 => for x in d.iter_mut() { *x = x.reverse_bits(); },
                1 => d.reverse(),
                _ => d.rotate_left(1),
            }
        } else {
            // swap two characters that differ, and leave everything else where it is
            for _ in 0..6 {
                let (j, k) = (r.below(d.len()), r.below(d.len()));
                if d[j] != d[k] && (33..127).contains(&d[j]) && (33..127).contains(&d[k]) && d[j] != b'{' && d[k] != b'{' { d.swap(j, k); break; }
            }
        }
    }
    v
}

/// Random subset of classes turned off: gives feature-focused jobs ("swarm").
pub fn swarm(r: &mut Rng, base: &Cfg) -> Cfg {
    let mut c = base.clone();
    {
        let fs: [&mut usize; 13] = [&mut c.tab, &mut c.cr, &mut c.style, &mut c.layout, &mut c.feed, &mut c.image, &mut c.store,
            &mut c.barcode, &mut c.qr, &mut c.page, &mut c.init, &mut c.noop, &mut c.unknown];
        for f in fs {
            match r.below(4) { 0 | 1 => *f = 0, 2 => {}, _ => *f *= 4 }
        }
    }
    c
}

/// Byte-level mutation of a job.
pub fn mutate(r: &mut Rng, v: &mut Vec<u8>, other: &[u8]) {
    let n = 1 + r.below(4);
    for _ in 0..n {
        if v.is_empty() { v.push(r.byte()); continue; }
        let i = r.below(v.len());
        match r.below(9) {
            0 => v[i] = r.byte(),
            1 => v[i] ^= 1 << r.below(8),
            2 => { v.remove(i); }
            3 => v.insert(i, r.byte()),
            4 => { let k = (1 + r.below(16)).min(v.len() - i); v.drain(i..i + k); }
            5 => { let j = r.below(v.len()); let k = (1 + r.below(24)).min(v.len() - j); let s: Vec<u8> = v[j..j + k].to_vec(); for (t, b) in s.into_iter().enumerate() { v.insert(i + t, b); } }
            6 => { if !other.is_empty() { let j = r.below(other.len()); let k = (1 + r.below(40)).min(other.len() - j); for t in 0..k { v.insert(i + t, other[j + t]); } } }
            7 => v[i] = *r.pick(&[0u8, 1, 2, 3, 48, 49, 50, 51, 255, 254, 127, 128, 10, 27, 29]),
            _ => { if r.chance(1, 3) { v.truncate(i); } else { let s = *r.pick(&[ESC, GS, FS, DLE, CAN, LF, FF]); v.insert(i, s); } }
        }
    }
}

/// Bytes drawn from an opcode dictionary and noise.
pub fn noise(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = vec![];
    while v.len() < n {
        match r.below(4) {
            0 => v.push(r.byte()),
            1 => { let b = *r.pick(b"\x1b\x1d\x1c\x10\x18\x0a\x0c\x0d\x09\x00@LWTS$\\*v0kV!a3JdeDMtRB(8"); v.push(b) }
            2 => { let o: &[&[u8]] = &[b"\x1b@", b"\x1bL", b"\x1bW", b"\x1bT", b"\x1b$", b"\x1d$", b"\x1d\\", b"\x1d(L", b"\x1d(k", b"\x1d8L", b"\x1dv0", b"\x1b*", b"\x1dk", b"\x1d!", b"\x1dP", b"\x1be", b"\x1bd", b"\x1bJ", b"\x1d(N", b"\x1d(H", b"\x1d(G", b"\x1dV", b"\x1bD", b"\x1b\x0c", b"\x18@", b"\x1ba", b"\x1bS"];
                   let s = *r.pick(o); v.extend(s) }
            _ => v.push(param(r)),
        }
    }
    v
}
