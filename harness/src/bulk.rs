//! Large workloads: one thing a great many times, or one thing of a great size, then ordinary printing.
//! Amounts are taken around the sizes at which counters, buffers and tables run over.
use crate::gen::*;
use crate::rng::Rng;

const STEPS: [usize; 18] = [16, 32, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072];

/// An amount up to `max`: next to one of the usual limits, half of the time the largest that fits.
pub fn many(r: &mut Rng, max: usize) -> usize {
    let fit: Vec<usize> = STEPS.iter().copied().filter(|s| *s + 2 <= max).collect();
    let n = if fit.is_empty() || r.chance(1, 6) { 1 + r.below(max.max(1)) }
        else if r.chance(1, 2) { let k = max - *fit.last().unwrap(); fit[fit.len() - 1] + 1 + r.below(k.min(400)) }
        else { (*r.pick(&fit) + r.below(5)).saturating_sub(2) };
    n.clamp(1, max.max(1))
}

pub const KINDS: usize = 30;

fn words(r: &mut Rng, n: usize, v: &mut Vec<u8>) {
    let end = v.len() + n;
    while v.len() < end { let w = word(r, true, 9); v.extend(w); v.push(b' '); }
    v.truncate(end);
}

/// One bulk of a kind, of about `cap` bytes at most.
pub fn bulk(r: &mut Rng, kind: usize, cap: usize, v: &mut Vec<u8>) {
    let n = |r: &mut Rng, size: usize, most: usize| many(r, (cap / size.max(1)).min(most).max(1));
    match kind % KINDS {
        // a text without commands
        0 => { let k = n(r, 1, usize::MAX); words(r, k, v); v.push(LF) }
        // one word
        1 => { let k = n(r, 1, 70_000); let c = *r.pick(b"xW.#"); v.extend(vec![c; k]); v.push(LF) }
        // many lines
        2 => { let k = n(r, 4, 20_000); for _ in 0..k { let w = word(r, true, 4); v.extend(w); v.push(LF) } }
        // many changes of style in one line
        3 => { let k = n(r, 6, 9_000); for _ in 0..k { style(r, v); if r.chance(2, 3) { v.push(b'a' + r.below(26) as u8) } if r.chance(1, 3) { v.push(b' ') } } v.push(LF) }
        // a long feed
        4 => { v.extend([ESC, b'3', 255]); let k = n(r, 3, 400); for _ in 0..k { v.extend([ESC, b'd', 200 + r.below(56) as u8]) } v.extend([ESC, b'2']) }
        // many small feeds
        5 => { let k = n(r, 3, 20_000); for _ in 0..k { match r.below(3) { 0 => v.extend([ESC, b'J', r.below(40) as u8]), 1 => v.extend([ESC, b'd', r.below(3) as u8]), _ => v.push(LF) } } }
        // a wide raster picture
        6 => { let h = 1 + r.below(3); let w = n(r, h, 65_535); v.extend([GS, b'v', b'0', r.below(4) as u8]); v.extend(u16le(w)); v.extend(u16le(h)); let d = raw_dots(r, w * h); v.extend(d) }
        // a tall raster picture
        7 => { let w = 1 + r.below(3); let h = n(r, w, 65_535); v.extend([GS, b'v', b'0', r.below(4) as u8]); v.extend(u16le(w)); v.extend(u16le(h)); let d = raw_dots(r, w * h); v.extend(d) }
        // wide bit image
        8 => { let m = *r.pick(&[0u8, 1, 32, 33]); let k = if m > 1 { 3 } else { 1 }; let w = n(r, k, 65_535); v.extend([ESC, b'*', m]); v.extend(u16le(w)); let d = raw_dots(r, w * k); v.extend(d); v.push(LF) }
        // many bit images in one line
        9 => { let k = n(r, 9, 2_000); for _ in 0..k { let w = 1 + r.below(4); v.extend([ESC, b'*', 0]); v.extend(u16le(w)); let d = raw_dots(r, w); v.extend(d) } v.push(LF) }
        // large graphics, stored or printed
        10 => {
            let w = *r.pick(&[8usize, 64, 512, 2047, 2048, 2049, 8192]);
            let per = (w + 7) / 8;
            let h = n(r, per, 65_535);
            let store = r.chance(1, 2);
            let mut d = if store { vec![48, b'K', b'1', 1] } else { vec![48, 1, 1, 49] };
            d.extend(u16le(w)); d.extend(u16le(h));
            if store { d.push(49) }
            let px = raw_dots(r, per * h);
            d.extend(px);
            let ram = r.chance(1, 2);
            gs_l(r.chance(1, 2), 48, if !store { 112 } else if ram { 83 } else { 67 }, &d, v);
            if store { for _ in 0..1 + r.below(2) { gs_l(false, 48, if ram { 85 } else { 69 }, &[b'K', b'1', 1, 1], v) } } else { gs_l(false, 48, 50, &[], v) }
        }
        // column graphics
        11 => {
            let h = *r.pick(&[8usize, 24, 128]);
            let per = (h + 7) / 8;
            let w = n(r, per, 65_535);
            let mut d = vec![48, 1, 1, 49];
            d.extend(u16le(w)); d.extend(u16le(h));
            let px = raw_dots(r, per * w);
            d.extend(px);
            gs_l(r.chance(1, 2), 48, 113, &d, v);
            gs_l(false, 48, 50, &[], v);
        }
        // many keys, some of them printed or deleted again
        12 => {
            let k = n(r, 40, 600);
            let ram = r.chance(1, 2);
            let key = |i: usize| [32 + (i % 90) as u8, 32 + (i / 90 + i % 7) as u8];
            let start = r.below(90);
            for i in 0..k {
                let (a, w, h) = (key(i + start), 1 + r.below(9), 1 + r.below(3));
                let mut d = vec![48, a[0], a[1], 1];
                d.extend(u16le(w)); d.extend(u16le(h)); d.push(49);
                let px = r.bytes((w + 7) / 8 * h);
                d.extend(px);
                gs_l(false, 48, if ram { 83 } else { 67 }, &d, v);
            }
            let all = r.chance(1, 2);
            for i in 0..if all { k } else { 0 } { let a = key(i + start); gs_l(false, 48, if ram { 85 } else { 69 }, &[a[0], a[1], 1, 1], v) }
            for _ in 0..if all { 0 } else { 12 } {
                let a = key(start + match r.below(4) { 0 => 0, 1 => k - 1, _ => r.below(k) });
                if r.chance(1, 5) { gs_l(false, 48, if ram { 82 } else { 66 }, &a, v) }
                gs_l(false, 48, if ram { 85 } else { 69 }, &[a[0], a[1], 1, 1], v);
            }
        }
        // many layers in the print buffer
        13 => {
            let k = n(r, 30, 600);
            for _ in 0..k {
                let (w, h) = (1 + r.below(30), 1 + r.below(6));
                let mut d = vec![48, 1, 1, 49 + r.below(3) as u8];
                d.extend(u16le(w)); d.extend(u16le(h));
                let px = raw_dots(r, (w + 7) / 8 * h);
                d.extend(px);
                gs_l(false, 48, 112, &d, v);
            }
            gs_l(false, 48, 50, &[], v);
        }
        // many errors
        14 => { let k = n(r, 9, 3_000); for i in 0..k { if i % 3 == 0 { v.extend([FS, b'q', 1]); v.push(LF) } else { v.extend([GS, b'k', 65, 3, b'a', b'b', b'c']) } } }
        // many outputs
        15 => { let k = n(r, 6, 400); for _ in 0..k { if r.chance(7, 8) { let w = word(r, true, 5); v.extend(w); v.push(LF) } v.push(FF) } }
        // many pages
        16 => { let k = n(r, 20, 400); for _ in 0..k { v.extend([ESC, b'L', ESC, b'W', 0, 0, 0, 0, 100, 0, 30 + r.below(60) as u8, 0]); let w = word(r, true, 5); v.extend(w); v.push(FF) } }
        // many areas and directions on one page
        17 => {
            v.extend([ESC, b'L']);
            let k = n(r, 20, 2_000);
            for _ in 0..k {
                match r.below(3) { 0 => { v.extend([ESC, b'W']); for m in [200, 200, 300, 200] { v.extend(u16le(r.below(m))) } } 1 => v.extend([ESC, b'T', r.below(4) as u8]), _ => { let w = word(r, true, 5); v.extend(w); if r.chance(1, 2) { v.push(LF) } } }
            }
            v.push(FF);
        }
        // much on one page
        18 => { v.extend([ESC, b'L']); let k = n(r, 6, 6_000); for _ in 0..k { let w = word(r, true, 5); v.extend(w); v.push(if r.chance(1, 3) { LF } else { b' ' }) } v.push(FF) }
        // a long page with far positions
        19 => {
            v.extend([ESC, b'L', ESC, b'W', 0, 0, 0, 0, 20, 0]);
            v.extend(u16le(if cap < 20_000 { 1_000 + r.below(1_500) } else { 65_535 - r.below(100) }));
            for _ in 0..1 + r.below(9) { v.extend([GS, b'$']); v.extend(u16le(r.below(if cap < 20_000 { 2_000 } else { 65_536 }))); let w = word(r, true, 2); v.extend(w); if r.chance(1, 3) { v.extend([GS, b'\\']); v.extend(u16le(r.below(65_536))); v.push(b'r') } }
            v.push(FF);
        }
        // many barcodes
        20 => { let k = n(r, 18, 500); for _ in 0..k { let kind = r.below(9); let d = barcode_data(r, kind); v.extend([GS, b'h', 1 + r.below(9) as u8]); barcode_cmd(kind, r.chance(1, 2), &d, v) } }
        // a long barcode
        21 => {
            let f = r.chance(1, 3);
            let k = if f { if r.chance(1, 2) { 250 + r.below(6) } else { 1 + r.below(255) } } else { n(r, 1, 3_000) };
            let kind = if f { *r.pick(&[4usize, 5, 6, 7, 8]) } else { 4 + r.below(3) };
            let mut d = match kind { 6 => b"A".to_vec(), 8 => b"{B".to_vec(), _ => vec![] };
            let set: &[u8] = if kind == 5 || kind == 6 { b"0123456789" } else { b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" };
            while d.len() < k { d.push(*r.pick(set)) }
            if kind == 6 { d.push(b'B') }
            if f { d.truncate(255); if kind == 6 { d[254.min(k)] = b'C' } }
            barcode_cmd(kind, f, &d, v);
        }
        // many symbols
        22 => { let k = n(r, 24, 150); for i in 0..k { if r.chance(1, 4) { gs_k(49, 67, &[1 + r.below(3) as u8], v) } if i % 5 != 4 { let m = 1 + r.below(12); let d = r.bytes(m); qr_store(&d, v) } if r.chance(2, 3) { gs_k(49, 81, &[48], v) } } gs_k(49, 81, &[48], v) }
        // data of a symbol that is far too long
        23 => { let k = n(r, 1, 65_000); let d = if r.chance(1, 2) { vec![b'7'; k] } else { r.bytes(k) }; qr_store(&d, v); gs_k(49, 81, &[48], v); v.extend(b"x\n"); qr_store(b"after", v); gs_k(49, 81, &[48], v) }
        // text in UTF-8
        24 => { v.extend([ESC, b't', 255]); let k = n(r, 3, 30_000); for i in 0..k { if r.chance(1, 7) { v.push(b' ') } let c = *r.pick(&['a', 'é', 'ß', '€', '漢', '字', 'Ж', '😀']); let mut b = [0; 4]; v.extend(c.encode_utf8(&mut b).as_bytes()); if i % 997 == 996 { v.push(LF) } } v.push(LF); v.extend([ESC, b't', 0]) }
        // many code tables and sets
        25 => { let k = n(r, 6, 8_000); for _ in 0..k { v.extend([ESC, *r.pick(b"tR"), r.below(18) as u8]); v.push(*r.pick(b"#@{~\x80\xe9\xa4\xff")); if r.chance(1, 9) { v.push(LF) } } v.push(LF) }
        // many tabs and moves in one line
        26 => { let k = n(r, 4, 6_000); for _ in 0..k { match r.below(4) { 0 => v.push(HT), 1 => { v.extend([ESC, b'$']); v.extend(u16le(r.below(560))) } _ => { let w = word(r, true, 3); v.extend(w) } } } v.push(LF) }
        // many initializes
        27 => { let k = n(r, 8, 1_500); for _ in 0..k { style(r, v); let w = word(r, true, 3); v.extend(w); v.extend([ESC, b'@']) } }
        // much that has no effect, or is unknown
        28 => if r.chance(1, 3) { unknown(r, v); let k = n(r, 1, usize::MAX); words(r, k, v); v.push(LF) } else { let k = n(r, 6, 9_000); let bad = r.chance(1, 2); for _ in 0..k { if bad { unknown(r, v) } else { noop(r, v) } } v.push(LF) }
        // back and forth
        _ => { v.extend(b"\x1bd\xff"); let k = n(r, 9, 2_000); for _ in 0..k { if r.chance(1, 2) { v.extend([ESC, b'e', 1 + r.below(2) as u8]) } let w = word(r, true, 4); v.extend(w); v.push(LF); if r.chance(1, 9) { v.extend([GS, b'V', 66, r.below(9) as u8]) } } }
    }
}

fn rest(r: &mut Rng, k: usize) -> Vec<u8> { let c = swarm(r, &Cfg { img: 32, ..Cfg::all() }); let k = 2 + r.below(k); job(r, &c, k) }

/// A bulk in the middle of an ordinary job.
pub fn large(r: &mut Rng, kind: usize, cap: usize) -> Vec<u8> {
    let mut v = if r.chance(1, 3) { rest(r, 5) } else { vec![] };
    // a page keeps what is printed on it: most bulks are for the paper
    if kind % KINDS != 16 && r.chance(3, 4) { v.extend([ESC, b'S']) }
    bulk(r, kind, cap, &mut v);
    if r.chance(1, 4) { let k = r.below(KINDS); bulk(r, k, (cap / 8).max(64), &mut v) }
    let t = rest(r, 12);
    v.extend(t);
    v.extend(b"the end\n");
    v
}

/// Large jobs of every kind.
pub fn family(x: &mut crate::core::Ctx, quick: usize, thorough: usize, caps: &'static [usize]) {
    let n = if x.thorough { thorough } else { quick };
    x.family("large", n, |r, i| { let cap = *r.pick(caps); Some(crate::core::Case::one("large", large(r, i, cap))) });
}
/// Sizes for what is only laid out.
pub const LAID_OUT: &[usize] = &[140_000, 140_000, 70_000, 12_000];
/// Sizes for what is painted as well.
pub const PAINTED: &[usize] = &[700, 1_600, 1_600, 7_000];
