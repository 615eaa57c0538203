//! A strict QR and Micro QR reader: any wrong module is reported.

#[derive(Clone, Debug, PartialEq)]
pub struct Symbol { pub data: Vec<u8>, pub micro: bool, pub version: u32, /* 0 L 1 M 2 Q 3 H */ pub ec: u8, pub mask: u8, pub modes: Vec<char> }

const ECC: [[usize; 40]; 4] = [
    [7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28],
    [13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
];
const BLOCKS: [[usize; 40]; 4] = [
    [1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25],
    [1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49],
    [1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68],
    [1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81],
];

fn raw_modules(v: usize) -> usize {
    let mut r = (16 * v + 128) * v + 64;
    if v >= 2 { let a = v / 7 + 2; r -= (25 * a - 10) * a - 55; if v >= 7 { r -= 36; } }
    r
}
fn align(v: usize) -> Vec<usize> {
    if v == 1 { return vec![]; }
    let a = v / 7 + 2;
    let step = if v == 32 { 26 } else { (v * 4 + a * 2 + 1) / (a * 2 - 2) * 2 };
    let mut r: Vec<usize> = (0..a - 1).map(|i| v * 4 + 10 - i * step).collect();
    r.push(6);
    r.reverse();
    r
}
fn gmul(a: u8, b: u8) -> u8 {
    let (mut p, mut a, mut b) = (0u16, a as u16, b);
    while b > 0 { if b & 1 == 1 { p ^= a; } a <<= 1; if a & 256 != 0 { a ^= 0x11d; } b >>= 1; }
    p as u8
}
fn rs_ok(block: &[u8], ec: usize) -> bool {
    let mut root = 1u8;
    for _ in 0..ec {
        let s = block.iter().fold(0u8, |s, c| gmul(s, root) ^ c);
        if s != 0 { return false; }
        root = gmul(root, 2);
    }
    true
}
fn bch(d: u32, n: u32, poly: u32) -> u32 {
    let mut r = d << n;
    let top = 32 - poly.leading_zeros();
    while r != 0 && 32 - r.leading_zeros() >= top { r ^= poly << (32 - r.leading_zeros() - top); }
    d << n | r
}

struct Bits<'a> { b: &'a [bool], i: usize }
impl Bits<'_> {
    fn left(&self) -> usize { self.b.len() - self.i }
    fn get(&mut self, n: usize) -> Result<u32, String> {
        if self.left() < n { return Err("the data ends early".into()); }
        let v = self.b[self.i..self.i + n].iter().fold(0, |v, b| v << 1 | *b as u32);
        self.i += n;
        Ok(v)
    }
}
const ALNUM: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";

fn segments(bits: &[bool], micro: bool, v: usize) -> Result<(Vec<u8>, Vec<char>), String> {
    let mut b = Bits { b: bits, i: 0 };
    let mut out = vec![];
    let mut modes = vec![];
    loop {
        let mode = if micro {
            let term = [3, 5, 7, 9][v - 1];
            let n = b.left().min(term);
            if b.b[b.i..b.i + n].iter().all(|x| !x) { break; }
            match b.get(v - 1)? { 0 => 'n', 1 => 'a', 2 => 'b', 3 => 'k', m => return Err(format!("mode {}", m)) }
        } else {
            if b.left() < 4 { break; }
            match b.get(4)? { 0 => break, 1 => 'n', 2 => 'a', 4 => 'b', 8 => 'k', m => return Err(format!("mode {}", m)) }
        };
        modes.push(mode);
        let class = if v <= 9 { 0 } else if v <= 26 { 1 } else { 2 };
        let n = if micro { match mode { 'n' => v + 2, 'a' => v + 1, 'b' => v + 1, _ => v } }
            else { let t = match mode { 'n' => [10, 12, 14], 'a' => [9, 11, 13], 'b' => [8, 16, 16], _ => [8usize, 10, 12] }; t[class] };
        let mut n = b.get(n)? as usize;
        match mode {
            'n' => while n > 0 {
                let k = n.min(3);
                let x = b.get([0, 4, 7, 10][k])?;
                if x >= 10u32.pow(k as u32) { return Err("bad digits".into()); }
                out.extend(format!("{:0w$}", x, w = k).bytes());
                n -= k;
            },
            'a' => while n > 0 {
                if n >= 2 { let x = b.get(11)? as usize; if x >= 45 * 45 { return Err("bad pair".into()); } out.push(ALNUM[x / 45]); out.push(ALNUM[x % 45]); n -= 2; }
                else { let x = b.get(6)? as usize; if x >= 45 { return Err("bad character".into()); } out.push(ALNUM[x]); n -= 1; }
            },
            'b' => for _ in 0..n { out.push(b.get(8)? as u8); },
            _ => for _ in 0..n {
                let x = b.get(13)?;
                let x = x / 0xc0 * 256 + x % 0xc0;
                let x = if x < 0x1f00 { x + 0x8140 } else { x + 0xc140 };
                out.extend([(x >> 8) as u8, x as u8]);
            },
        }
    }
    Ok((out, modes))
}

/// m[y][x]
pub fn decode(m: &[Vec<bool>]) -> Result<Symbol, String> {
    let n = m.len();
    if m.iter().any(|r| r.len() != n) { return Err("not square".into()); }
    let micro = n < 21;
    if micro && !(n >= 11 && n % 2 == 1) || !micro && (n > 177 || n % 4 != 1) { return Err(format!("{} modules", n)); }
    let v = if micro { (n - 9) / 2 } else { (n - 17) / 4 };
    // modules with a fixed meaning
    let mut fixed = vec![vec![false; n]; n];
    let mut check = |x: i64, y: i64, dark: bool, what: &str| -> Result<(), String> {
        if x < 0 || y < 0 || x >= n as i64 || y >= n as i64 { return Ok(()); }
        fixed[y as usize][x as usize] = true;
        if m[y as usize][x as usize] != dark { return Err(format!("wrong module {},{} of the {}", x, y, what)); }
        Ok(())
    };
    let corners: &[(i64, i64)] = if micro { &[(3, 3)] } else { &[(3, 3), (n as i64 - 4, 3), (3, n as i64 - 4)] };
    for (cx, cy) in corners { for dy in -4..=4i64 { for dx in -4..=4i64 { let d = dx.abs().max(dy.abs()); check(cx + dx, cy + dy, d != 2 && d != 4, "finder pattern")?; } } }
    let tl = if micro { 0 } else { 6 };
    for i in 8..n as i64 - if micro { 0 } else { 8 } { check(i, tl, i % 2 == 0, "timing pattern")?; check(tl, i, i % 2 == 0, "timing pattern")?; }
    if !micro {
        let a = align(v);
        for (i, x) in a.iter().enumerate() { for (j, y) in a.iter().enumerate() {
            if (i == 0 && (j == 0 || j == a.len() - 1)) || (i == a.len() - 1 && j == 0) { continue; }
            for dy in -2..=2i64 { for dx in -2..=2i64 { check(*x as i64 + dx, *y as i64 + dy, dx.abs().max(dy.abs()) != 1, "alignment pattern")?; } }
        } }
        check(8, n as i64 - 8, true, "dark module")?;
    }
    // format
    let (mut f1, mut f2) = (0u32, 0u32);
    let mut take = |f: &mut u32, x: usize, y: usize| { fixed[y][x] = true; *f = *f << 1 | m[y][x] as u32; };
    let (ec, mask);
    let micro_kind;
    if micro {
        for x in 1..=8 { take(&mut f1, x, 8); }
        for y in (1..=7).rev() { take(&mut f1, 8, y); }
        let raw = f1 ^ 0x4445;
        if bch(raw >> 10, 10, 0x537) != raw { return Err("damaged format".into()); }
        let k = raw >> 12;
        mask = [1u8, 4, 6, 7][(raw >> 10 & 3) as usize];
        let (kv, ke) = [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (4, 0), (4, 1), (4, 2)][k as usize];
        if kv != v { return Err(format!("format of M{} in a symbol M{}", kv, v)); }
        ec = ke as u8;
        micro_kind = k as usize;
    } else {
        for x in [0, 1, 2, 3, 4, 5, 7, 8] { take(&mut f1, x, 8); }
        for y in [7, 5, 4, 3, 2, 1, 0] { take(&mut f1, 8, y); }
        for y in (n - 7..n).rev() { take(&mut f2, 8, y); }
        for x in n - 8..n { take(&mut f2, x, 8); }
        let raw = f1 ^ 0x5412;
        if f1 != f2 || bch(raw >> 10, 10, 0x537) != raw { return Err("damaged format".into()); }
        mask = (raw >> 10 & 7) as u8;
        ec = [1, 0, 3, 2][(raw >> 13) as usize];
        micro_kind = 0;
        if v >= 7 {
            let (mut a, mut b) = (0, 0);
            for i in (0..18).rev() { take(&mut a, i / 3, n - 11 + i % 3); take(&mut b, n - 11 + i % 3, i / 3); }
            if a != b || bch(v as u32, 12, 0x1f25) != a { return Err("damaged version".into()); }
        }
    }
    // data modules in reading order
    let masked = |x: usize, y: usize| match mask {
        0 => (x + y) % 2 == 0, 1 => y % 2 == 0, 2 => x % 3 == 0, 3 => (x + y) % 3 == 0, 4 => (x / 3 + y / 2) % 2 == 0,
        5 => x * y % 2 + x * y % 3 == 0, 6 => (x * y % 2 + x * y % 3) % 2 == 0, _ => ((x + y) % 2 + x * y % 3) % 2 == 0,
    };
    let mut bits = vec![];
    let mut right = n as i64 - 1;
    let mut up = true;
    while right > 0 {
        if !micro && right == 6 { right = 5; }
        for k in 0..n {
            let y = if up { n - 1 - k } else { k };
            for x in [right as usize, right as usize - 1] { if !fixed[y][x] { bits.push(m[y][x] != masked(x, y)); } }
        }
        up = !up;
        right -= 2;
    }
    let byte = |b: &[bool]| b.iter().fold(0u8, |v, x| v << 1 | *x as u8);
    let data: Vec<bool>;
    if micro {
        let (dbits, ecn) = [(20, 2), (40, 5), (32, 6), (84, 6), (68, 8), (128, 8), (112, 10), (80, 14)][micro_kind];
        if bits.len() != dbits + ecn * 8 { return Err(format!("{} data modules", bits.len())); }
        // a last codeword of 4 bits counts as its upper half
        let mut cw: Vec<u8> = bits[..dbits].chunks(8).map(|c| if c.len() == 4 { byte(c) } else { byte(c) }).collect();
        cw.extend(bits[dbits..].chunks(8).map(|c| byte(c)));
        if !rs_ok(&cw, ecn) {
            let i = dbits / 8;
            if dbits % 8 != 0 { cw[i] <<= 4; }
            if dbits % 8 == 0 || !rs_ok(&cw, ecn) { return Err("damaged codewords".into()); }
        }
        data = bits[..dbits].to_vec();
    } else {
        let total = raw_modules(v) / 8;
        if bits.len() != raw_modules(v) { return Err(format!("{} data modules", bits.len())); }
        if bits[total * 8..].iter().any(|b| *b) { return Err("remainder bits".into()); }
        let cw: Vec<u8> = bits[..total * 8].chunks(8).map(|c| byte(c)).collect();
        let (nb, ecn) = (BLOCKS[ec as usize][v - 1], ECC[ec as usize][v - 1]);
        let short = total / nb - ecn;
        let long_blocks = total % nb;
        let mut blocks = vec![vec![]; nb];
        let mut i = 0;
        for k in 0..short + 1 { for (j, b) in blocks.iter_mut().enumerate() { if k < short || j >= nb - long_blocks { b.push(cw[i]); i += 1; } } }
        let d: Vec<u8> = blocks.iter().flatten().copied().collect();
        for _ in 0..ecn { for b in blocks.iter_mut() { b.push(cw[i]); i += 1; } }
        for b in &blocks { if !rs_ok(b, ecn) { return Err("damaged codewords".into()); } }
        data = d.iter().flat_map(|c| (0..8).rev().map(move |k| c >> k & 1 == 1)).collect();
    }
    let (out, modes) = segments(&data, micro, v)?;
    Ok(Symbol { data: out, micro, version: v as u32, ec, mask, modes })
}

/// The modules of a symbol drawn as rectangles of a size, with its top left corner at x, y.
pub fn modules(rects: &[(u32, u32, u32, u32)], x: u32, y: u32, n: u32, size: u32) -> Result<Vec<Vec<bool>>, String> {
    let mut m = vec![vec![false; n as usize]; n as usize];
    for r in rects {
        if r.0 < x || r.1 < y || (r.0 - x) % size != 0 || (r.1 - y) % size != 0 || r.2 % size != 0 || r.3 % size != 0 { return Err(format!("dots {:?} aren't whole modules of {}", r, size)); }
        for b in (r.1 - y) / size..(r.1 - y + r.3) / size { for a in (r.0 - x) / size..(r.0 - x + r.2) / size {
            if a >= n || b >= n { return Err(format!("dots {:?} outside of the symbol", r)); }
            if m[b as usize][a as usize] { return Err(format!("module {},{} is drawn twice", a, b)); }
            m[b as usize][a as usize] = true;
        } }
    }
    Ok(m)
}
