//! Reference bar patterns, written from the symbology definitions, and a Code128 reader.

const EAN_L: [&str; 10] = ["3211", "2221", "2122", "1411", "1132", "1231", "1114", "1312", "1213", "3112"];
const EAN13_PARITY: [&str; 10] = ["LLLLLL", "LLGLGG", "LLGGLG", "LLGGGL", "LGLLGG", "LGGLLG", "LGGGLL", "LGLGLG", "LGLGGL", "LGGLGL"];
const UPCE_PARITY: [&str; 10] = ["GGGLLL", "GGLGLL", "GGLLGL", "GGLLLG", "GLGGLL", "GLLGGL", "GLLLGG", "GLGLGL", "GLGLLG", "GLLGLG"];
const CODE39: &[(u8, &str)] = &[
    (b'0', "nnnwwnwnn"), (b'1', "wnnwnnnnw"), (b'2', "nnwwnnnnw"), (b'3', "wnwwnnnnn"), (b'4', "nnnwwnnnw"), (b'5', "wnnwwnnnn"),
    (b'6', "nnwwwnnnn"), (b'7', "nnnwnnwnw"), (b'8', "wnnwnnwnn"), (b'9', "nnwwnnwnn"), (b'A', "wnnnnwnnw"), (b'B', "nnwnnwnnw"),
    (b'C', "wnwnnwnnn"), (b'D', "nnnnwwnnw"), (b'E', "wnnnwwnnn"), (b'F', "nnwnwwnnn"), (b'G', "nnnnnwwnw"), (b'H', "wnnnnwwnn"),
    (b'I', "nnwnnwwnn"), (b'J', "nnnnwwwnn"), (b'K', "wnnnnnnww"), (b'L', "nnwnnnnww"), (b'M', "wnwnnnnwn"), (b'N', "nnnnwnnww"),
    (b'O', "wnnnwnnwn"), (b'P', "nnwnwnnwn"), (b'Q', "nnnnnnwww"), (b'R', "wnnnnnwwn"), (b'S', "nnwnnnwwn"), (b'T', "nnnnwnwwn"),
    (b'U', "wwnnnnnnw"), (b'V', "nwwnnnnnw"), (b'W', "wwwnnnnnn"), (b'X', "nwnnwnnnw"), (b'Y', "wwnnwnnnn"), (b'Z', "nwwnwnnnn"),
    (b'-', "nwnnnnwnw"), (b'.', "wwnnnnwnn"), (b' ', "nwwnnnwnn"), (b'$', "nwnwnwnnn"), (b'/', "nwnwnnnwn"), (b'+', "nwnnnwnwn"),
    (b'%', "nnnwnwnwn"), (b'*', "nwnnwnwnn"),
];
const CODABAR: &[(u8, &str)] = &[
    (b'0', "nnnnnww"), (b'1', "nnnnwwn"), (b'2', "nnnwnnw"), (b'3', "wwnnnnn"), (b'4', "nnwnnwn"), (b'5', "wnnnnwn"), (b'6', "nwnnnnw"),
    (b'7', "nwnnwnn"), (b'8', "nwwnnnn"), (b'9', "wnnwnnn"), (b'-', "nnnwwnn"), (b'$', "nnwwnnn"), (b':', "wnnnwnw"), (b'/', "wnwnnnw"),
    (b'.', "wnwnwnn"), (b'+', "nnwnwnw"), (b'A', "nnwwnwn"), (b'B', "nwnwnnw"), (b'C', "nnnwnww"), (b'D', "nnnwwwn"),
];
const ITF: [&str; 10] = ["nnwwn", "wnnnw", "nwnnw", "wwnnn", "nnwnw", "wnwnn", "nwwnn", "nnnww", "wnnwn", "nwnwn"];
const CODE93: [&str; 48] = [
    "131112", "111213", "111312", "111411", "121113", "121212", "121311", "111114", "131211", "141111", "211113", "211212",
    "211311", "221112", "221211", "231111", "112113", "112212", "112311", "122112", "132111", "111123", "111222", "111321",
    "121122", "131121", "212112", "212211", "211122", "211221", "221121", "222111", "112122", "112221", "122121", "123111",
    "121131", "311112", "311211", "321111", "112131", "113121", "211131", "121221", "312111", "311121", "122211", "111141",
];
const CODE93_CHARS: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";
const CODE128: [&str; 107] = [
    "212222", "222122", "222221", "121223", "121322", "131222", "122213", "122312", "132212", "221213", "221312", "231212",
    "112232", "122132", "122231", "113222", "123122", "123221", "223211", "221132", "221231", "213212", "223112", "312131",
    "311222", "321122", "321221", "312212", "322112", "322211", "212123", "212321", "232121", "111323", "131123", "131321",
    "112313", "132113", "132311", "211313", "231113", "231311", "112133", "112331", "132131", "113123", "113321", "133121",
    "313121", "211331", "231131", "213113", "213311", "213131", "311123", "311321", "331121", "312113", "312311", "332111",
    "314111", "221411", "431111", "111224", "111422", "121124", "121421", "141122", "141221", "112214", "112412", "122114",
    "122411", "142112", "142211", "241211", "221114", "413111", "241112", "134111", "111242", "121142", "121241", "114212",
    "124112", "124211", "411212", "421112", "421211", "212141", "214121", "412121", "111143", "111341", "131141", "114113",
    "114311", "411113", "411311", "113141", "114131", "311141", "411131", "211412", "211214", "211232", "2331112",
];

/// Appends runs of alternating colour, starting with `first`.
fn runs(v: &mut Vec<u8>, widths: &str, first: u8, wide: usize) {
    let mut c = first;
    for w in widths.bytes() {
        let n = match w { b'n' => 1, b'w' => wide, d => (d - b'0') as usize };
        for _ in 0..n { v.push(c); }
        c ^= 1;
    }
}
fn dig(b: u8) -> usize { (b - b'0') as usize }
/// Modulo-10 check digit, weight 3 on the last digit.
pub fn mod10(d: &[u8]) -> u8 {
    let s: usize = d.iter().rev().enumerate().map(|(i, b)| dig(*b) * if i % 2 == 0 { 3 } else { 1 }).sum();
    b'0' + ((10 - s % 10) % 10) as u8
}
fn all_digits(d: &[u8]) -> bool { d.iter().all(|b| b.is_ascii_digit()) }

fn left(v: &mut Vec<u8>, d: u8, g: bool) {
    let w: String = if g { EAN_L[dig(d)].chars().rev().collect() } else { EAN_L[dig(d)].into() };
    runs(v, &w, 0, 1);
}
fn right(v: &mut Vec<u8>, d: u8) { runs(v, EAN_L[dig(d)], 1, 1) }

/// 13 digits, check digit included
pub fn ean13(d: &[u8]) -> Vec<u8> {
    let mut v = vec![1, 0, 1];
    for (i, p) in EAN13_PARITY[dig(d[0])].bytes().enumerate() { left(&mut v, d[1 + i], p == b'G'); }
    v.extend([0, 1, 0, 1, 0]);
    for i in 7..13 { right(&mut v, d[i]); }
    v.extend([1, 0, 1]);
    v
}
pub fn ean8(d: &[u8]) -> Vec<u8> {
    let mut v = vec![1, 0, 1];
    for i in 0..4 { left(&mut v, d[i], false); }
    v.extend([0, 1, 0, 1, 0]);
    for i in 4..8 { right(&mut v, d[i]); }
    v.extend([1, 0, 1]);
    v
}
/// The UPC-A number (11 digits) that a number system digit and six UPC-E digits stand for.
pub fn upce_expand(ns: u8, e: &[u8]) -> Vec<u8> {
    let mut v = vec![ns];
    match e[5] {
        b'0'..=b'2' => { v.extend([e[0], e[1], e[5]]); v.extend(b"0000"); v.extend([e[2], e[3], e[4]]); }
        b'3' => { v.extend(&e[..3]); v.extend(b"00000"); v.extend([e[3], e[4]]); }
        b'4' => { v.extend(&e[..4]); v.extend(b"00000"); v.push(e[4]); }
        _ => { v.extend(&e[..5]); v.extend(b"0000"); v.push(e[5]); }
    }
    v
}
/// The UPC-E digits of a UPC-A number, in the first form that represents it.
pub fn upce_compress(a: &[u8]) -> Option<Vec<u8>> {
    if a[0] != b'0' && a[0] != b'1' { return None; }
    let m = &a[1..6];
    let p = &a[6..11];
    if m[3] == b'0' && m[4] == b'0' && m[2] <= b'2' { return if p[..2] == *b"00" { Some(vec![m[0], m[1], p[2], p[3], p[4], m[2]]) } else { None }; }
    if m[3] == b'0' && m[4] == b'0' { return if p[..3] == *b"000" { Some(vec![m[0], m[1], m[2], p[3], p[4], b'3']) } else { None }; }
    if m[4] == b'0' { return if p[..4] == *b"0000" { Some(vec![m[0], m[1], m[2], m[3], p[4], b'4']) } else { None }; }
    if p[..4] == *b"0000" && p[4] >= b'5' { return Some(vec![m[0], m[1], m[2], m[3], m[4], p[4]]); }
    None
}
fn upce(a: &[u8]) -> Option<Vec<u8>> {
    let e = upce_compress(a)?;
    let check = mod10(a);
    let mut v = vec![1, 0, 1];
    for (i, p) in UPCE_PARITY[dig(check)].bytes().enumerate() { left(&mut v, e[i], (p == b'G') == (a[0] == b'0')); }
    v.extend([0, 1, 0, 1, 0, 1]);
    Some(v)
}
fn code39(d: &[u8], wide: usize) -> Option<Vec<u8>> {
    let mut v = vec![];
    for (i, c) in b"*".iter().chain(d).chain(b"*").enumerate() {
        if i > 0 { v.push(0); }
        runs(&mut v, CODE39.iter().find(|x| x.0 == *c)?.1, 1, wide);
    }
    Some(v)
}
fn codabar(d: &[u8], wide: usize) -> Option<Vec<u8>> {
    let mut v = vec![];
    for (i, c) in d.iter().enumerate() {
        if i > 0 { v.push(0); }
        runs(&mut v, CODABAR.iter().find(|x| x.0 == *c)?.1, 1, wide);
    }
    Some(v)
}
fn itf(d: &[u8], wide: usize) -> Vec<u8> {
    let mut v = vec![1, 0, 1, 0];
    for p in d.chunks(2) {
        let (a, b) = (ITF[dig(p[0])].as_bytes(), ITF[dig(p[1])].as_bytes());
        let w: Vec<u8> = (0..5).flat_map(|i| [a[i], b[i]]).collect();
        runs(&mut v, std::str::from_utf8(&w).unwrap(), 1, wide);
    }
    runs(&mut v, "wnn", 1, wide);
    v
}
fn code93(d: &[u8]) -> Option<Vec<u8>> {
    let mut vals: Vec<usize> = vec![];
    for c in d { vals.push(CODE93_CHARS.iter().position(|x| x == c)?); }
    for max in [20, 15] {
        let s: usize = vals.iter().rev().enumerate().map(|(i, x)| (i % max + 1) * x).sum();
        vals.push(s % 47);
    }
    let mut v = vec![];
    runs(&mut v, CODE93[47], 1, 1);
    for x in vals { runs(&mut v, CODE93[x], 1, 1); }
    runs(&mut v, CODE93[47], 1, 1);
    v.push(1);
    Some(v)
}

/// What a reader of Code128 returns: characters and function characters.
#[derive(Clone, Debug, PartialEq)]
pub enum C128 { Ch(u8), Fnc(u8) }

/// The content of Code128 data with its escapes, None when it is not valid.
/// Choosing the code set that is already chosen is left out of what is judged (Err).
pub fn code128_content(d: &[u8]) -> Result<Option<(Vec<C128>, Vec<u8>)>, ()> {
    let (mut out, mut hri) = (vec![], vec![]);
    let mut set = 0u8;
    let mut shift = false;
    let mut carry = false;
    let mut units = 0;
    let mut i = 0;
    while i < d.len() {
        let c = d[i];
        if c >= 128 { return Ok(None); }
        if c == b'{' {
            match d.get(i + 1) {
                Some(s @ (b'A' | b'B' | b'C')) => {
                    if carry || shift { return Ok(None); }
                    if *s == set { return Err(()); }
                    set = *s;
                    units += 1;
                    i += 2;
                    continue;
                }
                Some(b'S') => {
                    if set != b'A' && set != b'B' { return Ok(None); }
                    if shift { return Ok(None); }
                    shift = true;
                    i += 2;
                    continue;
                }
                Some(n @ b'1'..=b'4') => {
                    if shift { return Ok(None); }
                    // FNC2 to FNC4 don't exist in set C, a half pair there is not judged
                    if set == 0 || (set == b'C' && *n != b'1') { return Ok(None); }
                    if carry { return Err(()); }
                    out.push(C128::Fnc(n - b'0'));
                    units += 1;
                    i += 2;
                    continue;
                }
                Some(b'{') => {
                    if shift { return Ok(None); }
                    if set != b'B' { return Ok(None); }
                    out.push(C128::Ch(b'{'));
                    hri.push(b'{');
                    i += 2;
                    continue;
                }
                // a single brace is a character of set B
                _ => {}
            }
        }
        let s = if shift { if set == b'A' { b'B' } else { b'A' } } else { set };
        if shift && c == b'{' { return Ok(None); }
        shift = false;
        let ok = match s { b'A' => c < 96, b'B' => (32..128).contains(&c), b'C' => c.is_ascii_digit(), _ => false };
        if !ok { return Ok(None); }
        if s == b'C' { carry = !carry; }
        out.push(C128::Ch(c));
        // control characters are shown as spaces
        hri.push(if c.is_ascii_control() { b' ' } else { c });
        i += 1;
    }
    let _ = units;
    if set == 0 || carry || shift { return Ok(None); }
    Ok(Some((out, hri)))
}

/// Reads modules back; None when they are not a valid Code128 symbol.
pub fn code128_read(m: &[u8]) -> Option<Vec<C128>> {
    let mut pats: Vec<Vec<u8>> = vec![];
    for p in CODE128 { let mut v = vec![]; runs(&mut v, p, 1, 1); pats.push(v); }
    if m.len() < 11 * 3 + 13 || (m.len() - 13) % 11 != 0 { return None; }
    let (body, stop) = m.split_at(m.len() - 13);
    if stop != &pats[106][..] { return None; }
    let mut vals = vec![];
    for c in body.chunks(11) { vals.push(pats[..106].iter().position(|p| &p[..] == c)?); }
    let check = vals.pop()?;
    let sum: usize = vals.iter().enumerate().map(|(i, v)| v * i.max(1)).sum();
    if sum % 103 != check { return None; }
    let mut set = match vals[0] { 103 => b'A', 104 => b'B', 105 => b'C', _ => return None };
    let mut out = vec![];
    let mut shift = false;
    for v in &vals[1..] {
        let s = if shift { if set == b'A' { b'B' } else { b'A' } } else { set };
        let was = shift;
        shift = false;
        match (s, *v) {
            (b'C', 0..=99) => { out.push(C128::Ch(b'0' + (*v / 10) as u8)); out.push(C128::Ch(b'0' + (*v % 10) as u8)); }
            (b'C', 100) => set = b'B',
            (b'C', 101) | (b'B', 101) if !was => set = b'A',
            (_, 102) => out.push(C128::Fnc(1)),
            (b'A', 0..=63) => out.push(C128::Ch(*v as u8 + 32)),
            (b'A', 64..=95) => out.push(C128::Ch(*v as u8 - 64)),
            (b'B', 0..=95) => out.push(C128::Ch(*v as u8 + 32)),
            (_, 96) => out.push(C128::Fnc(3)),
            (_, 97) => out.push(C128::Fnc(2)),
            (_, 98) if !was => shift = true,
            (_, 99) => set = b'C',
            (b'A', 100) => set = b'B',
            (b'A', 101) | (b'B', 100) => out.push(C128::Fnc(4)),
            _ => return None,
        }
    }
    Some(out)
}

fn code128(d: &[u8]) -> Option<Vec<u8>> {
    // drawn with latches, the check only compares what a reader returns and, without shifts, the width
    let mut vals: Vec<usize> = vec![];
    let mut set = 0u8;
    let mut carry: Option<usize> = None;
    let val = |s: u8, c: u8| -> usize { if s == b'A' { if c < 32 { c as usize + 64 } else { c as usize - 32 } } else { c as usize - 32 } };
    let go = |vals: &mut Vec<usize>, set: &mut u8, to: u8| {
        vals.push(if vals.is_empty() { match to { b'A' => 103, b'B' => 104, _ => 105 } } else { match to { b'A' => 101, b'B' => 100, _ => 99 } });
        *set = to;
    };
    let mut i = 0;
    while i < d.len() {
        match (d[i], d.get(i + 1)) {
            (b'{', Some(s @ (b'A' | b'B' | b'C'))) => { go(&mut vals, &mut set, *s); i += 2; }
            (b'{', Some(b'S')) => {
                let back = set;
                let other = if set == b'A' { b'B' } else { b'A' };
                go(&mut vals, &mut set, other);
                vals.push(val(other, *d.get(i + 2)?));
                go(&mut vals, &mut set, back);
                i += 3;
            }
            (b'{', Some(b'1')) => { vals.push(102); i += 2; }
            (b'{', Some(b'2')) => { vals.push(97); i += 2; }
            (b'{', Some(b'3')) => { vals.push(96); i += 2; }
            (b'{', Some(b'4')) => { vals.push(if set == b'A' { 101 } else { 100 }); i += 2; }
            (c, n) => {
                if set == b'C' {
                    match carry { None => carry = Some(dig(c)), Some(x) => { vals.push(x * 10 + dig(c)); carry = None; } }
                } else { vals.push(val(set, c)); }
                i += if c == b'{' && n == Some(&b'{') { 2 } else { 1 };
            }
        }
    }
    let sum: usize = vals.iter().enumerate().map(|(i, v)| v * i.max(1)).sum();
    vals.push(sum % 103);
    vals.push(106);
    let mut v = vec![];
    for x in vals { runs(&mut v, CODE128[x], 1, 1); }
    Some(v)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Code {
    /// the modules and the human readable text
    Bars { modules: Vec<u8>, hri: Vec<u8> },
    /// data the symbology can't carry
    Invalid,
    /// not judged
    Unclear,
}

/// Kinds as in gen.rs: UPCA, UPCE, EAN13, EAN8, CODE39, ITF, CODABAR, CODE93, CODE128.
pub fn encode(kind: usize, d: &[u8], wide: usize) -> Code {
    if d.is_empty() || d.len() > 255 || std::str::from_utf8(d).is_err() { return Code::Invalid; }
    let bars = |m: Option<Vec<u8>>| match m { Some(modules) => Code::Bars { modules, hri: d.to_vec() }, None => Code::Invalid };
    let num = |n: &[usize]| all_digits(d) && n.contains(&d.len());
    match kind {
        0 if num(&[11, 12]) => { let mut x = [b"0", &d[..11]].concat(); x.push(mod10(&d[..11])); bars(Some(ean13(&x))) }
        2 if num(&[12, 13]) => { let mut x = d[..12].to_vec(); x.push(mod10(&d[..12])); bars(Some(ean13(&x))) }
        3 if num(&[7, 8]) => {
            let mut x = d[..7].to_vec();
            x.push(mod10(&d[..7]));
            if d.len() == 8 && d[7] != x[7] { Code::Invalid } else { bars(Some(ean8(&x))) }
        }
        1 if num(&[6, 7, 8, 11, 12]) => {
            let (a, check) = match d.len() {
                6 => (upce_expand(b'0', d), None),
                7 => (upce_expand(d[0], &d[1..7]), None),
                8 => (upce_expand(d[0], &d[1..7]), Some(d[7])),
                11 => (d.to_vec(), None),
                _ => (d[..11].to_vec(), Some(d[11])),
            };
            if check.map(|c| c != mod10(&a)).unwrap_or(false) { Code::Invalid } else { bars(upce(&a)) }
        }
        4 => {
            let s = d.strip_prefix(b"*").unwrap_or(d);
            let s = s.strip_suffix(b"*").unwrap_or(s);
            if s.is_empty() || s.contains(&b'*') { Code::Invalid } else { bars(code39(s, wide)) }
        }
        5 if d.len() >= 2 && all_digits(d) => {
            let mut x = d.to_vec();
            if x.len() % 2 == 1 { x.push(mod10(d)); }
            bars(Some(itf(&x, wide)))
        }
        6 => {
            let guard = |b: u8| (b'A'..=b'D').contains(&b);
            let n = d.len();
            if n > 2 && guard(d[0]) && guard(d[n - 1]) && !d[1..n - 1].iter().any(|b| guard(*b)) { bars(codabar(d, wide)) } else { Code::Invalid }
        }
        7 => bars(code93(d)),
        8 => {
            if d.len() < 2 { return Code::Invalid; }
            match code128_content(d) {
                Err(()) => Code::Unclear,
                Ok(None) => Code::Invalid,
                // nothing but code set selections
                Ok(Some((c, _))) if c.is_empty() => Code::Unclear,
                Ok(Some((_, hri))) => match code128(d) { Some(modules) => Code::Bars { modules, hri }, None => Code::Invalid },
            }
        }
        _ => Code::Invalid,
    }
}

/// The symbology index of GS k m.
pub fn kind_of(m: u8) -> Option<usize> {
    match m { 0..=6 => Some(m as usize), 65..=73 => Some(m as usize - 65), _ => None }
}

/// Run lengths of modules, starting with a bar.
pub fn run_lengths(m: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut i = 0;
    while i < m.len() {
        let mut j = i;
        while j < m.len() && m[j] == m[i] { j += 1; }
        v.push(j - i);
        i = j;
    }
    v
}
/// Whether a symbol carries this data: exact modules for symbologies with fixed widths, any wide
/// element of two or three modules for those with two widths, whatever a reader returns for Code128.
pub fn carries(kind: usize, data: &[u8], m: &[u8]) -> bool {
    let Code::Bars { modules, .. } = encode(kind, data, 2) else { return false };
    if modules == m { return true; }
    if m.first() != Some(&1) || m.last() != Some(&1) { return false; }
    match kind {
        4 | 5 | 6 => {
            let (a, b) = (run_lengths(&modules), run_lengths(m));
            a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| if *x == 1 { *y == 1 } else { *y == 2 || *y == 3 })
        }
        8 => matches!((code128_content(data), code128_read(m)), (Ok(Some((c, _))), Some(r)) if c == r),
        _ => false,
    }
}
/// Symbols of two element widths that begin with these modules and carry the data.
pub fn continued(kind: usize, data: &[u8], m: &[u8]) -> Vec<Vec<u8>> {
    let (4 | 5 | 6, Code::Bars { modules, .. }) = (kind, encode(kind, data, 2)) else { return vec![] };
    let (p, r) = (run_lengths(&modules), run_lengths(m));
    if r.is_empty() || r.len() > p.len() || m[0] != 1 { return vec![]; }
    let k = r.len() - 1;
    let fits = |w: usize, x: usize| if w == 1 { x == 1 } else { x == 2 || x == 3 };
    if !(0..k).all(|i| fits(p[i], r[i])) { return vec![]; }
    let mut v = vec![];
    for last in [1, 2, 3] {
        if last < r[k] || !fits(p[k], last) { continue; }
        for wide in [2, 3] {
            let mut c = vec![];
            for i in 0..p.len() {
                let n = if i < k { r[i] } else if i == k { last } else if p[i] == 1 { 1 } else { wide };
                c.extend(std::iter::repeat((i % 2 == 0) as u8).take(n));
            }
            v.push(c);
        }
    }
    v
}
