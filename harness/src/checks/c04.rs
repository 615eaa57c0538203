//! C04: .thermal source compiles to exactly the bytes it spells.
use crate::core::*;
use crate::rng::Rng;
use thermal_parser::thermal_file::parse_str;

const NAMES: &[(&str, u8)] = &[("NUL", 0), ("ESC", 0x1b), ("HT", 9), ("LF", 10), ("FF", 12), ("CR", 13), ("GS", 0x1d), ("FS", 0x1c), ("DLE", 0x10), ("CAN", 0x18)];

/// Bytes of a bare (unquoted) token.
fn bare(t: &str) -> Vec<u8> {
    if let Some(n) = NAMES.iter().find(|n| n.0 == t) { return vec![n.1]; }
    if let Some(h) = t.strip_prefix("0x") {
        if !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit()) {
            let s = h.trim_start_matches('0');
            if s.len() <= 2 { return vec![u8::from_str_radix(if s.is_empty() { "0" } else { s }, 16).unwrap()]; }
        }
    } else if !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit()) {
        let s = t.trim_start_matches('0');
        if s.len() <= 3 {
            let v: u32 = if s.is_empty() { 0 } else { s.parse().unwrap() };
            if v <= 255 { return vec![v as u8]; }
        }
    }
    t.as_bytes().to_vec()
}

/// Independent tokenizer: a three-state scanner over the source.
pub fn reference(text: &str) -> Vec<u8> {
    let mut out = vec![];
    for line in text.split('\n') {
        let line = line.strip_suffix('\r').unwrap_or(line);
        if line.starts_with("'//") || line.trim().is_empty() { continue; }
        let cs: Vec<char> = line.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            if matches!(c, ' ' | '\t' | '\r' | '\x0c') { i += 1; continue; }
            if c == '"' {
                i += 1;
                let mut s = String::new();
                while i < cs.len() && cs[i] != '"' {
                    if cs[i] == '\\' && i + 1 < cs.len() && (cs[i + 1] == '\\' || cs[i + 1] == '"') { s.push(cs[i + 1]); i += 2; }
                    else { s.push(cs[i]); i += 1; }
                }
                i += 1;
                out.extend(s.as_bytes());
            } else {
                let mut s = String::new();
                while i < cs.len() && cs[i] != '"' && !matches!(cs[i], ' ' | '\t' | '\r' | '\x0c') { s.push(cs[i]); i += 1; }
                out.extend(bare(&s));
            }
        }
    }
    out
}

/// blob 0: source; blob 1 (when present): the bytes it was built to mean.
pub fn eval(c: &Case) -> Verdict {
    let mut o = Obs::default();
    let t = String::from_utf8_lossy(&c.data[0]).to_string();
    let got = parse_str(&t);
    let want = match c.data.get(1) { Some(w) => w.clone(), None => reference(&t) };
    if got != want {
        let i = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("source {:?}\nshould compile to {}\ncompiled to       {}\nfirst difference at byte {}", t.chars().take(400).collect::<String>(), hex(&want), hex(&got), i));
    }
    o.add("bytes_compiled", got.len() as u64);
    o.add("source_lines", t.lines().count() as u64);
    for w in t.split_whitespace().take(40) { o.state(fnv(&w.as_bytes()[..w.len().min(6)], 0)); }
    o.trivial = got.is_empty();
    Ok(o)
}

const CHARS: &[&str] = &["a", "Z", "é", "漢", "😀", "'", "/", "#", ",", ".", ":", "0", "9", "x", "F", "-", "_", "(", "\u{7f}", "ß", "\u{a0}", "ESC", "\u{2028}"];

/// One token as source text with the bytes it spells; (text, bytes, needs a gap before/after)
fn token(r: &mut Rng) -> (String, Vec<u8>, bool) {
    match r.below(9) {
        0 => { let n = r.pick(NAMES); (n.0.to_string(), vec![n.1], true) }
        1 => { let b = r.byte(); (match r.below(3) { 0 => format!("0x{:02X}", b), 1 => format!("0x{:x}", b), _ => format!("0x{:04x}", b) }, vec![b], true) }
        2 => { let b = r.byte(); (if r.chance(1, 5) { format!("{:03}", b) } else { format!("{}", b) }, vec![b], true) }
        3 => { let s = r.pick(&["256", "999", "1000", "0x100", "0xG1", "0x", "-1", "1a", "12.5", "0b1", "esc", "Esc", "LFX", "XESC", "nul", "0XFF", "GS(", "'", "//", "99999999999"]).to_string(); let b = s.as_bytes().to_vec(); (s, b, true) }
        4 => {
            // a word that is neither a name nor a number
            let mut s = String::from("w");
            for _ in 0..r.below(8) { s.push_str(r.pick(CHARS)); }
            let b = s.as_bytes().to_vec();
            (s, b, true)
        }
        _ => {
            let mut src = String::from("\"");
            let mut b = vec![];
            for _ in 0..r.below(12) {
                match r.below(12) {
                    0 => { src.push_str("\\\\"); b.push(b'\\') }
                    1 => { src.push_str("\\\""); b.push(b'"') }
                    2 => { src.push(' '); b.push(b' ') }
                    3 => { src.push('\t'); b.push(b'\t') }
                    4 => { src.push_str("'//"); b.extend(b"'//") }
                    // a backslash before anything else stands for itself
                    5 => { let k = *r.pick(&["n", "x", "é", " ", "0"]); src.push('\\'); src.push_str(k); b.push(b'\\'); b.extend(k.as_bytes()) }
                    _ => { let k = *r.pick(CHARS); src.push_str(k); b.extend(k.as_bytes()) }
                }
            }
            src.push('"');
            (src, b, false)
        }
    }
}

fn program(r: &mut Rng, toks: &[(String, Vec<u8>, bool)]) -> String {
    let nl = *r.pick(&["\n", "\n", "\r\n"]);
    let mut s = String::new();
    let mut line_start = true;
    let mut last_bare = false;
    let breaks = r.below(8) + 1;
    let blanks = r.chance(1, 3);
    for t in toks {
        if !line_start && r.below(breaks + 3) < 3 {
            if r.chance(1, 6) { s.push_str(r.pick(&[" ", "\t"])) }
            s.push_str(nl);
            line_start = true;
            while blanks && r.chance(1, 3) {
                let junk = match r.below(5) { 0 => "'// comment ESC \"x\" 0x41", 1 => "", 2 => "   ", 3 => "\t \t", _ => "'//\"unclosed" };
                s.push_str(junk);
                s.push_str(nl);
            }
        }
        if line_start {
            // only what can't be mistaken for a comment is indented
            if !t.0.starts_with('\'') && r.chance(1, 4) { s.push_str(r.pick(&[" ", "    ", "\t"])) }
            if t.0.starts_with("'//") { s.push(' ') }
        } else if (t.2 && last_bare) || r.chance(3, 4) {
            s.push_str(r.pick(&[" ", " ", " ", "  ", "\t", " \t ", "\x0c", "\r "]))
        }
        s.push_str(&t.0);
        line_start = false;
        last_bare = t.2;
    }
    if r.chance(1, 2) { s.push_str(nl) }
    s
}

pub fn run(x: &mut Ctx) {
    let n = x.n(60_000, 6_000_000);
    x.family("built!", n, |r, _| {
        let k = 1 + r.below(14);
        let toks: Vec<_> = (0..k).map(|_| token(r)).collect();
        let src = program(r, &toks);
        let want: Vec<u8> = toks.iter().flat_map(|t| t.1.clone()).collect();
        Some(Case::new("built!", vec![src.into_bytes(), want]))
    });
    // the same tokens with two layouts
    x.family("every-number!", 256 * 6, |_, i| {
        let b = (i / 6) as u8;
        let s = match i % 6 { 0 => format!("{}", b), 1 => format!("0x{:02X}", b), 2 => format!("0x{:x}", b), 3 => format!("{:03}", b), 4 => format!("GS {} ESC", b), _ => format!("\"a\"0x{:02x}\"b\"", b) };
        let w = match i % 6 { 4 => vec![0x1d, b, 0x1b], 5 => vec![b'a', b, b'b'], _ => vec![b] };
        Some(Case::new("every-number!", vec![s.into_bytes(), w]))
    });
    // long words, strings, lines and files
    let n = if x.thorough { 10_000 } else { 600 };
    x.family("large!", n, |r, i| {
        let most = *r.pick(&[140_000usize, 70_000, 20_000]);
        let k = crate::bulk::many(r, most);
        let (mut s, mut b) = (String::new(), vec![]);
        for _ in 0..r.below(3) { let t = token(r); s.push_str(&t.0); s.push(' '); b.extend(t.1); }
        match i % 10 {
            // a string, a word, a number with many zeros
            0 => { s.push('"'); for j in 0..k { let c = if j % 61 == 60 { ' ' } else { (b'a' + (j % 26) as u8) as char }; s.push(c); b.push(c as u8) } s.push('"') }
            1 => { let c = *r.pick(&['é', 'w', '漢']); s.push('w'); b.push(b'w'); for _ in 0..k { s.push(c); let mut t = [0; 4]; b.extend(c.encode_utf8(&mut t).as_bytes()) } }
            2 => { let h = r.chance(1, 2); if h { s.push_str("0x") } s.extend(std::iter::repeat('0').take(k)); s.push_str("65"); b.push(if h { 0x65 } else { 65 }) }
            // a line of many tokens, and of many blanks
            3 => for _ in 0..k / 4 { let t = token(r); s.push_str(&t.0); s.push(' '); b.extend(t.1); },
            4 => { s.extend(std::iter::repeat(*r.pick(&[' ', '\t'])).take(k)); s.push_str("ESC"); b.push(0x1b) }
            // many lines, and a long comment or blank line
            5 => for _ in 0..k / 4 { s.push('\n'); let t = token(r); if t.0.starts_with("'//") { continue; } s.push_str(&t.0); b.extend(t.1); },
            6 => { s.push_str("\n'//"); for j in 0..k { s.push(if j % 9 == 8 { '"' } else { 'c' }) } s.push_str("\nGS"); b.push(0x1d) }
            7 => { s.extend(std::iter::repeat('\n').take(k)); s.push_str("GS"); b.push(0x1d) }
            // escapes
            8 => { s.push('"'); for j in 0..k / 2 { s.push('\\'); let c = if j % 3 == 0 { '"' } else { '\\' }; s.push(c); b.push(c as u8) } s.push('"') }
            // a command with a lot of data
            _ => { s.push_str("ESC \"*\" 0 4 0"); b.extend([0x1b, b'*', 0, 4, 0]); for j in 0..k / 4 { let c = (j * 7 % 256) as u8; s.push_str(&format!(" 0x{:02X}", c)); b.push(c) } }
        }
        s.push_str("\nLF \"end\"\n");
        b.push(10);
        b.extend(b"end");
        Some(Case::new("large!", vec![s.into_bytes(), b]))
    });
    let n = x.n(60_000, 6_000_000);
    x.family("random", n, |r, _| {
        let parts = ["ESC", "GS", "LF", "NUL", "0x41", "0xZZ", "65", "256", "\"", "\"", "\\", "\\\"", "\\\\", "é", "漢", "x", " ", " ", "\t", "\n", "\r\n", "\r", "\x0c", "'//", "a'//", "#", "0x", "😀", "-", "7"];
        let mut s = String::new();
        for _ in 0..1 + r.below(24) { s.push_str(r.pick(&parts)); if r.chance(1, 4) { s.push(' ') } }
        // an indented comment marker and a sign before a number are not specified
        let odd = s.lines().any(|l| !l.starts_with("'//") && l.trim_start().starts_with("'//")) || s.ends_with('\r');
        if odd { return None; }
        Some(Case::one("random", s.into_bytes()))
    });
    let names = crate::samples::sources();
    x.family("sample", names.len(), |_, i| Some(Case::one("sample", names[i].clone())));
    // every short line over the characters the scanner distinguishes
    let al = ["\"", "\\", " ", "a", "\n", "1", "é"];
    let depth = if x.thorough { 8 } else { 6 };
    let total = (al.len() as u64).pow(depth) as usize;
    x.family("exhaustive-short", total, |_, i| {
        let mut k = i;
        let mut s = String::new();
        for _ in 0..depth { s.push_str(al[k % al.len()]); k /= al.len(); }
        Some(Case::one("exhaustive-short", s.into_bytes()))
    });
}
