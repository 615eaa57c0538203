//! C02 command boundaries, C03 byte conservation, C05 .thermal round trip.
use crate::core::*;
use crate::gen::*;
use crate::grammar::{self, Kind, CUSTOM, FIXED};
use crate::rng::Rng;
use crate::samples;
use thermal_parser::command::CommandType;

pub struct Got { pub bytes: Vec<u8>, pub kind: CommandType }

/// The commands the parser reports, without its begin and end markers (which carry no bytes).
pub fn parsed(b: &Vec<u8>) -> Result<Vec<Got>, String> {
    let cmds = thermal_parser::parse_esc_pos(b);
    let n = cmds.len();
    if n < 2 { return Err(format!("the parser reported {} commands, the begin and end markers are missing", n)); }
    let mut out = vec![];
    for (i, c) in cmds.iter().enumerate() {
        let (a, d) = c.handler.get_command_bytes(c);
        let bytes = [a, d].concat();
        if i == 0 || i == n - 1 {
            if !bytes.is_empty() { return Err(format!("the {} marker reports bytes {}", if i == 0 { "begin" } else { "end" }, hex(&bytes))); }
            continue;
        }
        out.push(Got { bytes, kind: c.kind.clone() });
    }
    Ok(out)
}

pub fn eval02(c: &Case) -> Verdict {
    let b = &c.data[0];
    let mut o = Obs::default();
    let want = grammar::split(b);
    let got = parsed(b)?;
    let mut i = 0;
    for (k, g) in got.iter().enumerate() {
        let w = match want.get(i) { Some(w) => w, None => return Err(format!("command {} ({}) is beyond the last expected command of {}", k, show(&g.bytes), show(b))) };
        let wb = &b[w.start..w.end];
        if g.bytes != wb {
            return Err(format!("command {} of the stream should be {} (bytes {}..{}), the parser reported {}\nstream {}", k, show(wb), w.start, w.end, show(&g.bytes), show(b)));
        }
        let text = g.kind == CommandType::Text;
        let unknown = g.kind == CommandType::Unknown;
        let op = w.opcode(b);
        match w.kind {
            Kind::Text => if !text { return Err(format!("the text run {} was reported as a command\nstream {}", show(wb), show(b))) },
            Kind::Unknown => if !unknown { return Err(format!("the unknown sequence {} was not reported as unknown\nstream {}", show(wb), show(b))) },
            Kind::Cmd => {
                // line end, tab and carriage return are reported as text by design
                let control = op.len() == 1 && op != b"\x0c";
                if text && !control { return Err(format!("the command {} was reported as text\nstream {}", show(wb), show(b))); }
                // functions of GS ( L, GS 8 L and GS ( k that are not supported are reported as unknown
                let sub = matches!(op, b"\x1d(L" | b"\x1d8L" | b"\x1d(k");
                if unknown && !sub { return Err(format!("the command {} was reported as unknown\nstream {}", show(wb), show(b))); }
                if sub {
                    let known = known_function(op, w.params(b));
                    if known == unknown { return Err(format!("the function {} should be {}, it was reported as {}\nstream {}", show(wb),
                        if known { "supported" } else { "unknown" }, if unknown { "unknown" } else { "supported" }, show(b))); }
                }
                o.add("recognised_commands", 1);
                o.state(fnv(op, (wb.len() - op.len()).min(9) as u64));
            }
        }
        if w.kind != Kind::Cmd { o.add("text_and_unknown_runs", 1); }
        o.add("commands_compared", 1);
        i += 1;
    }
    if i < want.len() {
        let w = &want[i];
        return Err(format!("the parser reported {} commands, the next should be {}\nstream {}", got.len(), show(&b[w.start..w.end]), show(b)));
    }
    o.trivial = b.is_empty();
    Ok(o)
}

/// Functions of the graphics and two-dimensional code groups that are supported.
pub fn known_function(op: &[u8], p: &[u8]) -> bool {
    let h = if op == b"\x1d8L" { 4 } else { 2 };
    if p.len() < h + 2 { return false; }
    let (m, f) = (p[h], p[h + 1]);
    if op == b"\x1d(k" {
        match m {
            48 => matches!(f, 65 | 66 | 67 | 69 | 70 | 80 | 81 | 82),
            49 => matches!(f, 65 | 67 | 69 | 80 | 81 | 82),
            50 => matches!(f, 65 | 80 | 81 | 82),
            51 => matches!(f, 67 | 71 | 80 | 81 | 82),
            52 => matches!(f, 67 | 71 | 72 | 80 | 81 | 82),
            53 => matches!(f, 66 | 67 | 69 | 80 | 81 | 82),
            54 => matches!(f, 66 | 67 | 80 | 81 | 82),
            _ => false,
        }
    } else {
        matches!(f, 0 | 48 | 1 | 49 | 2 | 50 | 4 | 52 | 64 | 65 | 66 | 67 | 68 | 69 | 80 | 81 | 82 | 83 | 84 | 85 | 112 | 113)
    }
}

pub fn eval03(c: &Case) -> Verdict {
    let b = &c.data[0];
    let mut o = Obs::default();
    let mut at = 0;
    for g in parsed(b)? {
        if b.len() < at + g.bytes.len() || b[at..at + g.bytes.len()] != g.bytes[..] {
            let end = (at + g.bytes.len() + 8).min(b.len());
            return Err(format!("from byte {} the parser reports {}, the stream has {}\nstream {}", at, show(&g.bytes), show(&b[at..end]), show(b)));
        }
        at += g.bytes.len();
        o.add("commands_reassembled", 1);
        o.state(fnv(&g.bytes[..g.bytes.len().min(4)], g.bytes.len().min(9) as u64));
    }
    if at != b.len() { return Err(format!("the parser lost the last {} bytes: {}\nstream {}", b.len() - at, show(&b[at..]), show(b))); }
    o.add("bytes_conserved", b.len() as u64);
    o.trivial = b.is_empty();
    Ok(o)
}

pub fn eval05(c: &Case) -> Verdict {
    let b = &c.data[0];
    let mut o = Obs::default();
    let t = thermal_parser::thermal_file::cmds_to_thermal(&thermal_parser::parse_esc_pos(b));
    let back = thermal_parser::thermal_file::parse_str(&t);
    if back != *b {
        let i = back.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(back.len().min(b.len()));
        return Err(format!("differs from byte {}: was {}, came back as {}\njob  {}\ntext {:?}", i, show(&b[i.min(b.len())..]), show(&back[i.min(back.len())..]), show(b), t.chars().take(600).collect::<String>()));
    }
    o.add("bytes_round_tripped", b.len() as u64);
    o.add("thermal_lines", t.lines().count() as u64);
    for g in parsed(b)? { o.state(fnv(&g.bytes[..g.bytes.len().min(3)], g.bytes.len().min(12) as u64)); }
    o.trivial = b.is_empty();
    Ok(o)
}

fn ops() -> Vec<&'static [u8]> { FIXED.iter().map(|f| f.0).chain(CUSTOM.iter().copied()).collect() }

/// One complete recognised command with arbitrary parameters and payload.
pub fn any_command(r: &mut Rng, op: &[u8]) -> Vec<u8> {
    let mut v = op.to_vec();
    let evil = |r: &mut Rng, n: usize| -> Vec<u8> {
        match r.below(4) {
            0 => noise(r, n.max(1))[..n.min(noise(r, n.max(1)).len())].to_vec(),
            1 => (0..n).map(|_| *r.pick(&[0x1bu8, 0x1d, 0x18, 0x10, 0x1c, 0x0a, 0x0c, 0x09, 0, 0x40])).collect(),
            _ => r.bytes(n),
        }
    };
    let put = |r: &mut Rng, v: &mut Vec<u8>, n: usize| { let mut d = evil(r, n); d.resize(n, 0x1b); v.extend(d) };
    match op {
        b"\x1dk" => {
            let m = match r.below(4) { 0 => r.below(7) as u8, 1 | 2 => 65 + r.below(15) as u8, _ => r.byte() };
            v.push(m);
            if m <= 6 { let n = r.below(30); let mut d = evil(r, n); d.retain(|b| *b != 0); v.extend(d); v.push(0); }
            else if (65..=79).contains(&m) { let n = if r.chance(1, 6) { r.below(256) } else { r.below(24) }; v.push(n as u8); let mut d = evil(r, n); d.resize(n, 0x1d); v.extend(d); }
        }
        b"\x1b*" => { let m = if r.chance(1, 2) { 32 + r.below(2) as u8 } else { param(r) }; let w = if r.chance(1, 10) { r.below(1200) } else { r.below(20) }; v.push(m); v.extend(u16le(w));
            let n = w * if m == 32 || m == 33 { 3 } else { 1 }; let mut d = evil(r, n); d.resize(n, 0x1b); v.extend(d) }
        b"\x1dv0" => { let (w, h) = if r.chance(1, 10) { (r.below(300), r.below(20)) } else { (r.below(6), r.below(8)) }; v.push(param(r)); v.extend(u16le(w)); v.extend(u16le(h)); let mut d = evil(r, w * h); d.resize(w * h, 0x1d); v.extend(d) }
        b"\x1dV" => { let m = if r.chance(1, 2) { param(r) } else { *r.pick(&[0u8, 1, 48, 49, 65, 66, 97, 98, 103, 104]) }; v.push(m); if !matches!(m, 0 | 1 | 48 | 49) { v.push(r.byte()) } }
        b"\x1d8L" => { let n = if r.chance(1, 40) { 65536 + r.below(3000) } else { r.below(60) }; v.extend((n as u32).to_le_bytes()); put(r, &mut v, n);
            if n >= 2 && r.chance(3, 4) { let i = v.len() - n; v[i] = 48; v[i + 1] = *r.pick(&[0u8, 1, 2, 4, 48, 49, 50, 52, 64, 65, 66, 67, 68, 69, 80, 81, 82, 83, 84, 85, 112, 113]); } }
        b"\x1d(G" | b"\x1d(N" | b"\x1d(L" | b"\x1d(k" | b"\x1d(H" => { let n = match r.below(20) { 0 => 256 + r.below(600), 1 => 0, _ => r.below(40) }; v.extend(u16le(n)); put(r, &mut v, n);
            if n >= 2 && r.chance(3, 4) { let i = v.len() - n; if op == b"\x1d(k" { v[i] = 48 + r.below(7) as u8; v[i + 1] = *r.pick(&[65u8, 66, 67, 68, 69, 70, 71, 72, 80, 81, 82]) }
                else if op == b"\x1d(L" { v[i] = 48; v[i + 1] = *r.pick(&[0u8, 1, 2, 4, 48, 49, 50, 52, 64, 65, 66, 67, 68, 69, 80, 81, 82, 83, 84, 85, 112, 113]) } } }
        _ => { let n = FIXED.iter().find(|f| f.0 == op).map(|f| f.1).unwrap_or(0); put(r, &mut v, n) }
    }
    v
}

pub fn any_stream(r: &mut Rng, steps: usize, hostile: bool) -> Vec<u8> {
    let os = ops();
    let mut v = vec![];
    for _ in 0..steps {
        match r.below(if hostile { 10 } else { 8 }) {
            0 | 1 => { let n = 1 + r.below(6); let ascii = r.chance(1, 2); for _ in 0..n { let w = word(r, ascii, 6); v.extend(w); if r.chance(1, 3) { v.push(b' ') } } }
            2..=7 => { let op = *r.pick(&os); let c = any_command(r, op); v.extend(c) }
            8 => unknown(r, &mut v),
            _ => { let op = *r.pick(&os); let k = 1 + r.below(op.len()); v.extend(&op[..k]); if r.chance(1, 3) { v.push(r.byte()) } }
        }
    }
    v
}

fn families(x: &mut Ctx) {
    crate::bulk::family(x, 900, 30_000, &[140_000, 70_000, 300_000, 12_000]);
    let os = ops();
    let samples = samples::all();
    // every ordered pair of commands, with and without text between them
    let n = os.len() * os.len();
    let reps = x.n(2, 60);
    x.family("pairs", n * reps, |r, i| {
        let (a, b) = (os[i % n / os.len()], os[i % n % os.len()]);
        let mut v = vec![];
        if r.chance(1, 2) { v.extend(b"t0") }
        v.extend(any_command(r, a));
        if r.chance(1, 2) { let w = word(r, false, 4); v.extend(w) }
        v.extend(any_command(r, b));
        if r.chance(1, 2) { v.extend(b"t1") }
        Some(Case::one("pairs", v))
    });
    // every parameter value of every command, then text
    let reps = x.n(1, 8);
    x.family("param-values", os.len() * 256 * reps, |r, i| {
        let op = os[(i / 256) % os.len()];
        let mut v = any_command(r, op);
        if v.len() > op.len() { let j = op.len() + r.below((v.len() - op.len()).min(4)); v[j] = (i % 256) as u8; }
        v.extend(b"xyz");
        let b = *r.pick(&os);
        v.extend(any_command(r, b));
        Some(Case::one("param-values", v))
    });
    let n = x.n(60_000, 4_000_000);
    x.family("stream", n, |r, _| { let k = 1 + r.below(25); Some(Case::one("stream", any_stream(r, k, false))) });
    let n = x.n(60_000, 4_000_000);
    x.family("stream-unknown", n, |r, _| { let k = 1 + r.below(16); Some(Case::one("stream-unknown", any_stream(r, k, true))) });
    let n = x.n(60_000, 4_000_000);
    x.family("stream-truncated", n, |r, _| {
        let k = 1 + r.below(6);
        let mut v = any_stream(r, k, r.clone().chance(1, 2));
        let i = r.below(v.len() + 1);
        v.truncate(i);
        Some(Case::one("stream-truncated", v))
    });
    let n = x.n(60_000, 4_000_000);
    x.family("noise", n, |r, _| { let k = 1 + r.below(60); Some(Case::one("noise", noise(r, k))) });
    let n = x.n(30_000, 2_000_000);
    x.family("bytes", n, |r, _| { let k = 1 + r.below(40); Some(Case::one("bytes", r.bytes(k))) });
    // every short stream over the bytes that start commands
    let al: &[u8] = b"\x1b\x1d\x18\x10\x1c(8@Lkv0c3*VGa\x0c\x0a\x00\x02";
    let m = al.len();
    let total = m * m * m * if x.thorough { m } else { 1 };
    let depth = if x.thorough { 4 } else { 3 };
    x.family("exhaustive-short", total, |_, i| {
        let mut v = vec![];
        let mut k = i;
        for _ in 0..depth { v.push(al[k % m]); k /= m; }
        v.extend(b"ab");
        Some(Case::one("exhaustive-short", v))
    });
    let n = x.n(4_000, 400_000);
    let s2 = samples.clone();
    x.family("sample-mutated", n, |r, _| {
        let s = r.pick(&s2);
        let a = r.below(s.len());
        let l = r.below(2500);
        let mut v = s[a..(a + l).min(s.len())].to_vec();
        let o = r.pick(&s2).clone();
        if r.chance(3, 4) { mutate(r, &mut v, &o); }
        Some(Case::one("sample-mutated", v))
    });
    x.family("sample", samples.len(), |_, i| Some(Case::one("sample", samples[i].clone())));
    let n = x.n(6_000, 400_000);
    x.family("job", n, |r, _| {
        let mut c = Cfg::all();
        c.unknown = 1;
        c.hostile = r.chance(1, 3);
        let c = swarm(r, &c);
        let k = 1 + r.below(40);
        Some(Case::one("job", job(r, &c, k)))
    });
}

pub fn run(x: &mut Ctx) { families(x) }

pub fn run05(x: &mut Ctx) {
    families(x);
    // text runs with every byte value, quotes and backslashes next to everything
    let n = x.n(30_000, 2_000_000);
    x.family("text", n, |r, _| {
        let k = 1 + r.below(24);
        let special = b"\"\\'/0xFEScNULGHT \t\x00\x7f\x80\xc3\xa9\xe2\x80\xa8\xc2\x85\xf0\x9f\x98\x80,+-19";
        let v: Vec<u8> = (0..k).map(|_| if r.chance(2, 3) { *r.pick(special) } else { r.byte() }).collect();
        Some(Case::one("text", v))
    });
    x.family("text-bytes", 65536, |_, i| Some(Case::one("text-bytes", vec![b'a', (i >> 8) as u8, i as u8, b'b'])));
}
