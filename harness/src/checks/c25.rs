//! C25: a parser built over a command set of one's own splits a stream as that set says.
use crate::core::*;
use crate::rng::Rng;
use thermal_parser::command::{Command, CommandHandler, CommandType, DataType};
use thermal_parser::command_sets::CommandSet;
use thermal_parser::parser::Parser;

// how a command of the set takes its parameters
const LEN: u8 = 6; // one length byte, then so many
const TILL: u8 = 7; // up to and including a zero
const SUB: u8 = 8; // as LEN, and stands for the command its first two bytes select
const KEEP: u8 = 9; // a number the handler counts down itself
const KINDS: u8 = 10;
const KEPT: u8 = 5;

#[derive(Clone)] struct Plain;
impl CommandHandler for Plain {}
#[derive(Clone)] struct Len;
impl CommandHandler for Len {
    fn push(&mut self, d: &mut Vec<u8>, b: u8) -> bool { if d.is_empty() || d.len() <= d[0] as usize { d.push(b); true } else { false } }
}
#[derive(Clone)] struct Till { done: bool }
impl CommandHandler for Till {
    fn push(&mut self, d: &mut Vec<u8>, b: u8) -> bool { if self.done { return false; } d.push(b); self.done = b == 0; true }
}
#[derive(Clone)] struct Keep { left: u8 }
impl CommandHandler for Keep {
    fn push(&mut self, d: &mut Vec<u8>, b: u8) -> bool { if self.left == 0 { return false; } self.left -= 1; d.push(b); true }
}
#[derive(Clone)] struct Sub;
impl CommandHandler for Sub {
    fn push(&mut self, d: &mut Vec<u8>, b: u8) -> bool { Len.push(d, b) }
    fn get_subcommand(&mut self, d: &[u8]) -> Option<Command> {
        if !sub_ok(d) { return None; }
        let mut c = Command::new(&format!("s{}", d[1]), d[..2].to_vec(), CommandType::Context, DataType::Custom, Box::new(Plain));
        c.data = d[2..].to_vec();
        Some(c)
    }
}
/// complete, and of a function the handler supports
fn sub_ok(d: &[u8]) -> bool { d.len() >= 2 && d.len() == d[0] as usize + 1 && d[1] % 2 == 0 }

#[derive(Clone)] struct Def { op: Vec<u8>, how: u8 }
struct Set { unknown: Vec<u8>, defs: Vec<Def> }

fn pack(s: &Set) -> Vec<u8> {
    let mut v = vec![s.unknown.len() as u8];
    v.extend(&s.unknown);
    for d in &s.defs { v.push(d.op.len() as u8); v.extend(&d.op); v.push(d.how) }
    v
}
fn unpack(b: &[u8]) -> Set {
    let n = b[0] as usize;
    let mut s = Set { unknown: b[1..=n].to_vec(), defs: vec![] };
    let mut i = n + 1;
    while i < b.len() { let k = b[i] as usize; s.defs.push(Def { op: b[i + 1..=i + k].to_vec(), how: b[i + k + 1] }); i += k + 2 }
    s
}

fn build(s: &Set, order: &[usize]) -> CommandSet {
    let cmd = |i: usize| {
        let d = &s.defs[i];
        let (k, h): (DataType, Box<dyn CommandHandler>) = match d.how {
            0 => (DataType::Empty, Box::new(Plain)), 1 => (DataType::Single, Box::new(Plain)), 2 => (DataType::Double, Box::new(Plain)),
            3 => (DataType::Triple, Box::new(Plain)), 4 => (DataType::Quad, Box::new(Plain)), 5 => (DataType::Octet, Box::new(Plain)),
            LEN => (DataType::Custom, Box::new(Len)), TILL => (DataType::Custom, Box::new(Till { done: false })),
            SUB => (DataType::Subcommand, Box::new(Sub)), _ => (DataType::Custom, Box::new(Keep { left: KEPT })),
        };
        let kind = match d.how { SUB => CommandType::Subcommand, _ => match i % 5 { 0 => CommandType::Control, 1 => CommandType::TextStyle, 2 => CommandType::Graphics, 3 => CommandType::Context, _ => CommandType::ContextControl } };
        Command::new(&format!("c{}", i), d.op.clone(), kind, k, h)
    };
    CommandSet {
        commands: Box::new(order.iter().map(|i| cmd(*i)).collect()),
        default: Command::new("text", vec![], CommandType::Text, DataType::Text, Box::new(Plain)),
        unknown: Command::new("unknown", s.unknown.clone(), CommandType::Unknown, DataType::Unknown, Box::new(Unknown)),
        begin_parsing: Command::new("begin", vec![], CommandType::Control, DataType::Empty, Box::new(Plain)),
        end_parsing: Command::new("end", vec![], CommandType::Control, DataType::Empty, Box::new(Plain)),
    }
}
/// The opcode list of the unknown command says which bytes start one, it is no part of it.
#[derive(Clone)] struct Unknown;
impl CommandHandler for Unknown {
    fn get_command_bytes(&self, c: &Command) -> (Vec<u8>, Vec<u8>) { (vec![], c.data.clone()) }
}

struct Piece { name: String, start: usize, end: usize, op: usize }

fn params(how: u8, p: &[u8]) -> usize {
    let n = match how {
        0..=4 => how as usize, 5 => 8,
        LEN | SUB => if p.is_empty() { 1 } else { 1 + p[0] as usize },
        TILL => p.iter().position(|b| *b == 0).map(|i| i + 1).unwrap_or(p.len()),
        _ => KEPT as usize,
    };
    n.min(p.len())
}

/// The reference: where the pieces of the stream begin and end, and what each is.
fn split(s: &Set, b: &[u8]) -> Vec<Piece> {
    let mut out: Vec<Piece> = vec![];
    let mut i = 0;
    let mut open = false; // the last piece goes on with bytes that start nothing
    while i < b.len() {
        if let Some((k, d)) = s.defs.iter().enumerate().find(|(_, d)| b[i..].starts_with(&d.op)) {
            let n = params(d.how, &b[i + d.op.len()..]);
            let (start, op, end) = (i, d.op.len(), i + d.op.len() + n);
            let data = &b[start + op..end];
            let (name, op) = if d.how != SUB { (format!("c{}", k), op) } else if sub_ok(data) { (format!("s{}", data[1]), op + 2) } else { ("unknown".to_string(), 0) };
            out.push(Piece { name, start, end, op });
            i = end;
            open = false;
            continue;
        }
        // the longest start of a command that is here, which the next byte or the end of the stream breaks off
        let k = s.defs.iter().map(|d| d.op.iter().zip(&b[i..]).take_while(|(x, y)| x == y).count()).max().unwrap_or(0);
        if s.unknown.contains(&b[i]) {
            let end = (i + k + 1).min(b.len());
            out.push(Piece { name: "unknown".to_string(), start: i, end, op: 0 });
            i = end;
        } else {
            let end = i + k.max(1);
            if open { out.last_mut().unwrap().end = end } else { out.push(Piece { name: "text".to_string(), start: i, end, op: 0 }) }
            i = end;
        }
        open = true;
    }
    out
}

/// The built-in set with one command added: it takes its bytes, and everything around it is parsed as without it.
fn eval_extended(c: &Case) -> Verdict {
    let mut o = Obs::default();
    let (def, before, own, after) = (unpack(&c.data[0]), &c.data[1], &c.data[2], &c.data[3]);
    let plain = |b: &Vec<u8>| -> Vec<(String, Vec<u8>, Vec<u8>)> {
        let v = thermal_parser::parse_esc_pos(b);
        v[1..v.len() - 1].iter().map(|c| (c.name.to_string(), c.commands.to_vec(), c.data.clone())).collect()
    };
    let mut want = plain(before);
    want.push(("c0".to_string(), def.defs[0].op.clone(), own[def.defs[0].op.len()..].to_vec()));
    want.extend(plain(after));
    let mut set = thermal_parser::command_sets::esc_pos::new();
    let mine = build(&def, &[0]).commands.remove(0);
    let at = c.data[4][0] as usize % (set.commands.len() + 1);
    set.commands.insert(at, mine);
    let all = [&before[..], own, after].concat();
    let v = Parser::new(set).parse_bytes(&all);
    let got: Vec<(String, Vec<u8>, Vec<u8>)> = v[1..v.len() - 1].iter().map(|c| (c.name.to_string(), c.commands.to_vec(), c.data.clone())).collect();
    if let Some(i) = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)) {
        let f = |x: Option<&(String, Vec<u8>, Vec<u8>)>| x.map(|x| format!("{} {} {}", x.0, hex(&x.1), hex(&x.2))).unwrap_or("nothing".into());
        return Err(format!("with {} added to the built-in set, command {} should be {}, it is {}\nstream {}", hex(&def.defs[0].op), i, f(want.get(i)), f(got.get(i)), show(&all)));
    }
    for g in &got { o.state(fnv(g.0.as_bytes(), 1)) }
    o.add("built_in_commands_around_an_own_one", got.len() as u64);
    Ok(o)
}

pub fn eval25(c: &Case) -> Verdict {
    if c.family == "extended" { return eval_extended(c); }
    let mut o = Obs::default();
    let s = unpack(&c.data[0]);
    let straight: Vec<usize> = (0..s.defs.len()).collect();
    let mut other = straight.clone();
    let mut r = Rng::new(c.hash());
    for i in (1..other.len()).rev() { let j = r.below(i + 1); other.swap(i, j) }
    // one parser takes all the streams one after another, another has the same commands in another order
    let mut parsers = [Parser::new(build(&s, &straight)), Parser::new(build(&s, &other))];
    for (n, b) in c.data[1..].iter().enumerate() {
        let want = split(&s, b);
        for (which, p) in parsers.iter_mut().enumerate() {
            let at = || format!("\nset {}\nunknown starts {}\nstream {} {}", s.defs.iter().enumerate().map(|(i, d)| format!("c{}={}:{}", i, hex(&d.op), d.how)).collect::<Vec<_>>().join(" "), hex(&s.unknown), n, show(b));
            let got = p.parse_bytes(b);
            let names: Vec<&str> = got.iter().map(|c| c.name.as_str()).collect();
            if names.first() != Some(&"begin") || names.last() != Some(&"end") || got.len() < 2 { return Err(format!("the stream is not framed by the begin and the end command: {:?}{}", names, at())); }
            for g in [&got[0], &got[got.len() - 1]] { if !g.data.is_empty() { return Err(format!("the {} command carries {}{}", g.name, hex(&g.data), at())); } }
            for i in 0..(got.len() - 2).max(want.len()) {
                let (g, w) = (got[1..got.len() - 1].get(i), want.get(i));
                let bytes = |g: &Command| { let (a, d) = g.handler.get_command_bytes(g); [a, d].concat() };
                match (g, w) {
                    (Some(g), Some(w)) => {
                        let wb = &b[w.start..w.end];
                        if g.name.as_str() != w.name || bytes(g) != wb {
                            return Err(format!("piece {} should be {} {}, the parser over the {} reported {} {}{}", i, w.name, hex(wb), ["set", "set in another order"][which], g.name, hex(&bytes(g)), at()));
                        }
                        let data = &b[w.start + w.op..w.end];
                        if g.data != data { return Err(format!("{} {} should carry the parameters {}, it carries {}{}", w.name, hex(wb), hex(data), hex(&g.data), at())); }
                        match w.name.as_bytes()[0] { b't' => o.add("text_runs", 1), b'u' => o.add("unknown_runs", 1), b's' => o.add("commands_selected_by_their_data", 1), _ => o.add("commands_compared", 1) }
                        o.state(fnv(&[w.name.as_bytes()[0], w.op.min(9) as u8, (w.end - w.start).min(20) as u8], want.get(i + 1).map(|x| x.name.as_bytes()[0]).unwrap_or(0) as u64));
                    }
                    (Some(g), None) => return Err(format!("the parser reported {} {} beyond the last piece{}", g.name, hex(&bytes(g)), at())),
                    (None, Some(w)) => return Err(format!("the parser reported {} pieces, the next should be {} {}{}", i, w.name, hex(&b[w.start..w.end]), at())),
                    _ => {}
                }
            }
            o.add("bytes_parsed", b.len() as u64);
            o.add("streams_parsed", 1);
        }
    }
    o.trivial = s.defs.is_empty() || c.data[1..].iter().all(|b| b.is_empty());
    Ok(o)
}

/// A set in which no opcode is the start of another.
fn any_set(r: &mut Rng, al: &[u8], most: usize, longest: usize) -> Set {
    let mut defs: Vec<Def> = vec![];
    let want = 1 + r.below(most);
    for _ in 0..want * 3 {
        if defs.len() == want { break; }
        let n = 1 + r.below(longest);
        let mut op: Vec<u8> = (0..n).map(|_| *r.pick(al)).collect();
        // opcodes that share a start with another
        if !defs.is_empty() && r.chance(1, 2) { let o = r.pick(&defs).op.clone(); let k = r.below(o.len() + 1).min(n); op[..k].copy_from_slice(&o[..k]); }
        if defs.iter().all(|d| !d.op.starts_with(&op) && !op.starts_with(&d.op)) { defs.push(Def { op, how: r.below(KINDS as usize) as u8 }) }
    }
    let k = r.below(4).min(al.len());
    let mut unknown: Vec<u8> = (0..k).map(|_| *r.pick(al)).collect();
    unknown.sort();
    unknown.dedup();
    Set { unknown, defs }
}

fn any_stream(r: &mut Rng, s: &Set, al: &[u8], steps: usize, big: bool) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..steps {
        match r.below(10) {
            0 | 1 => { let n = 1 + r.below(5); for _ in 0..n { v.push(*r.pick(al)) } }
            2 => { let n = 1 + r.below(4); v.extend(r.bytes(n)) }
            3 | 4 if !s.defs.is_empty() => { let d = r.pick(&s.defs).clone(); let k = 1 + r.below(d.op.len()); v.extend(&d.op[..k]); if r.chance(1, 2) { v.push(*r.pick(al)) } }
            5 if !s.unknown.is_empty() => v.push(*r.pick(&s.unknown)),
            _ if !s.defs.is_empty() => {
                let d = r.pick(&s.defs).clone();
                v.extend(&d.op);
                let fill = |r: &mut Rng, v: &mut Vec<u8>, n: usize| for _ in 0..n { let b = if r.chance(1, 2) { *r.pick(al) } else { r.byte() }; v.push(b) };
                let n = if big && r.chance(1, 3) { 100 + r.below(156) } else { r.below(7) };
                match d.how {
                    0..=4 => fill(r, &mut v, d.how as usize), 5 => fill(r, &mut v, 8), KEEP => fill(r, &mut v, KEPT as usize),
                    LEN => { v.push(n as u8); fill(r, &mut v, n) }
                    SUB => { v.push(n as u8); if n > 0 { v.push(r.below(4) as u8); fill(r, &mut v, n - 1) } }
                    _ => { let at = v.len(); fill(r, &mut v, n); for b in &mut v[at..] { if *b == 0 { *b = 1 } } v.push(0) }
                }
            }
            _ => v.push(*r.pick(al)),
        }
    }
    v
}

pub fn run25(x: &mut Ctx) {
    let n = x.n(60_000, 4_000_000);
    x.family("small-alphabet", n, |r, _| {
        let al: Vec<u8> = (0..2 + r.below(4)).map(|i| *r.pick(&[0x1bu8, 0x1d, b'a', b'b', 0, 1, 2, 0xff, b'(']) ^ (i as u8 & 0)).collect();
        let s = any_set(r, &al, 6, 4);
        let mut d = vec![pack(&s)];
        for _ in 0..1 + r.below(3) { let k = 1 + r.below(12); let mut v = any_stream(r, &s, &al, k, false); if r.chance(1, 3) { let n = r.below(v.len() + 1); v.truncate(n) } d.push(v) }
        Some(Case::new("small-alphabet", d))
    });
    let n = x.n(20_000, 1_500_000);
    x.family("large-set", n, |r, _| {
        let al: Vec<u8> = { let k = 8 + r.below(24); r.bytes(k) };
        let most = if r.chance(1, 8) { 300 } else { 60 };
        let s = any_set(r, &al, most, 6);
        let mut d = vec![pack(&s)];
        for _ in 0..1 + r.below(3) { let k = 1 + r.below(30); let big = r.chance(1, 4); let mut v = any_stream(r, &s, &al, k, big); if r.chance(1, 3) { let n = r.below(v.len() + 1); v.truncate(n) } d.push(v) }
        Some(Case::new("large-set", d))
    });
    let n = x.n(3_000, 200_000);
    x.family("long-opcodes", n, |r, _| {
        let al: Vec<u8> = (0..2 + r.below(3)).map(|_| r.byte()).collect();
        let s = any_set(r, &al, 8, if r.clone().chance(1, 10) { 250 } else { 40 });
        let mut d = vec![pack(&s)];
        for _ in 0..1 + r.below(2) { let k = 1 + r.below(12); let mut v = any_stream(r, &s, &al, k, false); if r.chance(1, 3) { let n = r.below(v.len() + 1); v.truncate(n) } d.push(v) }
        Some(Case::new("long-opcodes", d))
    });
    let n = x.n(20_000, 1_500_000);
    x.family("extended", n, |r, _| {
        use crate::grammar::{CUSTOM, FIXED};
        let op = loop {
            let k = 1 + r.below(4);
            let op: Vec<u8> = (0..k).map(|i| if i == 0 { *r.pick(&[0x1bu8, 0x1d, 0x1c, 0x10, 0x18, 0x01, 0x7f]) } else { r.byte() }).collect();
            if FIXED.iter().map(|f| f.0).chain(CUSTOM.iter().copied()).all(|o| !o.starts_with(&op) && !op.starts_with(o)) { break op; }
        };
        let how = loop { let h = r.below(KINDS as usize) as u8; if h != SUB { break h; } };
        let s = Set { unknown: vec![], defs: vec![Def { op, how }] };
        let mut own = s.defs[0].op.clone();
        match how { LEN => { own.push(3); own.extend(r.bytes(3)) } TILL => own.extend(b"\x1b@\0"), KEEP => own.extend(r.bytes(KEPT as usize)), 5 => own.extend(r.bytes(8)), h => own.extend(r.bytes(h as usize)) }
        let part = |r: &mut Rng| -> Vec<u8> {
            // whole commands and plain text, with a command at its end
            let mut v = vec![];
            for _ in 0..r.below(5) { if r.chance(1, 3) { v.extend(b"ab c") } let o = { let n = r.below(FIXED.len() + CUSTOM.len()); if n < FIXED.len() { FIXED[n].0 } else { CUSTOM[n - FIXED.len()] } }; v.extend(super::c0203::any_command(r, o)) }
            v
        };
        let (a, b) = (part(r), part(r));
        // the added command must not be met inside, where the built-in set sees something else
        let clash = |v: &Vec<u8>| v.windows(s.defs[0].op.len()).any(|w| w == &s.defs[0].op[..]);
        if clash(&a) || clash(&b) { return None; }
        let b = if r.chance(1, 2) { [b"text".to_vec(), b].concat() } else { b };
        Some(Case::new("extended", vec![pack(&s), a, own, b, vec![r.byte()]]))
    });
    // every way of taking parameters, cut after every byte, followed by text and by a command
    let n = x.n(1, 40) * KINDS as usize * 24;
    x.family("cut-parameters", n, |r, i| {
        let how = (i % KINDS as usize) as u8;
        let s = Set { unknown: if r.chance(1, 2) { vec![0x1b] } else { vec![] }, defs: vec![Def { op: vec![0x1b, b'A'], how }, Def { op: vec![0x1b, b'B'], how: r.below(6) as u8 }] };
        let mut v = any_stream(r, &Set { unknown: vec![], defs: vec![s.defs[0].clone()] }, b"x", 1, false);
        v.splice(0..0, b"\x1bA\x06\x02abcde".to_vec());
        let full = v.clone();
        v.truncate((i / KINDS as usize) % (full.len() + 1));
        Some(Case::new("cut-parameters", vec![pack(&s), v.clone(), [full, b"text\x1bB12345678t".to_vec()].concat(), v]))
    });
    // an alphabet of three bytes: every stream of a length over many sets
    let len = if x.thorough { 8 } else { 6 };
    let total = 3usize.pow(len);
    let sets = x.n(40, 400);
    x.family("exhaustive-short", total * sets / 8, |r, i| {
        let al = [0x1bu8, b'a', 0];
        let mut rs = Rng::new(7 + (i % sets) as u64);
        let s = any_set(&mut rs, &al, 5, 4);
        let mut d = vec![pack(&s)];
        let _ = r.byte();
        for j in 0..8 { let mut k = i / sets * 8 + j; if k >= total { break; } let mut v = vec![]; for _ in 0..len { v.push(al[k % 3]); k /= 3 } d.push(v) }
        Some(Case::new("exhaustive-short", d))
    });
}
