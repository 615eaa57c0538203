//! Reference splitter: where commands begin and end, written from the ESC/POS formats
//! (opcode table and parameter lengths), independently of the parser under test.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Text, Unknown, Cmd }

#[derive(Clone, Debug)]
pub struct Item {
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
    /// opcode length of a recognised command
    pub op: usize,
}
impl Item {
    pub fn opcode<'a>(&self, b: &'a [u8]) -> &'a [u8] { &b[self.start..self.start + self.op] }
    pub fn params<'a>(&self, b: &'a [u8]) -> &'a [u8] { &b[self.start + self.op..self.end] }
}

/// Every recognised opcode with its fixed parameter count.
pub const FIXED: &[(&[u8], usize)] = &[
    (b"\x18@", 0), (b"\x0d", 0), (b"\x1b2", 0), (b"\x0c", 0), (b"\x09", 0), (b"\x1b@", 0), (b"\x0a", 0),
    (b"\x1bc3", 1), (b"\x1bc4", 1), (b"\x1bc5", 1),
    (b"\x1bd", 1), (b"\x1bJ", 1), (b"\x1be", 1), (b"\x1bp", 3),
    (b"\x1b$", 2), (b"\x1br", 1), (b"\x1dh", 1), (b"\x1dw", 1), (b"\x1dB", 1), (b"\x1d!", 1), (b"\x1bt", 1), (b"\x1bG", 1), (b"\x1bE", 1),
    (b"\x1bM", 1), (b"\x1dP", 2), (b"\x1df", 1), (b"\x1dH", 1), (b"\x1bR", 1), (b"\x1b4", 1), (b"\x1ba", 1), (b"\x1b3", 1), (b"\x1b=", 1),
    (b"\x1b!", 1), (b"\x1d\\", 2), (b"\x1db", 1), (b"\x1bD", 2), (b"\x1b-", 1), (b"\x1b{", 1), (b"\x1dI", 1), (b"\x1bL", 0), (b"\x1d$", 2),
    (b"\x1bW", 8), (b"\x1bT", 1), (b"\x1b\x0c", 0), (b"\x1bS", 0),
];
/// Commands whose length depends on their parameters.
pub const CUSTOM: &[&[u8]] = &[b"\x1dk", b"\x1b*", b"\x1dv0", b"\x1dV", b"\x1d(G", b"\x1d(N", b"\x1d(L", b"\x1d(k", b"\x1d8L", b"\x1d(H"];

/// Total length (opcode included) of the command with this opcode at the start of `b`, cut at the end of the stream.
pub fn command_len(op: &[u8], b: &[u8]) -> usize {
    let p = &b[op.len()..];
    let at = |i: usize| p.get(i).copied();
    let le2 = |i: usize| at(i).unwrap_or(0) as usize + 256 * at(i + 1).unwrap_or(0) as usize;
    let n = match op {
        b"\x1dk" => match at(0) {
            None => 0,
            Some(0..=6) => match p[1..].iter().position(|b| *b == 0) { Some(i) => 2 + i, None => p.len() },
            Some(65..=79) => 2 + at(1).unwrap_or(0) as usize,
            _ => 1,
        },
        b"\x1b*" => if p.len() < 3 { 3 } else { 3 + le2(1) * if at(0) == Some(32) || at(0) == Some(33) { 3 } else { 1 } },
        b"\x1dv0" => if p.len() < 5 { 5 } else { 5 + le2(1) * le2(3) },
        b"\x1dV" => match at(0) { Some(0 | 48 | 1 | 49) => 1, _ => 2 },
        b"\x1d(G" | b"\x1d(N" | b"\x1d(L" | b"\x1d(k" | b"\x1d(H" => if p.len() < 2 { 2 } else { 2 + le2(0) },
        b"\x1d8L" => if p.len() < 4 { 4 } else { 4 + le2(0) + 65536 * le2(2) },
        _ => match FIXED.iter().find(|f| f.0 == op) { Some(f) => f.1, None => 0 },
    };
    op.len() + n.min(p.len())
}

pub enum Lookup<'a> { Op(&'a [u8]), Prefix, None }

fn ops() -> impl Iterator<Item = &'static [u8]> { FIXED.iter().map(|f| f.0).chain(CUSTOM.iter().copied()) }

/// The opcode that starts at b, or how far b is a proper prefix of one: (matched length, whole stream consumed).
fn lookup(b: &[u8]) -> Result<&'static [u8], (usize, bool)> {
    let mut k = 0;
    loop {
        if k >= b.len() { return Err((k, true)); }
        if !ops().any(|o| o.len() > k && o[..=k] == b[..=k]) { return Err((k, false)); }
        k += 1;
        if let Some(o) = ops().find(|o| *o == &b[..k]) { return Ok(o); }
    }
}

pub fn split(b: &[u8]) -> Vec<Item> {
    let mut out: Vec<Item> = vec![];
    let mut i = 0;
    // a run of text or unknown bytes is extended by bytes that start nothing
    while i < b.len() {
        match lookup(&b[i..]) {
            Ok(op) => {
                let n = command_len(op, &b[i..]);
                out.push(Item { kind: Kind::Cmd, start: i, end: i + n, op: op.len() });
                i += n;
            }
            Err((k, at_end)) => {
                let unknown = matches!(b[i], 0x10 | 0x1b | 0x1c | 0x1d);
                if unknown {
                    // the prefix and the byte that ended it
                    let end = if at_end { i + k } else { i + k + 1 };
                    out.push(Item { kind: Kind::Unknown, start: i, end, op: 0 });
                    i = end;
                } else {
                    let end = i + k.max(1);
                    match out.last_mut() {
                        Some(l) if l.kind != Kind::Cmd => l.end = end,
                        _ => out.push(Item { kind: Kind::Text, start: i, end, op: 0 }),
                    }
                    i = end;
                }
            }
        }
    }
    out
}
