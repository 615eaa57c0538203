//! Harness core: cases, verdicts, reports, panic capture.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

/// Violations a shard collects before it stops.
pub fn max_violations(prop: &str) -> usize { if prop == "C20" { 1 } else { 3 } }

/// One self-contained input of a check: the family says how to interpret the blobs.
#[derive(Clone, Debug)]
pub struct Case {
    pub family: String,
    pub data: Vec<Vec<u8>>,
}
impl Case {
    pub fn new(family: &str, data: Vec<Vec<u8>>) -> Case { Case { family: family.to_string(), data } }
    pub fn one(family: &str, d: Vec<u8>) -> Case { Case::new(family, vec![d]) }
    pub fn hash(&self) -> u64 {
        let mut h = fnv(self.family.as_bytes(), 0);
        for d in &self.data { h = fnv(d, h ^ d.len() as u64); }
        h
    }
    pub fn to_text(&self, prop: &str, detail: &str) -> String {
        let mut s = format!("property {}\nfamily {}\n", prop, self.family);
        for d in &self.data { s.push_str("blob "); s.push_str(&hex(d)); s.push('\n'); }
        for l in detail.lines() { s.push_str("# "); s.push_str(l); s.push('\n'); }
        s
    }
    pub fn from_text(t: &str) -> (String, Case) {
        let mut prop = String::new();
        let mut c = Case::new("", vec![]);
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("property ") { prop = x.trim().to_string() }
            else if let Some(x) = l.strip_prefix("family ") { c.family = x.trim().to_string() }
            else if let Some(x) = l.strip_prefix("blob") { c.data.push(unhex(x.trim())) }
        }
        (prop, c)
    }
}

pub fn fnv(d: &[u8], seed: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x100000001b3);
    for b in d { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}
pub fn hex(d: &[u8]) -> String {
    let mut s = String::with_capacity(d.len() * 2);
    for b in d { s.push_str(&format!("{:02x}", b)); }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let b: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    b.chunks(2).filter(|c| c.len() == 2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
/// Printable rendering of a byte stream for messages and samples.
pub fn show(d: &[u8]) -> String {
    let mut s = String::new();
    for (i, b) in d.iter().enumerate() {
        if i >= 160 { s.push_str(&format!("...({} bytes)", d.len())); break; }
        match b {
            0x1b => s.push_str("<ESC>"), 0x1d => s.push_str("<GS>"), 0x0a => s.push_str("<LF>"), 0x0c => s.push_str("<FF>"),
            0x20..=0x7e => s.push(*b as char),
            _ => s.push_str(&format!("<{:02x}>", b)),
        }
    }
    s
}

/// What one evaluation observed (for the evidence) when nothing was violated.
#[derive(Default, Debug)]
pub struct Obs {
    pub counters: Vec<(&'static str, u64)>,
    /// distinct behavioural states or situations seen
    pub states: Vec<u64>,
    pub trivial: bool,
}
impl Obs {
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n == 0 { return; }
        for c in self.counters.iter_mut() { if c.0 == k { c.1 += n; return; } }
        self.counters.push((k, n));
    }
    pub fn state(&mut self, h: u64) { self.states.push(h) }
}

pub type Verdict = Result<Obs, String>;

#[derive(Clone)]
pub struct Violation { pub case: Case, pub detail: String, pub index: u64 }

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub states: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub notes: Vec<String>,
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked: {} at {}", msg, loc));
    }));
}

/// Runs f, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

pub static CASE_NO: AtomicU64 = AtomicU64::new(0);

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    /// how many times the basic number of cases a quick run takes
    pub quick: usize,
    pub shard: usize,
    pub nshards: usize,
    pub skip_to: u64,
    pub report: Report,
    pub eval: fn(&Case) -> Verdict,
    pub current: Option<std::path::PathBuf>,
    pub counter: u64,
    pub deadline: std::time::Instant,
    pub stopped: bool,
    /// run only the cases with these numbers; the last of them decides
    pub history: Option<History>,
}
/// A few cases of a run once more, one after the other in one process.
pub struct History { pub ranges: Vec<(u64, u64)>, pub cases: Vec<Case>, pub verdict: Option<String> }

impl Ctx {
    /// Number of cases: quick or thorough.
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick * self.quick } }

    /// Runs cases idx=0..n of a family, sharded; `make` builds the case from a per-case rng.
    pub fn family(&mut self, name: &str, n: usize, mut make: impl FnMut(&mut Rng, usize) -> Option<Case>) {
        if std::env::var("VH_ONLY").is_ok_and(|f| !name.contains(&f)) { return; }
        let t0 = std::time::Instant::now();
        let before = self.report.evaluations;
        for i in 0..n {
            if i % self.nshards != self.shard { continue; }
            if self.stopped { return; }
            let seed = fnv(name.as_bytes(), fnv(self.prop.as_bytes(), self.seed)).wrapping_add((i as u64).wrapping_mul(0x9E3779B97F4A7C15));
            let mut r = Rng::new(seed);
            self.counter += 1;
            if self.counter <= self.skip_to { continue; }
            if let Some(h) = &self.history { if !h.ranges.iter().any(|(a, b)| (*a..=*b).contains(&self.counter)) { continue; } }
            if let Some(c) = make(&mut r, i) { self.run(c); }
        }
        if std::env::var("VH_TIMES").is_ok() { eprintln!("{} {}: {} evaluations in {} ms", self.prop, name, self.report.evaluations - before, t0.elapsed().as_millis()); }
    }

    pub fn run(&mut self, case: Case) {
        if let Some(h) = &mut self.history {
            CASE_NO.fetch_add(1, Ordering::Relaxed);
            let ev = self.eval;
            h.verdict = match guarded(|| ev(&case)) { Ok(Ok(_)) => None, Ok(Err(e)) | Err(e) => Some(e) };
            h.cases.push(case);
            return;
        }
        if std::time::Instant::now() > self.deadline {
            if !self.stopped { self.report.notes.push(format!("time budget reached after {} evaluations", self.report.evaluations)); }
            self.stopped = true;
            return;
        }
        if let Some(p) = &self.current {
            let _ = std::fs::write(p, format!("index {}\n{}", self.counter, case.to_text(&self.prop, "")));
        }
        CASE_NO.fetch_add(1, Ordering::Relaxed);
        let ev = self.eval;
        let res = match guarded(|| ev(&case)) { Ok(v) => v, Err(p) => Err(p) };
        self.report.evaluations += 1;
        *self.report.counters.entry(format!("family:{}", case.family)).or_insert(0) += 1;
        match res {
            Ok(o) => {
                for (k, n) in &o.counters { *self.report.counters.entry(k.to_string()).or_insert(0) += n; }
                for s in &o.states { self.report.states.insert(*s); }
                if !o.trivial && self.report.distinct.len() < 3_000_000 { self.report.distinct.insert(case.hash()); }
                let fam = self.report.counters[&format!("family:{}", case.family)];
                if fam <= 1 && self.shard == 0 && self.report.samples.len() < 24 {
                    let parts: Vec<String> = case.data.iter().map(|d| show(d)).collect();
                    self.report.samples.push(format!("{}: {}", case.family, parts.join(" || ")));
                }
            }
            Err(e) => {
                *self.report.counters.entry("violating_evaluations".into()).or_insert(0) += 1;
                if self.report.violations.len() < max_violations(&self.prop) {
                    let small = shrink(&case, ev);
                    let e2 = match guarded(|| ev(&small)) { Ok(Err(e)) => e, Err(p) => p, _ => e };
                    self.report.violations.push(Violation { case: small, detail: e2, index: self.counter });
                } else { self.stopped = true; }
            }
        }
    }
}

/// Greedy chunk removal, bounded effort; keeps any failure.
fn shrink(case: &Case, ev: fn(&Case) -> Verdict) -> Case {
    let mut best = case.clone();
    let mut evals = 0;
    let t0 = std::time::Instant::now();
    let fails = |c: &Case| -> bool { matches!(guarded(|| ev(c)), Ok(Err(_)) | Err(_)) };
    if best.family.contains('!') { return best; } // families whose blobs are not free-form
    for b in 0..best.data.len() {
        let mut chunk = (best.data[b].len() / 2).max(1);
        loop {
            let mut i = 0;
            let mut progressed = false;
            while i < best.data[b].len() {
                if evals > 400 || t0.elapsed().as_secs() > 6 { return best; }
                let mut c = best.clone();
                let e = (i + chunk).min(c.data[b].len());
                c.data[b].drain(i..e);
                evals += 1;
                if fails(&c) { best = c; progressed = true; } else { i += chunk; }
            }
            if chunk == 1 && !progressed { break; }
            if chunk > 1 { chunk /= 2; }
        }
    }
    best
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Report {
    pub fn to_json(&self, prop: &str) -> String {
        let mut s = String::from("{");
        s.push_str(&format!("\"evaluations\":{},", self.evaluations));
        s.push_str(&format!("\"distinct\":[{}],", self.distinct.iter().map(|h| format!("\"{:x}\"", h)).collect::<Vec<_>>().join(",")));
        s.push_str(&format!("\"states\":[{}],", self.states.iter().map(|h| format!("\"{:x}\"", h)).collect::<Vec<_>>().join(",")));
        s.push_str(&format!("\"counters\":{{{}}},", self.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",")));
        s.push_str(&format!("\"samples\":[{}],", self.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")));
        s.push_str(&format!("\"notes\":[{}],", self.notes.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")));
        s.push_str(&format!("\"violations\":[{}]", self.violations.iter().map(|v| format!("{{\"index\":{},\"detail\":{},\"case\":{}}}", v.index, jstr(&v.detail), jstr(&v.case.to_text(prop, &v.detail)))).collect::<Vec<_>>().join(",")));
        s.push('}');
        s
    }
}
