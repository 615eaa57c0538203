mod barcodes;
mod bulk;
mod checks;
mod cmp;
mod css;
mod core;
mod e2e;
mod gen;
mod grammar;
mod html;
mod model;
mod paint;
mod qr;
mod rec;
mod rng;
mod samples;
mod tables;

use crate::core::*;

#[global_allocator]
static ALLOCATOR: checks::cost::Counting = checks::cost::Counting;
use std::sync::atomic::Ordering;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn cpu_seconds() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: f64 = f.get(11).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) + f.get(12).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    t / 100.0
}

/// Aborts the process when one case burns more than `limit` CPU seconds.
fn watchdog(limit: f64) {
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0.0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(1000));
            let n = CASE_NO.load(Ordering::Relaxed);
            let t = cpu_seconds();
            if n != last.0 { last = (n, t); } else if t - last.1 > limit { std::process::abort(); }
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).map(|s| s.as_str()).unwrap_or("");
    install_panic_hook();
    match mode {
        "run" => {
            let prop = arg(&args, "--prop").expect("--prop");
            let out = arg(&args, "--out").expect("--out");
            let shard: usize = arg(&args, "--shard").unwrap_or("0".into()).parse().unwrap();
            let nshards: usize = arg(&args, "--nshards").unwrap_or("1".into()).parse().unwrap();
            let seed: u64 = arg(&args, "--seed").unwrap_or("1".into()).parse().unwrap();
            let secs: u64 = arg(&args, "--secs").unwrap_or("100".into()).parse().unwrap();
            let skip_to: u64 = arg(&args, "--skip").unwrap_or("0".into()).parse().unwrap();
            let thorough = arg(&args, "--tier").unwrap_or_default() == "thorough";
            let c = checks::all().into_iter().find(|c| c.id == prop).expect("unknown property");
            let mut ctx = Ctx { prop: prop.clone(), seed, thorough, quick: c.quick, shard, nshards, skip_to, report: Report::default(), eval: c.eval,
                current: arg(&args, "--current").map(|p| p.into()), counter: 0,
                deadline: std::time::Instant::now() + std::time::Duration::from_secs(secs), stopped: false, history: None };
            watchdog(if prop == "C20" { 60.0 } else { 30.0 });
            let child = std::thread::Builder::new().stack_size(64 << 20).spawn(move || { (c.run)(&mut ctx); ctx.report.to_json(&ctx.prop) }).unwrap();
            let js = child.join().expect("harness failure");
            std::fs::write(out, js).unwrap();
        }
        // some cases of a run again, in a new process: does the last one still fail?
        "history" => {
            let prop = arg(&args, "--prop").expect("--prop");
            let num = |n: &str, d: u64| arg(&args, n).map(|s| s.parse().unwrap()).unwrap_or(d);
            let ranges = arg(&args, "--ranges").expect("--ranges").split(',').map(|r| { let (a, b) = r.split_once('-').unwrap_or((r, r)); (a.parse().unwrap(), b.parse().unwrap()) }).collect();
            let c = checks::all().into_iter().find(|c| c.id == prop).expect("unknown property");
            let mut ctx = Ctx { prop: prop.clone(), seed: num("--seed", 1), thorough: arg(&args, "--tier").unwrap_or_default() == "thorough", quick: c.quick,
                shard: num("--shard", 0) as usize, nshards: num("--nshards", 1) as usize, skip_to: 0, report: Report::default(), eval: c.eval, current: None, counter: 0,
                deadline: std::time::Instant::now(), stopped: false, history: Some(History { ranges, cases: vec![], verdict: None }) };
            watchdog(40.0);
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || { (c.run)(&mut ctx); ctx.history.unwrap() }).unwrap().join().expect("harness failure");
            if let Some(f) = arg(&args, "--dump") {
                let n = h.cases.len();
                let last = h.verdict.clone().unwrap_or_default();
                let text: String = h.cases.iter().enumerate().map(|(i, c)| c.to_text(&prop, if i + 1 == n { &last } else { "" })).collect::<Vec<_>>().join("next\n");
                std::fs::write(f, text).unwrap();
            }
            match h.verdict { None => eprintln!("REPLAY-OK"), Some(e) => { eprintln!("REPLAY-VIOLATED {}", e); std::process::exit(1); } }
        }
        "replay" => {
            // cases separated by "next" run one after the other, the last one decides
            let t = std::fs::read_to_string(&args[2]).unwrap();
            let cases: Vec<(String, Case)> = t.split("\nnext\n").map(Case::from_text).collect();
            let prop = cases.last().unwrap().0.clone();
            let c = checks::all().into_iter().find(|c| c.id == prop).expect("unknown property");
            watchdog(if prop == "C20" { 150.0 } else { 40.0 });
            let res = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let mut res = Ok(Obs::default());
                for (_, case) in &cases {
                    CASE_NO.fetch_add(1, Ordering::Relaxed);
                    res = match guarded(|| (c.eval)(case)) { Ok(v) => v, Err(p) => Err(p) };
                }
                res
            }).unwrap().join().unwrap();
            match res {
                Ok(_) => { eprintln!("REPLAY-OK"); }
                Err(e) => { eprintln!("REPLAY-VIOLATED {}", e); std::process::exit(1); }
            }
        }
        "digest" => {
            let (p, o) = (args[2].clone(), args[3].clone());
            watchdog(30.0);
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || checks::repeat::digest_main(&p, &o)).unwrap().join().unwrap();
        }
        _ => { eprintln!("usage: vh run|replay"); std::process::exit(2); }
    }
}
