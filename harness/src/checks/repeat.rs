//! C19: the same bytes give the same result, whatever ran before, beside or around it.
use crate::core::*;
use crate::e2e;
use crate::gen::*;
use crate::checks::meta::{exhibit, settings, short};
use crate::rec::{self, Ev, Log};
use crate::rng::Rng;
use std::sync::{Arc, Barrier};
use thermal_parser::command::Command;
use thermal_parser::context::Context;
use thermal_parser::parser::Parser;
use thermal_renderer::html_renderer::HtmlRenderer;
use thermal_renderer::image_renderer::ImageRenderer;
use thermal_renderer::renderer::{DebugProfile, OutputRenderer, RenderOutput, Renderer};

const ALL: DebugProfile = DebugProfile { text: true, image: true, page: true, info: false };
const INFO: DebugProfile = DebugProfile { text: false, image: false, page: false, info: true };

fn kind(c: &Command) -> u8 {
    use thermal_parser::command::CommandType::*;
    match c.kind { Unknown => 0, Text => 1, Graphics => 2, Context => 3, ContextControl => 4, Control => 5, TextStyle => 6, Subcommand => 7, _ => 8 }
}
fn cmd(c: &Command) -> (String, Vec<u8>, Vec<u8>, String) {
    let cx = Context::new();
    (format!("{} {}", c.name, kind(c)), c.commands.to_vec(), c.data.clone(), c.handler.debug(c, &cx))
}
fn commands(b: &[u8]) -> Vec<(String, Vec<u8>, Vec<u8>, String)> { thermal_parser::parse_esc_pos(&b.to_vec()).iter().map(cmd).collect() }

#[derive(PartialEq, Clone)]
struct Drawn { out: Vec<(u32, u32, Vec<u8>)>, errors: Vec<String> }
fn image(r: RenderOutput<thermal_renderer::image_renderer::ReceiptImage>) -> Drawn {
    Drawn { out: r.output.into_iter().map(|o| (o.width, o.height, o.bytes)).collect(), errors: r.errors.iter().map(|e| format!("{:?}", e)).collect() }
}
fn html(r: RenderOutput<thermal_renderer::html_renderer::ReceiptHtml>) -> Drawn {
    Drawn { out: r.output.into_iter().map(|o| (0, 0, o.content.into_bytes())).collect(), errors: r.errors.iter().map(|e| format!("{:?}", e)).collect() }
}
fn differ(what: &str, a: &Drawn, b: &Drawn) -> Result<(), String> {
    if a.errors != b.errors { return Err(format!("{}: errors {:?}, on its own {:?}", what, a.errors, b.errors)); }
    if a.out.len() != b.out.len() { return Err(format!("{}: {} outputs, on its own {}", what, a.out.len(), b.out.len())); }
    for (x, y) in a.out.iter().zip(&b.out) {
        if (x.0, x.1) != (y.0, y.1) { return Err(format!("{}: {}x{} pixels, on its own {}x{}", what, x.0, x.1, y.0, y.1)); }
        if x.2 != y.2 {
            let k = x.2.iter().zip(&y.2).position(|(p, q)| p != q).unwrap_or(x.2.len().min(y.2.len()));
            let cut = |v: &Vec<u8>| String::from_utf8_lossy(&v[k.min(v.len())..(k + 40).min(v.len())]).into_owned();
            return Err(if x.0 > 0 { format!("{}: the pixel at {},{} differs from the one drawn on its own", what, k / 3 % x.0 as usize, k / 3 / x.0 as usize) }
                else { format!("{}: at byte {} there is {:?}, on its own {:?}", what, k, cut(&x.2), cut(&y.2)) });
        }
    }
    Ok(())
}
fn same_log(what: &str, a: &[Ev], b: &[Ev]) -> Result<(), String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() { if x != y { return Err(format!("{}: event {} is {}, on its own {}", what, i, short(x), short(y))); } }
    if a.len() != b.len() { return Err(format!("{}: {} events, on its own {}", what, a.len(), b.len())); }
    Ok(())
}

/// Everything the library says about one job, hashed.
pub fn digest(b: &[u8]) -> Vec<(&'static str, u64)> {
    let mut v = vec![];
    v.push(("the commands", fnv(format!("{:?}", commands(b)).as_bytes(), 1)));
    let r = rec::record(b);
    v.push(("the layout", fnv(format!("{:?}", r.log.ev).as_bytes(), 2)));
    v.push(("the errors", fnv(format!("{:?}", r.errors).as_bytes(), 3)));
    if e2e::small(&r.log) {
        let mut add = |n: &'static str, d: Drawn| { let mut h = fnv(format!("{:?}", d.errors).as_bytes(), 4); for o in &d.out { h = fnv(&o.2, h ^ o.0 as u64 ^ (o.1 as u64) << 32); } v.push((n, h)); };
        add("the image", image(ImageRenderer::render(&b.to_vec(), None)));
        add("the HTML", html(HtmlRenderer::render(&b.to_vec(), None)));
    }
    let (src, back) = {
        let src = thermal_parser::thermal_file::cmds_to_thermal(&thermal_parser::parse_esc_pos(&b.to_vec()));
        let back = thermal_parser::thermal_file::parse_str(&src);
        (src, back)
    };
    v.push(("the .thermal text", fnv(src.as_bytes(), 5)));
    v.push(("the compiled bytes", fnv(&back, 6)));
    v
}
/// `vh digest FILE`: digests of the jobs of a case in the order of the given indices.
pub fn digest_main(path: &str, order: &str) {
    let (_, c) = Case::from_text(&std::fs::read_to_string(path).unwrap());
    for k in order.split(',') {
        let i: usize = k.parse().unwrap();
        let d = guarded(|| digest(&c.data[i]));
        eprintln!("DIGEST {} {}", i, match d { Ok(d) => d.iter().map(|(n, h)| format!("{}={:x}", n.replace(' ', "_"), h)).collect::<Vec<_>>().join(" "), Err(e) => format!("panic={:x}", fnv(e.as_bytes(), 0)) });
    }
}
fn child(path: &std::path::Path, order: &[usize], env: &[(&str, &str)], cwd: &str) -> Result<Vec<(usize, String)>, String> {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("digest").arg(path).arg(order.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","));
    c.envs(env.iter().cloned()).current_dir(cwd).stdout(std::process::Stdio::null()).stdin(std::process::Stdio::null());
    let o = c.output().map_err(|e| format!("harness: {}", e))?;
    let t = String::from_utf8_lossy(&o.stderr).into_owned();
    if !o.status.success() { return Err(format!("a process rendering the jobs died: {}", t)); }
    Ok(t.lines().filter_map(|l| l.strip_prefix("DIGEST ")).map(|l| { let (a, b) = l.split_once(' ').unwrap(); (a.parse().unwrap(), b.to_string()) }).collect())
}

fn scratch(c: &Case) -> Result<(std::path::PathBuf, std::path::PathBuf), String> {
    let dir = std::env::temp_dir().join(format!("vh-c19-{}-{:x}", std::process::id(), c.hash()));
    std::fs::create_dir_all(&dir).map_err(|e| format!("harness: {}", e))?;
    let path = dir.join("jobs.case");
    std::fs::write(&path, c.to_text("C19", "")).map_err(|e| format!("harness: {}", e))?;
    Ok((dir, path))
}

/// A renderer whose layout is recorded while it works.
fn tee<O: 'static>(r: Box<dyn OutputRenderer<O>>, b: &[u8]) -> (Log, Vec<String>) {
    let log = std::rc::Rc::new(std::cell::RefCell::new(Log::default()));
    let mut w: Box<dyn OutputRenderer<O>> = Box::new(rec::Tee { rec: rec::Recorder { log: log.clone() }, inner: r });
    let out = Renderer::new(&mut w, DebugProfile::default()).render(&b.to_vec());
    let l = log.borrow().clone();
    (l, out.errors.iter().map(|e| format!("{:?}", e)).filter(|e| !e.contains("ChildRenderError")).collect())
}

pub fn eval19(c: &Case) -> Verdict {
    let mut o = Obs::default();
    let f = c.family.as_str();
    let jobs = || c.data.iter().enumerate().map(|(i, d)| format!("\njob {}: {}", i, show(d))).collect::<String>();
    let wrap = |r: Result<(), String>| r.map_err(|e| format!("{}{}", e, jobs()));
    let b = c.data.last().unwrap();
    match f {
        "parser" => {
            let mut p = Parser::new(thermal_parser::command_sets::esc_pos::new());
            for d in &c.data {
                let got: Vec<_> = p.parse_bytes(d).iter().map(cmd).collect();
                let want = commands(d);
                for (x, y) in got.iter().zip(&want) { if x != y { return Err(format!("a parser used before gives {:?}, a new one {:?}{}", x, y, jobs())); } }
                if got.len() != want.len() { return Err(format!("a parser used before gives {} commands, a new one {}{}", got.len(), want.len(), jobs())); }
                o.add("commands_compared", got.len() as u64);
                if let Some(c) = want.iter().rev().nth(1) { o.state(fnv(c.0.as_bytes(), 9)); }
            }
        }
        "layout" | "layout-both" => {
            // one Renderer object for all jobs against a new one for each
            let log = std::rc::Rc::new(std::cell::RefCell::new(Log::default()));
            let mut ch: Box<dyn OutputRenderer<usize>> = Box::new(rec::Recorder { log: log.clone() });
            let mut r = Renderer::new(&mut ch, DebugProfile::default());
            for d in &c.data {
                *log.borrow_mut() = Log::default();
                let out = r.render(d);
                let l = log.borrow().clone();
                let want = rec::record(d);
                wrap(same_log("with a renderer used before", &l.ev, &want.log.ev))?;
                let e: Vec<String> = out.errors.iter().map(|e| format!("{:?}", e)).collect();
                if e != want.errors || out.output.len() != want.outputs.len() { return Err(format!("errors {:?} and {} outputs with a renderer used before, on its own {:?} and {}{}", e, out.output.len(), want.errors, want.outputs.len(), jobs())); }
                o.add("events_compared", l.ev.len() as u64);
                if let Some(e) = l.ev.iter().rev().nth(1) { o.state(fnv(short(e).as_bytes(), 8)); }
            }
            // and once more, and with logging
            let want = rec::record(b);
            let again = rec::record(b);
            wrap(same_log("the second time", &again.log.ev, &want.log.ev))?;
            let info = rec::record_with(b, INFO);
            wrap(same_log("with informational logging", &info.log.ev, &want.log.ev))?;
            if info.errors != want.errors || again.errors != want.errors { return Err(format!("errors {:?} with logging, {:?} the second time, {:?} at first{}", info.errors, again.errors, want.errors, jobs())); }
            if f == "layout-both" && e2e::small(&want.log) {
                for (n, (l, e)) in [("the image renderer", tee(Box::new(ImageRenderer::new()), b)), ("the HTML renderer", tee(Box::new(HtmlRenderer::new()), b))] {
                    wrap(same_log(&format!("handed to {}", n), &l.ev, &want.log.ev))?;
                    if e != want.errors { return Err(format!("errors {:?} with {}, {:?} with another{}", e, n, want.errors, jobs())); }
                }
                o.add("layouts_of_both_renderers_compared", 1);
            }
        }
        "drawn" | "drawn-debug" | "drawn-same" => {
            if c.data.iter().any(|d| !e2e::small(&rec::record(d).log)) { o.trivial = true; o.add("too_large_to_paint", 1); return Ok(o); }
            let first = if f == "drawn-debug" { ALL } else { DebugProfile::default() };
            let (want_i, want_h) = (image(ImageRenderer::render(b, None)), html(HtmlRenderer::render(b, None)));
            let mut im: Box<dyn OutputRenderer<_>> = Box::new(ImageRenderer::new());
            let mut ht: Box<dyn OutputRenderer<_>> = Box::new(HtmlRenderer::new());
            let n = c.data.len();
            let (gi, gh, gi2, gh2);
            if f == "drawn-same" {
                let mut ri = Renderer::new(&mut im, first);
                let mut rh = Renderer::new(&mut ht, first);
                for d in &c.data[..n - 1] { ri.render(d); rh.render(d); }
                gi = image(ri.render(b)); gh = html(rh.render(b)); gi2 = image(ri.render(b)); gh2 = html(rh.render(b));
            } else {
                for d in &c.data[..n - 1] { Renderer::new(&mut im, first).render(d); Renderer::new(&mut ht, first).render(d); }
                gi = image(Renderer::new(&mut im, DebugProfile::default()).render(b));
                gh = html(Renderer::new(&mut ht, DebugProfile::default()).render(b));
                gi2 = image(Renderer::new(&mut im, INFO).render(b));
                gh2 = html(Renderer::new(&mut ht, INFO).render(b));
            }
            let after = if f == "drawn-debug" { "after a job drawn with debug marks" } else { "after another job" };
            wrap(differ(&format!("the image {}", after), &gi, &want_i))?;
            wrap(differ(&format!("the HTML {}", after), &gh, &want_h))?;
            wrap(differ(&format!("the image {} and again{}", after, if f == "drawn-same" { "" } else { " with informational logging" }), &gi2, &want_i))?;
            wrap(differ(&format!("the HTML {} and again{}", after, if f == "drawn-same" { "" } else { " with informational logging" }), &gh2, &want_h))?;
            let (fi, fh) = (image(ImageRenderer::render(b, Some(INFO))), html(HtmlRenderer::render(b, Some(INFO))));
            wrap(differ("the image with informational logging", &fi, &want_i))?;
            wrap(differ("the HTML with informational logging", &fh, &want_h))?;
            o.add("images_and_html_compared", 6);
            o.trivial = want_i.out.iter().all(|i| i.2.iter().all(|p| *p == 255));
            for i in &want_i.out { o.state(fnv(&i.2, i.0 as u64)); }
        }
        "threads" => {
            if c.data.iter().any(|d| !e2e::small(&rec::record(d).log)) { o.trivial = true; o.add("too_large_to_paint", 1); return Ok(o); }
            let want: Vec<_> = c.data.iter().map(|d| digest(d)).collect();
            let (data, n) = (Arc::new(c.data.clone()), 6);
            let bar = Arc::new(Barrier::new(n));
            let hs: Vec<_> = (0..n).map(|t| {
                let (data, bar) = (data.clone(), bar.clone());
                std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                    let mut v = vec![];
                    bar.wait();
                    for k in 0..data.len() { let i = (k + t) % data.len(); v.push((i, guarded(|| digest(&data[i])))); }
                    v
                }).unwrap()
            }).collect();
            let mut bad = None;
            for h in hs {
                for (i, d) in h.join().unwrap() {
                    match d {
                        Err(e) => bad = Some(format!("job {} beside others: {}", i, e)),
                        Ok(d) => for (x, y) in d.iter().zip(&want[i]) { if x != y { bad = Some(format!("{} of job {} rendered beside others differ from those rendered alone", x.0, i)); } o.add("digests_compared", 1); },
                    }
                }
            }
            if let Some(e) = bad { return Err(format!("{}{}", e, jobs())); }
            o.state(fnv(format!("{:?}", want).as_bytes(), 7));
        }
        "history!" => {
            // one process does all the jobs, one after the other; then each job has a process of its own
            let (dir, path) = scratch(c)?;
            let all: Vec<usize> = (0..c.data.len()).collect();
            let r = (|| {
                let long = child(&path, &all, &[], "/")?;
                for (i, d) in &long {
                    let alone = child(&path, &[*i], &[], "/")?;
                    o.add("jobs_compared_with_a_process_of_their_own", 1);
                    o.state(fnv(d.as_bytes(), 5));
                    if alone.len() == 1 && alone[0].1 == *d { continue; }
                    // which job before is to blame?
                    let what = |x: &str| x.split(' ').zip(alone[0].1.split(' ')).filter(|(a, b)| a != b).map(|(a, _)| a.split('=').next().unwrap().replace('_', " ")).collect::<Vec<_>>().join(", ");
                    for k in 0..*i {
                        let two = child(&path, &[k, *i], &[], "/")?;
                        if two[1].1 != alone[0].1 { return Err(format!("{} of one job differ when another ran before it in the process\nbefore: {}\njob: {}", what(&two[1].1), show(&c.data[k]), show(&c.data[*i]))); }
                    }
                    return Err(format!("{} of a job differ from those in a process of its own after {} other jobs\njob: {}", what(d), i, show(&c.data[*i])));
                }
                if long.len() != all.len() { return Err(format!("harness: {} digests of {} jobs", long.len(), all.len())); }
                Ok(())
            })();
            let _ = std::fs::remove_file(&path);
            let _ = std::fs::remove_dir(&dir);
            r?;
        }
        _ => {
            // separate processes, each job first in one of them
            let (dir, path) = scratch(c)?;
            let n = c.data.len();
            let up: Vec<usize> = (0..n).collect();
            let down: Vec<usize> = (0..n).rev().collect();
            let mut runs = vec![];
            runs.push(child(&path, &up, &[], "/"));
            runs.push(child(&path, &down, &[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Tokyo"), ("COLUMNS", "20"), ("RUST_BACKTRACE", "1"), ("DEBUG", "1"), ("RUST_LOG", "trace"), ("HOME", "/nonexistent")], &dir.to_string_lossy()));
            let _ = std::fs::remove_file(&path);
            let _ = std::fs::remove_dir(&dir);
            let mut rows = vec![vec![]; n];
            for r in runs { for (i, d) in r.map_err(|e| format!("{}{}", e, jobs()))? { rows[i].push(d); } }
            for (i, d) in c.data.iter().enumerate() {
                let here = digest(d).iter().map(|(n, h)| format!("{}={:x}", n.replace(' ', "_"), h)).collect::<Vec<_>>().join(" ");
                if rows[i].len() != 2 { return Err(format!("harness: {} digests of job {}", rows[i].len(), i)); }
                for r in &rows[i] { if *r != here { return Err(format!("job {} gives {} here and {} in another process, after other jobs{}", i, here, r, jobs())); } o.add("processes_compared", 1); }
                o.state(fnv(here.as_bytes(), 6));
            }
        }
    }
    Ok(o)
}

/// A job that leaves something open or set at its end.
fn leaving(r: &mut Rng) -> Vec<u8> {
    let mut c = swarm(r, &Cfg::all());
    c.hostile = r.chance(1, 4);
    c.unknown = r.below(2);
    let k = r.below(12);
    let mut v = job(r, &c, k);
    if r.chance(1, 2) { v.extend(settings(r)); }
    match r.below(12) {
        0 => v.extend(text(r, false)),
        1 => { v.extend(b"\x1bL\x1bT"); v.push(r.below(4) as u8); v.extend(text(r, false)) }
        2 => { let k = r.below(v.len() + 1); v.truncate(k) }
        3 => { let mut t = vec![]; crate::gen::image(r, &mut t, &Cfg { img: 32, ..Cfg::zero() }); let k = r.below(t.len() + 1); v.extend(&t[..k]) }
        4 => v.extend([*r.pick(&[ESC, GS, FS, DLE, 0x1f, CAN])]),
        5 => { store(r, &mut v, &c); store(r, &mut v, &c) }
        6 => { qr_store(b"left in the store", &mut v); v.extend(b"\x1d(k\x03\x001C\x08") }
        7 => { v.extend(b"\x1bt\xff"); v.extend(b"caf\xc3") }
        8 => { v.extend(b"\x1d(k\x14\x001P0half"); }
        9 => v.extend(faults(r)),
        10 => { v.extend(b"\x1bL"); v.extend(text(r, false)); v.push(FF); v.extend(b"\x0a\x0crest") }
        _ => { v.extend(b"\x1bt\x02caf\xe9 \x1bR\x03#\x1bE\x01\x1d!\x33\x1dB\x01\x1ba\x02\x1b$\x40\x00x") }
    }
    v
}
fn faults(r: &mut Rng) -> Vec<u8> { let mut v = vec![]; for _ in 0..1 + r.below(4) { unknown(r, &mut v); v.extend(b"\x1dkA\x03abc"); } v }
fn samples() -> &'static Vec<Vec<u8>> { static S: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new(); S.get_or_init(crate::samples::all) }
fn any(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => leaving(r),
        1 => exhibit(r),
        2 => { let s = samples(); s[r.below(s.len())].clone() }
        3 => { let n = r.below(200); noise(r, n) }
        _ => { let c = swarm(r, &Cfg::all()); let k = 1 + r.below(20); job(r, &c, k) }
    }
}
/// Jobs that print many stored graphics: order of maps must not matter.
fn keys(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..2 + r.below(8) {
        let mut d = vec![48, b'A' + (i % 5) as u8, b'0' + r.below(3) as u8, 1, 8, 0, 8, 0, 49 + r.below(3) as u8];
        d.extend(r.bytes(8));
        gs_l(r.chance(1, 2), 48, *r.pick(&[67, 83]), &d, &mut v);
    }
    for _ in 0..4 + r.below(10) {
        let k = [b'A' + r.below(5) as u8, b'0' + r.below(3) as u8];
        match r.below(5) { 0 => gs_l(false, 48, *r.pick(&[66, 82]), &k, &mut v), _ => gs_l(false, 48, *r.pick(&[69, 85]), &[k[0], k[1], 1 + r.below(2) as u8, 1], &mut v) }
        if r.chance(1, 4) { gs_l(false, 48, *r.pick(&[64, 65, 81]), b"CLR", &mut v) }
    }
    v
}
/// Many small jobs that differ in little: the same things with other settings, bytes and sizes.
fn alike(r: &mut Rng) -> Vec<Vec<u8>> {
    let c = Cfg { img: 16, ..Cfg::all() };
    let mut bases: Vec<Vec<u8>> = vec![];
    for _ in 0..3 { let mut v = vec![]; if r.chance(1, 2) { v.extend(settings(r)); } v.extend(exhibit(r)); bases.push(v); }
    for _ in 0..2 { let mut v = vec![]; let k = r.below(9); let d = barcode_data(r, k); barcode_cmd(k, true, &d, &mut v); v.push(LF); bases.push(v); }
    let mut qr = vec![]; qr_store(b"HELLO 123", &mut qr); gs_k(49, 81, &[48], &mut qr); bases.push(qr);
    let mut im = vec![]; crate::gen::image(r, &mut im, &c); bases.push(im);
    let plain = b"#$@[\\]^`{|}~ Aa\x80\x84\x9e\xe0\xf8 \xc3\xa9\n".to_vec();
    bases.push(plain.clone());
    let mut jobs = vec![];
    for _ in 0..90 {
        let mut v = vec![];
        match r.below(6) {
            5 => { let b = r.pick(&bases).clone(); v.extend(twin(r, &b)) }
            0 | 1 => { v.extend([ESC, b't', *r.pick(&[0, 1, 2, 3, 4, 5, 11, 12, 13, 255])]); if r.chance(2, 3) { v.extend([ESC, b'R', *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 66, 67, 82])]); } v.extend(&plain) }
            2 => { for _ in 0..1 + r.below(2) { style(r, &mut v); } v.extend(r.pick(&bases).iter()) }
            3 => {
                match r.below(6) {
                    0 => v.extend([GS, b'h', 1 + r.below(120) as u8]), 1 => v.extend([GS, b'w', 1 + r.below(6) as u8]), 2 => v.extend([GS, b'H', r.below(4) as u8]),
                    3 => gs_k(49, 67, &[1 + r.below(8) as u8], &mut v), 4 => gs_k(49, 69, &[48 + r.below(4) as u8], &mut v), _ => v.extend([ESC, b'a', r.below(3) as u8]),
                }
                v.extend(r.pick(&bases).iter())
            }
            _ => {
                v.extend(r.pick(&bases).iter());
                for _ in 0..1 + r.below(2) { if !v.is_empty() { let k = r.below(v.len()); v[k] = if r.chance(1, 2) { v[k] ^ 1 << r.below(8) } else { v[k].wrapping_add(1) }; } }
            }
        }
        jobs.push(v);
    }
    for _ in 0..6 { jobs.push(any(r)); }
    for i in (1..jobs.len()).rev() { let k = r.below(i + 1); jobs.swap(i, k); }
    jobs
}
pub fn run19(x: &mut Ctx) {
    let n = if x.thorough { 6_000 } else { 180 };
    x.family("large", n, |r, i| {
        let f = *r.pick(&["parser", "layout", "drawn", "drawn-same"]);
        let cap = *r.pick(if f.starts_with("drawn") { crate::bulk::PAINTED } else { crate::bulk::LAID_OUT });
        let l = crate::bulk::large(r, i, cap);
        let b = if r.chance(1, 2) { exhibit(r) } else { crate::bulk::large(r, i, cap / 2) };
        Some(Case::new(f, vec![l, b]))
    });
    // many things under keys of their own: whatever holds them has an order of its own
    let n = if x.thorough { 2_000 } else { 64 };
    x.family("large-keys", n, |r, i| {
        let f = if i % 8 == 7 { "drawn" } else { "layout" };
        let cap = if f == "drawn" { 1_600 } else { *r.pick(&[1_600, 7_000, 70_000]) };
        let b = crate::bulk::large(r, 12, cap);
        Some(Case::new(f, vec![leaving(r), b]))
    });
    let n = x.n(16, 1_200);
    x.family("history", n, |r, _| { let j = alike(r); Some(Case::new("history!", j)) });
    let n = x.n(20_000, 1_000_000);
    x.family("parser", n, |r, _| { let a = leaving(r); let b = any(r); Some(Case::new("parser", if r.chance(1, 2) { vec![a, b] } else { vec![a, any(r), b] })) });
    let n = x.n(8_000, 400_000);
    x.family("layout", n, |r, i| { let a = leaving(r); let b = if i % 5 == 0 { keys(r) } else if i % 2 == 0 { exhibit(r) } else { any(r) }; Some(Case::new("layout", if r.chance(1, 2) { vec![a, b] } else { vec![a, any(r), b] })) });
    let n = x.n(1_000, 50_000);
    x.family("layout-both", n, |r, i| Some(Case::new("layout-both", vec![match i % 4 { 0 => keys(r), 1 => exhibit(r), 2 => { let mut v = leaving(r); v.extend(exhibit(r)); v } _ => any(r) }])));
    for (f, q) in [("drawn", 1000), ("drawn-debug", 400), ("drawn-same", 700)] {
        let n = x.n(q, q * 30);
        x.family(f, n, |r, i| { let a = leaving(r); if i % 9 == 5 { let a = if i % 2 == 0 { exhibit(r) } else { any(r) }; let b = twin(r, &a); return Some(Case::new(f, vec![a, b])); } let b = if i % 7 == 0 { keys(r) } else if i % 2 == 0 { exhibit(r) } else { any(r) }; Some(Case::new(f, vec![a, b])) });
    }
    let n = x.n(60, 3_000);
    x.family("threads", n, |r, _| { let mut v: Vec<_> = (0..3).map(|_| any(r)).collect(); v.push(exhibit(r)); v.push(keys(r)); v.push(leaving(r)); Some(Case::new("threads", v)) });
    let n = x.n(60, 3_000);
    x.family("processes", n, |r, _| { let mut v: Vec<_> = (0..3).map(|_| any(r)).collect(); v.push(exhibit(r)); v.push(keys(r)); v.push(leaving(r)); Some(Case::new("processes", v)) });
}
