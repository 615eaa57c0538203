//! The pixels and the HTML of a job against the event log of its layout.
use crate::html;
use crate::paint::{self, Painted};
use crate::rec::{self, Ev, Log};

pub const MAX_ROWS: u64 = 6_000;
pub const MAX_PAGE: u64 = 1_500_000;

pub fn small(log: &Log) -> bool { within(log, MAX_ROWS) }
/// Everything is printed within the first rows.
pub fn within(log: &Log, rows: u64) -> bool {
    let ink: u64 = log.ev.iter().map(|e| match e {
        Ev::Image { img, .. } => (img.y + img.h) as u64,
        Ev::Rects { rects, .. } => rects.iter().map(|r| (r.1 + r.3) as u64).max().unwrap_or(0),
        Ev::Text { spans, .. } => spans.iter().filter_map(|s| s.dim).map(|d| (d.1 + d.3) as u64).max().unwrap_or(0),
        _ => 0,
    }).max().unwrap_or(0);
    log.max_y.max(ink) <= rows && log.page_px <= MAX_PAGE
}

pub fn image(bytes: &[u8], log: &Log, errors: &[String], p: &Painted) -> Result<u64, String> {
    let r = rec::image_of(bytes, None);
    if r.output.len() != p.sheets.len() { return Err(format!("{} images, expected {}", r.output.len(), p.sheets.len())); }
    for (a, s) in r.output.iter().zip(&p.sheets) { paint::same(a.width, a.height, &a.bytes, s)?; }
    same_errors(&r.errors.iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>(), errors, p)?;
    let _ = log;
    Ok(p.glyphs + p.pictures + p.bars + p.lines)
}
pub fn html(bytes: &[u8], log: &Log, errors: &[String], p: &Painted) -> Result<u64, String> {
    let r = rec::html_of(bytes, None);
    let n = html::check(&r.output.iter().map(|o| o.content.clone()).collect::<Vec<_>>(), &log.ev, p)?;
    same_errors(&r.errors.iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>(), errors, p)?;
    Ok(n)
}
/// The renderer may add errors about ink outside of the paper only.
fn same_errors(a: &[String], b: &[String], p: &Painted) -> Result<(), String> {
    let own: Vec<&String> = a.iter().filter(|e| !e.contains("ChildRenderError")).collect();
    if own.len() != b.len() || own.iter().zip(b).any(|(x, y)| *x != y) { return Err(format!("errors {:?}, expected {:?}", own, b)); }
    if own.len() != a.len() && p.outside == 0 { return Err(format!("everything is on the paper, but: {:?}", a)); }
    Ok(())
}

/// Image and HTML both show what the log says. Returns what was compared, None: too large.
pub fn both(bytes: &[u8], log: &Log, errors: &[String]) -> Result<Option<(u64, u64)>, String> {
    if !small(log) { return Ok(None); }
    let p = paint::paint(&log.ev);
    let a = image(bytes, log, errors, &p)?;
    let b = html(bytes, log, errors, &p)?;
    Ok(Some((a, b)))
}
