//! The repository's sample jobs, used as mutation seeds.
pub fn all() -> Vec<Vec<u8>> {
    let mut out = vec![];
    if let Ok(d) = std::fs::read_dir("/repo/sample_files/in") {
        let mut names: Vec<_> = d.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        names.sort();
        for p in names {
            match p.extension().and_then(|e| e.to_str()) {
                Some("bin") => { if let Ok(b) = std::fs::read(&p) { out.push(b) } }
                Some("thermal") => { if let Ok(t) = std::fs::read_to_string(&p) { out.push(thermal_parser::thermal_file::parse_str(&t)) } }
                _ => {}
            }
        }
    }
    if out.is_empty() { out.push(b"\x1b@sample\n".to_vec()) }
    out
}
/// The .thermal sources among the samples.
pub fn sources() -> Vec<Vec<u8>> {
    let mut out = vec![];
    if let Ok(d) = std::fs::read_dir("/repo/sample_files/in") {
        let mut names: Vec<_> = d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map(|e| e == "thermal").unwrap_or(false)).collect();
        names.sort();
        for p in names { if let Ok(b) = std::fs::read(&p) { out.push(b) } }
    }
    out
}
