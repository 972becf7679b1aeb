//! Mechanical extractor: /repo Rust source + contract files -> one Verus file.
//! See ../DESIGN.md ("What the extraction drops or rewrites").
mod cfgs;
mod contracts;
mod emit;
mod desugar;
mod hoist;
mod rewrite;
mod thread;
mod tospec;

use std::collections::BTreeMap;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut repo = String::from("/repo");
    let mut cdir = String::new();
    let mut out = String::new();
    let mut feats: Vec<String> = vec![];
    let mut map = String::new();
    let mut forced: Vec<String> = vec![];
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => { repo = args[i + 1].clone(); i += 2 }
            "--contracts" => { cdir = args[i + 1].clone(); i += 2 }
            "--out" => { out = args[i + 1].clone(); i += 2 }
            "--map" => { map = args[i + 1].clone(); i += 2 }
            "--features" => { feats = args[i + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(); i += 2 }
            "--assume" => { forced = args[i + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(); i += 2 }
            x => panic!("unknown arg {x}"),
        }
    }
    let mut cs = contracts::load(&cdir, &feats, &repo);
    for m in cs.modules.iter_mut() { let mn = m.name.clone(); for f in m.fns.iter_mut() { if forced.contains(&format!("{mn}::{}", f.path)) { f.assume = true; f.forced = true; } } }
    let mut files: BTreeMap<String, syn::File> = BTreeMap::new();
    let mut problems: Vec<(String, String)> = vec![];
    for f in cs.modules.iter().map(|m| m.file.clone()) {
        let p = format!("{repo}/{f}");
        match std::fs::read_to_string(&p) {
            Ok(src) => match syn::parse_file(&src) {
                Ok(mut ast) => {
                    cfgs::apply(&mut ast, &feats);
                    hoist::apply(&mut ast);
                    files.insert(f, ast);
                }
                Err(e) => problems.push((f.clone(), format!("cannot parse {p}: {e}"))),
            },
            Err(e) => problems.push((f.clone(), format!("cannot read {p}: {e}"))),
        }
    }
    let res = emit::emit(&cs, &files, problems);
    std::fs::write(&out, res.text).unwrap();
    if !map.is_empty() { std::fs::write(&map, res.map_json).unwrap(); }
}
