//! Contract files: *.ctr in the contracts directory (format documented in DESIGN.md).
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct FnC {
    pub path: String,          // "Type::f", "<Type as Trait>::f" or "f"
    pub ret: String,           // name of the result
    pub requires: Vec<(Vec<String>, String)>,
    pub ensures: Vec<(Vec<String>, String)>,
    pub loops: BTreeMap<usize, String>,
    pub ghosts: Vec<(String, String)>,
    pub closures: BTreeMap<usize, String>,
    pub attrs: Vec<String>,
    pub pure: Option<(Vec<String>, String)>, // parameter names (incl. self) and spec expression
    pub assume: bool,
    /// the characters of the string literals in the body are made known
    pub lits: bool,
    /// the body cannot be verified in this run (decided by the runner, never by a contract file)
    pub forced: bool,
    pub order: usize,
    pub subst: Vec<(String, String)>,
    pub decreases: String,
    /// statements to outline: (text the scrutinee contains, captured locals: name -> (type, argument))
    pub outline: Option<(String, Vec<(String, String, String)>)>,
    pub orequires: Vec<(Option<usize>, String)>,
    pub oensures: Vec<(Option<usize>, Vec<String>, String)>,
}
#[derive(Clone, Debug)]
pub struct TypeC { pub name: String, pub clone: bool, pub opts: Vec<String> }
#[derive(Clone, Debug, Default)]
pub struct Module {
    pub file: String,
    pub name: String,
    pub uses: Vec<String>,
    pub types: Vec<TypeC>,
    pub raws: Vec<String>,
    pub fns: Vec<FnC>,
    /// method calls of this file that stand for the same function under a stronger precondition
    pub renames: Vec<(String, String)>,
    /// functions that take the state of the file system as an extra ghost argument
    pub thread: Vec<String>,
}
#[derive(Default, Debug)]
pub struct Contracts { pub prelude: String, pub modules: Vec<Module>, pub tail: String }

fn preprocess(s: &str, feats: &[String]) -> String {
    let mut out = String::new();
    let mut stack: Vec<bool> = vec![];
    for l in s.lines() {
        let t = l.trim();
        if let Some(c) = t.strip_prefix("#if ") {
            let ok = c.split("&&").all(|x| { let x = x.trim(); if let Some(n) = x.strip_prefix('!') { !feats.iter().any(|f| f == n.trim()) } else { feats.iter().any(|f| f == x) } });
            stack.push(ok);
            out.push('\n');
            continue;
        }
        if t == "#else" { let x = stack.pop().unwrap(); stack.push(!x); out.push('\n'); continue; }
        if t == "#endif" { stack.pop(); out.push('\n'); continue; }
        if stack.iter().all(|x| *x) { out.push_str(l); }
        out.push('\n');
    }
    out
}

/// `@each TRAIT ... @endeach`: the text between is repeated for every struct of the module's file that
/// implements TRAIT (and looks like `S<'a, P: Problem> { problem: .., eval_count: .. }`), with $T its name.
fn expand_each(s: &str, repo: &str, feats: &[String]) -> String {
    let mut out = String::new();
    let mut file = String::new();
    let mut each: Option<(String, String)> = None;
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("@module ") { file = r.split_whitespace().next().unwrap_or("").to_string(); }
        if let Some(r) = l.strip_prefix("@each ") { each = Some((r.trim().to_string(), String::new())); continue; }
        if l.trim() == "@endeach" {
            if let Some((tr, body)) = each.take() {
                let ast = std::fs::read_to_string(format!("{repo}/{file}")).ok().and_then(|x| syn::parse_file(&x).ok()).map(|mut a| { crate::cfgs::apply(&mut a, feats); crate::hoist::apply(&mut a); a });
                if let Some(a) = ast { for n in crate::hoist::implementers(&a, &tr) { out.push_str(&body.replace("$T", &n)); } }
            }
            continue;
        }
        match &mut each { Some((_, b)) => { b.push_str(l); b.push('\n'); } None => { out.push_str(l); out.push('\n'); } }
    }
    out
}

pub fn load(dir: &str, feats: &[String], repo: &str) -> Contracts {
    let mut c = Contracts::default();
    let mut names: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        let s = std::fs::read_to_string(&p).unwrap();
        let s = expand_each(&preprocess(&s, feats), repo, feats);
        if n.ends_with("_prelude.rs") { c.prelude.push_str(&s); continue; }
        if n.ends_with("_tail.rs") { c.tail.push_str(&s); continue; }
        if !n.ends_with(".ctr") { continue; }
        parse(&s, &mut c);
    }
    c
}

fn parse(s: &str, c: &mut Contracts) {
    #[derive(Clone)]
    enum Cur { None, Raw, Req(Vec<String>), Ens(Vec<String>), Loop(usize), Ghost(String), Closure(usize), Pure(String), Subst(String), Dec, Outline(String), OReq(Option<usize>), OEns(Option<usize>, Vec<String>) }
    let mut cur = Cur::None;
    let mut buf = String::new();
    let mut order = 0usize;
    fn flush(cur: &Cur, buf: &mut String, c: &mut Contracts) {
        let t = std::mem::take(buf);
        let m = match c.modules.last_mut() { Some(m) => m, None => return };
        match cur {
            Cur::None => {}
            Cur::Raw => m.raws.push(t),
            _ => {
                let f = m.fns.last_mut().expect("section outside @fn");
                match cur {
                    Cur::Req(tags) => f.requires.push((tags.clone(), t)),
                    Cur::Ens(tags) => f.ensures.push((tags.clone(), t)),
                    Cur::Loop(i) => { f.loops.insert(*i, t); }
                    Cur::Ghost(a) => f.ghosts.push((a.clone(), t)),
                    Cur::Closure(i) => { f.closures.insert(*i, t); }
                    Cur::Subst(a) => { f.subst.push((a.clone(), t.trim().to_string())); }
                    Cur::Dec => { f.decreases = t; }
                    Cur::Outline(a) => { f.outline = Some((a.clone(), t.lines().filter(|l| l.contains(':')).map(|l| { let (n, r) = l.split_once(':').unwrap(); let (ty, ar) = match r.split_once('=') { Some((a, b)) => (a, b), None => (r, n) }; (n.trim().to_string(), ty.trim().to_string(), ar.trim().to_string()) }).collect())); }
                    Cur::OReq(k) => { f.orequires.push((*k, t)); }
                    Cur::OEns(k, tags) => { f.oensures.push((*k, tags.clone(), t)); }
                    Cur::Pure(params) => f.pure = Some((params.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect(), t.trim().to_string())),
                    _ => {}
                }
            }
        }
    }
    for l in s.lines() {
        if let Some(rest) = l.strip_prefix('@') {
            flush(&cur, &mut buf, c);
            cur = Cur::None;
            let mut it = rest.split_whitespace();
            let key = it.next().unwrap_or("");
            let args: Vec<String> = it.map(|x| x.to_string()).collect();
            match key {
                "module" => {
                    if let Some(pos) = c.modules.iter().position(|m| m.file == args[0]) {
                        let m = c.modules.remove(pos); c.modules.push(m);
                    } else {
                        c.modules.push(Module { file: args[0].clone(), name: args[1].clone(), ..Default::default() });
                    }
                }
                "rename" => c.modules.last_mut().unwrap().renames.push((args[0].clone(), args[1].clone())),
                "thread" => c.modules.last_mut().unwrap().thread.extend(args.iter().cloned()),
                "use" => c.modules.last_mut().unwrap().uses.push(format!("use {}", args.join(" "))),
                "type" => c.modules.last_mut().unwrap().types.push(TypeC { name: args[0].clone(), clone: args.iter().any(|a| a == "clone"), opts: args[1..].to_vec() }),
                "raw" => cur = Cur::Raw,
                "end" => {}
                "fn" => {
                    order += 1;
                    let joined = args.join(" ");
                    let (path, ret) = match joined.rfind('(') { Some(i) => (joined[..i].trim().to_string(), joined[i + 1..].trim_end_matches(')').trim().to_string()), None => (joined.clone(), String::new()) };
                    c.modules.last_mut().unwrap().fns.push(FnC { path, ret, order, ..Default::default() });
                }
                "attr" => { let a = args.join(" "); c.modules.last_mut().unwrap().fns.last_mut().unwrap().attrs.push(a); }
                "assume" => c.modules.last_mut().unwrap().fns.last_mut().unwrap().assume = true,
                "lits" => c.modules.last_mut().unwrap().fns.last_mut().unwrap().lits = true,
                "pure" => cur = Cur::Pure(args.join(" ").trim_start_matches('(').trim_end_matches(')').to_string()),
                "requires" => cur = Cur::Req(args),
                "ensures" => cur = Cur::Ens(args),
                "loop" => cur = Cur::Loop(args[0].parse().unwrap()),
                "ghost" => cur = Cur::Ghost(args.join(" ")),
                "closure" => cur = Cur::Closure(args[0].parse().unwrap()),
                "subst" => cur = Cur::Subst(args.join(" ")),
                "decreases" => cur = Cur::Dec,
                "outline" => cur = Cur::Outline(args.join("")),
                "orequires" => cur = Cur::OReq(args[0].parse().ok()),
                "oensures" => cur = Cur::OEns(args[0].parse().ok(), args[1..].to_vec()),
                x => panic!("unknown directive @{x}"),
            }
        } else {
            if !matches!(cur, Cur::None) { buf.push_str(l); buf.push('\n'); }
        }
    }
    flush(&cur, &mut buf, c);
}
