//! Checkpoint round trip and resumption (C09), checkpoint store (C10).
use crate::exec::ck::*;
use crate::exec::*;
use crate::cases::*;
use crate::machine::*;
use crate::solvers;
use crate::trace::*;
use globalsearch::checkpoint::{CheckpointManager, read_checkpoint_file};
use globalsearch::types::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

/// everything a checkpoint holds, bit by bit
pub fn fingerprint(k: &OQNLPCheckpoint, volatile: bool) -> String {
    let sol = |s: &LocalSolution| (bits(&s.point.to_vec()), s.objective.to_bits());
    let p = &k.params;
    let mut s = format!(
        "params {} {} {} {:x} {:x} {:?} {} {} | it {} thr {:x} | sols {:?} | ref {:?} | uc {} | df {:?} | seed {} target {:?} excl {} batch {:?} par {} tol {:x} {:x}",
        p.iterations, p.population_size, p.wait_cycle, p.threshold_factor.to_bits(), p.distance_factor.to_bits(), p.local_solver_type, solvers::sig(&p.local_solver_config), p.seed,
        k.current_iteration, k.merit_threshold.to_bits(), k.solution_set.as_ref().map(|s| s.solutions.iter().map(sol).collect::<Vec<_>>()),
        k.reference_set.iter().map(|x| bits(&x.to_vec())).collect::<Vec<_>>(), k.unchanged_cycles, k.distance_filter_solutions.iter().map(sol).collect::<Vec<_>>(),
        k.current_seed, k.target_objective.map(|t| t.to_bits()), k.exclude_out_of_bounds, k.batch_iterations, k.enable_parallel, k.abs_tol.to_bits(), k.rel_tol.to_bits()
    );
    if volatile { s.push_str(&format!(" | {:x} {}", k.elapsed_time.to_bits(), k.timestamp)); }
    s
}

fn any_f(r: &mut R) -> f64 { if r.chance(0.3) { r.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE / 8.0, f64::MAX, 1e-300]) } else if r.chance(0.05) { f64::from_bits(0x7ff8000000000123) } else { f64::from_bits(r.next() & 0xbfff_ffff_ffff_ffff) } }
pub fn random_checkpoint(r: &mut R) -> OQNLPCheckpoint {
    let d = r.range(1, 4);
    let t = r.pick(&solvers::types());
    let sol = |r: &mut R| LocalSolution { point: (0..d).map(|_| any_f(r)).collect(), objective: any_f(r) };
    OQNLPCheckpoint {
        params: OQNLPParams { iterations: r.next() as usize, population_size: r.below(99), wait_cycle: r.next() as usize >> 3, threshold_factor: any_f(r), distance_factor: any_f(r), local_solver_config: solvers::config(&t, r), local_solver_type: t, seed: r.next() },
        current_iteration: r.next() as usize >> r.below(64), merit_threshold: any_f(r),
        solution_set: if r.chance(0.2) { None } else { let n = r.below(5); Some(SolutionSet { solutions: (0..n).map(|_| sol(r)).collect() }) },
        reference_set: (0..r.below(40)).map(|_| (0..d).map(|_| any_f(r)).collect()).collect(),
        unchanged_cycles: r.next() as usize >> r.below(64), elapsed_time: any_f(r),
        distance_filter_solutions: (0..r.below(9)).map(|_| sol(r)).collect(),
        current_seed: r.next(), target_objective: if r.chance(0.5) { Some(any_f(r)) } else { None }, exclude_out_of_bounds: r.chance(0.5),
        batch_iterations: if r.chance(0.5) { Some(r.below(99)) } else { None }, enable_parallel: r.chance(0.5), abs_tol: any_f(r), rel_tol: any_f(r),
        timestamp: (0..r.below(20)).map(|_| r.pick(&['a', '0', ':', 'é', '∞', ' '])).collect(),
    }
}
fn config(dir: &Path, name: &str, keep_all: bool) -> CheckpointConfig { CheckpointConfig { checkpoint_dir: dir.to_path_buf(), checkpoint_name: name.into(), save_frequency: 1, keep_all, auto_resume: true } }

pub fn round_trip(v: &mut Viol, r: &mut R) -> String {
    let dir = Scratch::new();
    let k = random_checkpoint(r);
    let (keep, it) = (r.chance(0.5), r.below(2_000_000));
    let want = fingerprint(&k, true);
    let got = guarded(|| {
        let m = CheckpointManager::new(config(&dir.0, "rt", keep)).map_err(|e| e.to_string())?;
        let p = m.save_checkpoint(&k, it).map_err(|e| e.to_string())?;
        let a = m.load_latest_checkpoint().map_err(|e| e.to_string())?;
        let b = m.load_checkpoint_from_path(&p).map_err(|e| e.to_string())?;
        let c = read_checkpoint_file(&p).map_err(|e| e.to_string())?;
        Ok::<_, String>([fingerprint(&a, true), fingerprint(&b, true), fingerprint(&c, true)])
    });
    match got {
        Err(p) => v.push(("*", format!("panic: {p}"))),
        Ok(Err(e)) => v.push(("C09", format!("a checkpoint cannot be saved and loaded: {e}"))),
        Ok(Ok(fs)) => for f in fs { if f != want { v.push(("C09", format!("a checkpoint changes on the way through its file: saved {want}, loaded {f}"))); break; } },
    }
    want.chars().take(400).collect()
}

pub fn resume_case(c: &Case, v: &mut Viol, r: &mut R) -> bool {
    let mut c = c.clone();
    if c.par && c.batch.is_none() { c.batch = Some(4); }
    let mut st = Stats::default();
    let mut own: Viol = vec![];
    let Some((out, cks, _dir)) = full(&c, None, &mut own, &mut st) else { v.extend(own); return false };
    v.extend(own.into_iter().filter(|x| x.0 == "C09" || x.0 == "*" || x.0 == "C10"));
    if out.log.iter().any(|r| !r.ok) || c.prob.0.err_one_in > 0 || cks.is_empty() { return false; }
    let par = is_par(&c);
    let last = cks.last().unwrap();
    // saving checkpoints does not change the run
    if !c.par {
        let plain = exec(&c, &Opt::default());
        let same = plain.ok() == out.ok() && plain.log.len() == out.log.len() && plain.log.iter().zip(&out.log).all(|(a, b)| bits(&a.x0) == bits(&b.x0));
        if !same { v.push(("C09", format!("saving checkpoints changes the run: {} against {} local searches, {:?} against {:?}", plain.log.len(), out.log.len(), plain.ok(), out.ok()))); return true; }
    }
    for k in &cks {
        let p = &k.2.params;
        let ok = p.iterations == c.iters && p.population_size == c.pop && p.wait_cycle == c.wait && p.threshold_factor == c.tf && p.distance_factor == c.df && p.seed == c.pseed
            && k.2.target_objective == c.target && k.2.exclude_out_of_bounds == c.excl && (k.2.abs_tol, k.2.rel_tol) == c.tol.unwrap_or((1e-8, 1e-6)) && k.2.batch_iterations == c.batch && k.2.enable_parallel == c.par;
        if !ok { v.push(("C09", format!("checkpoint of iteration {} does not hold the settings of the run", k.0))); return true; }
    }
    let mut picks: Vec<usize> = (0..3).map(|_| r.below(cks.len())).collect();
    picks.push(cks.len() - 1);
    picks.dedup();
    for i in picks {
        let (it, path, k) = &cks[i];
        let dir = Scratch::new();
        let keep = r.chance(0.6);
        let to = dir.0.join(if keep { format!("ck_{it:06}.bin") } else { "ck.bin".to_string() });
        std::fs::copy(path, &to).expect("copy");
        let mode = r.below(4) as u8;
        // the resuming optimizer is configured differently: what counts is the checkpoint
        let mut d = c.clone();
        d.prob = c.prob.clone();
        if mode != 9 { d.pop = 4 + r.below(30); d.iters = r.below(d.pop + 1); d.wait = r.range(1, 9); d.tf = 0.7; d.df = r.pick(&[0.0, 0.3, 5.0]); d.pseed = r.next() % 99; d.target = Some(-1e9); d.excl = !c.excl; d.tol = Some((3.0, 0.0)); d.par = !c.par; d.batch = Some(2); d.custom = None; d.max_time = None; }
        let ckc = Ck { dir: dir.0.clone(), freq: 1, keep_all: keep, auto: mode != 1 || r.chance(0.5) };
        let auto = ckc.auto;
        let mut o = Opt { ck: Some(ckc), resume: mode, resume_path: Some(to.clone()), resume_params: Some(k.params.clone()), plain_settings: r.chance(0.3), ..Opt::default() };
        if mode == 1 && !auto { o.resume = 2; }
        let res = exec(&d, &o);
        let how = format!("resumed at trial {it} of {} (way {mode}, population {} iterations {})", c.iters, c.pop, c.iters);
        if let Err(p) = &res.res { v.push(("*", format!("{how}: panic: {p}"))); return true; }
        if o.resume == 1 || o.resume == 2 { if res.resumed != Some(true) { v.push(("C09", format!("{how}: the checkpoint is not found"))); return true; } }
        if res.res.as_ref().ok().map(|r| r.as_ref().ok()) != out.res.as_ref().ok().map(|r| r.as_ref().ok()) { v.push(("C09", format!("{how}: result {:?}, the uninterrupted run gives {:?}", res.res, out.res))); return true; }
        // the searches that remain
        let done = k.distance_filter_solutions.len();
        let tail: Vec<Vec<f64>> = out.log[if par { out.log.len().min(done) } else { done.min(out.log.len()) }..].iter().map(|r| r.x0.clone()).collect();
        let got: Vec<Vec<f64>> = res.log.iter().map(|r| r.x0.clone()).collect();
        let same = if par { i + 1 == cks.len() || count_points(tail.iter()) == count_points(got.iter()) } else { tail.iter().map(|x| bits(x)).eq(got.iter().map(|x| bits(x))) };
        if !same { v.push(("C09", format!("{how}: {} local searches, the uninterrupted run makes {} after this point", got.len(), tail.len()))); return true; }
        let rest = count_points(k.reference_set.iter().map(|x| x.to_vec()).collect::<Vec<_>>().iter());
        if let Some(e) = res.evals.iter().find(|e| !e.in_solver && !rest.contains_key(&bits(&e.x))) { v.push(("C09", format!("{how}: evaluates {:?}, which is not in the saved reference set", e.x))); return true; }
        // and the state it ends in
        let end = if keep { load_all(&dir.0).ok().and_then(|mut k| k.pop()).map(|k| k.2) } else { read_checkpoint_file(&to).ok() };
        match end {
            None => { v.push(("C09", format!("{how}: no final checkpoint"))); return true; }
            Some(e) => if fingerprint(&e, false) != fingerprint(&last.2, false) { v.push(("C09", format!("{how}: ends in a different state: {} instead of {}", fingerprint(&e, false), fingerprint(&last.2, false)))); return true; },
        }
    }
    if r.chance(0.6) { modified(&c, &cks, v, r); }
    // no resumption without a checkpoint
    if r.chance(0.1) {
        let dir = Scratch::new();
        let res = exec(&c, &Opt { ck: Some(Ck { dir: dir.0.clone(), freq: 0, keep_all: true, auto: true }), resume: 1, ..Opt::default() });
        if res.resumed != Some(false) { v.push(("C09", format!("resumption from an empty directory reports {:?} {:?}", res.resumed, res.res.as_ref().err()))); }
    }
    cks.len() > 1
}

/// Resumption with other parameters: they apply, the saved progress stays.
fn modified(c: &Case, cks: &[(usize, PathBuf, OQNLPCheckpoint)], v: &mut Viol, r: &mut R) {
    let (it, path, k) = &cks[r.below(cks.len())];
    let dir = Scratch::new();
    let to = dir.0.join(format!("ck_{it:06}.bin"));
    std::fs::copy(path, &to).expect("copy");
    let mut p = k.params.clone();
    if r.chance(0.5) { p.population_size = k.params.population_size + r.below(8); }
    p.iterations = if r.chance(0.7) { p.population_size } else { r.range(*it, p.population_size.max(*it)) };
    if r.chance(0.5) { p.wait_cycle = r.range(1, 4); }
    if r.chance(0.5) { p.threshold_factor = r.pick(&[0.125, 0.5, 2.0]); }
    if r.chance(0.5) { p.distance_factor = c.df * r.pick(&[0.5, 2.0]); }
    let mut d = c.clone();
    d.pop = 5; d.iters = 2; d.custom = None;
    let res = exec(&d, &Opt { ck: Some(Ck { dir: dir.0.clone(), freq: 1, keep_all: true, auto: true }), resume: 2, resume_params: Some(p.clone()), ..Opt::default() });
    let how = format!("resumed at trial {it} with population {} iterations {} wait {} threshold factor {} distance factor {:e} (before: {} {} {} {} {:e})", p.population_size, p.iterations, p.wait_cycle, p.threshold_factor, p.distance_factor, c.pop, c.iters, c.wait, c.tf, c.df);
    match &res.res { Err(e) => { v.push(("*", format!("{how}: panic: {e}"))); return; } Ok(Err(e)) if e.contains("No feasible") => return, _ => {} }
    let new = match load_all(&dir.0) { Ok(k) => k, Err(e) => { v.push(("C09", format!("{how}: {e}"))); return; } };
    let Some(last) = new.last() else { v.push(("C09", format!("{how}: no checkpoint"))); return };
    let refset: Vec<Vec<f64>> = last.2.reference_set.iter().map(|x| x.to_vec()).collect();
    let old: Vec<Vec<u64>> = k.reference_set.iter().map(|x| bits(&x.to_vec())).collect();
    if refset.len() < old.len() || refset[..old.len()].iter().map(|x| bits(x)).ne(old.iter().cloned()) { v.push(("C09", format!("{how}: the saved reference points do not stay in place"))); return; }
    let grow = if p.population_size > k.params.population_size { p.population_size.max(old.len()) } else { old.len() };
    if refset.len() != grow { v.push(("C09", format!("{how}: {} reference points, expected {grow}", refset.len()))); return; }
    for x in &refset { if !c.prob.0.in_bounds(x) || !c.prob.0.feasible(x) { v.push(("C09", format!("{how}: added reference point {x:?} is out of bounds or infeasible"))); return; } }
    let mut cfg = Cfg::of(c);
    cfg.wait = p.wait_cycle; cfg.tfac = p.threshold_factor; cfg.dfac = p.distance_factor; cfg.iters = p.iterations;
    let mut e = c.clone();
    e.iters = p.iterations;
    let t = Trace { c: &e, cfg, par: is_par(c), batch: c.batch, refset, iters: p.iterations };
    let states: Vec<(usize, St)> = new.iter().filter(|k| k.0 > *it).map(|k| (k.0, st_of(&k.2))).collect();
    let starts: Vec<Vec<f64>> = res.log.iter().map(|r| r.x0.clone()).collect();
    let mut w: Viol = vec![];
    t.stage2(*it, st_of(k), &states, &starts, &mut w, &mut Stats::default());
    if let Some((_, m)) = w.first() { v.push(("C09", format!("{how}: {m}"))); }
}

extern "C" fn ignore(_: libc::c_int) {}
fn with_file_limit<T>(bytes: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        libc::signal(libc::SIGXFSZ, ignore as *const () as libc::sighandler_t);
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let new = libc::rlimit { rlim_cur: bytes, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &new);
        let r = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        r
    }
}

/// A history of saves, interrupted saves, loads and clean-ups on one directory.
pub fn store(v: &mut Viol, r: &mut R) -> String {
    let dir = Scratch::new();
    let names = ["ck", "run.v1", "a_b", "x-9_000007", "ck_1"];
    let name = r.pick(&names);
    let keep = r.chance(0.75);
    // files that are not ours
    let mut foreign: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for f in ["other_000009.bin".to_string(), format!("{name}_abc.bin"), format!("{name}_000099.txt"), format!("{name}2_000500.bin"), format!("{name}_b_000777.bin"), "notes".into(), format!("{name}_-5.bin"), format!("{name}_.bin"), format!("{name}_12 .bin")] {
        if r.chance(0.4) { foreign.insert(f.clone(), f.clone().into_bytes()); std::fs::write(dir.0.join(&f), &f).unwrap(); }
    }
    if r.chance(0.3) { let f = if keep { format!("{name}.bin") } else { format!("{name}_000123.bin") }; std::fs::write(dir.0.join(&f), b"x").unwrap(); foreign.insert(f, b"x".to_vec()); }
    let mut log = format!("name {name} keep_all {keep} foreign {:?};", foreign.keys().collect::<Vec<_>>());
    let m = match guarded(|| CheckpointManager::new(config(&dir.0, name, keep))) { Ok(Ok(m)) => m, Ok(Err(e)) => { v.push(("C10", format!("no store: {e}"))); return log; } Err(p) => { v.push(("*", format!("panic: {p}"))); return log; } };
    let mut model: BTreeMap<usize, String> = BTreeMap::new();
    let its = [0usize, 1, 2, 3, 7, 9, 10, 25, 99, 100, 999_999, 1_000_000, 12_345_678, 90, 1_000_001];
    for _ in 0..r.range(1, 9) {
        let step = r.below(10);
        if step < 6 {
            let it = if r.chance(0.8) { r.pick(&its) } else { r.below(3_000_000) };
            let k = random_checkpoint(r);
            let crash = r.chance(0.3);
            let slot = if keep { it } else { 0 };
            if crash {
                // the file system takes only so many bytes: the save is interrupted
                let lim = r.below(600) as u64;
                log.push_str(&format!(" save {it} interrupted after {lim} bytes;"));
                match guarded(|| with_file_limit(lim, || m.save_checkpoint(&k, it).map_err(|e| e.to_string()))) {
                    Err(p) => { v.push(("*", format!("panic: {p}: {log}"))); return log; }
                    Ok(Ok(_)) => { model.insert(slot, fingerprint(&k, true)); }
                    Ok(Err(_)) => {}
                }
            } else {
                log.push_str(&format!(" save {it};"));
                match guarded(|| m.save_checkpoint(&k, it)) {
                    Err(p) => { v.push(("*", format!("panic: {p}: {log}"))); return log; }
                    Ok(Err(e)) => { v.push(("C10", format!("save fails: {e}: {log}"))); return log; }
                    Ok(Ok(p)) => {
                        let want = if keep { format!("{name}_{it:06}.bin") } else { format!("{name}.bin") };
                        if p != dir.0.join(&want) { v.push(("C10", format!("saved as {}, expected {want}: {log}", p.display()))); return log; }
                        model.insert(slot, fingerprint(&k, true));
                        foreign.remove(&want);
                    }
                }
            }
        } else if step < 8 {
            let n = r.below(5);
            log.push_str(&format!(" clean-up keeping {n};"));
            match guarded(|| m.cleanup_old_checkpoints(n).map_err(|e| e.to_string())) {
                Err(p) => { v.push(("*", format!("panic: {p}: {log}"))); return log; }
                Ok(Err(e)) => { v.push(("C10", format!("clean-up fails: {e}: {log}"))); return log; }
                Ok(Ok(())) => if keep && n > 0 { while model.len() > n { let k = *model.keys().next().unwrap(); model.remove(&k); } },
            }
        }
        // the store holds exactly what the history says
        let m2 = CheckpointManager::new(config(&dir.0, name, keep));
        let mm = if r.chance(0.5) { &m } else { match &m2 { Ok(m) => m, Err(e) => { v.push(("C10", format!("the store cannot be opened again: {e}"))); return log; } } };
        let single_foreign = !keep && foreign.contains_key(&format!("{name}.bin"));
        if single_foreign { continue; }
        let got = guarded(|| (mm.checkpoint_exists(), mm.load_latest_checkpoint().map(|k| fingerprint(&k, true)).map_err(|e| e.to_string())));
        match got {
            Err(p) => { v.push(("*", format!("panic: {p}: {log}"))); return log; }
            Ok((ex, latest)) => {
                if ex != !model.is_empty() { v.push(("C10", format!("the store reports a checkpoint: {ex}, {} are saved: {log}", model.len()))); return log; }
                match (model.last_key_value(), latest) {
                    (None, Ok(_)) => { v.push(("C10", format!("a checkpoint is loaded from an empty store: {log}"))); return log; }
                    (Some((i, _)), Err(e)) => { v.push(("C10", format!("the checkpoint of iteration {i} cannot be loaded: {e}: {log}"))); return log; }
                    (Some((i, w)), Ok(g)) if *w != g => { v.push(("C10", format!("the loaded checkpoint is not the one of the highest iteration {i}: {log}"))); return log; }
                    _ => {}
                }
            }
        }
        if keep {
            for (i, w) in &model {
                let p = dir.0.join(format!("{name}_{i:06}.bin"));
                match guarded(|| mm.load_checkpoint_from_path(&p).map(|k| fingerprint(&k, true)).map_err(|e| e.to_string())) {
                    Ok(Ok(g)) if g == *w => {}
                    o => { v.push(("C10", format!("checkpoint {i} is lost or damaged ({:?}): {log}", o.map(|r| r.err())))); return log; }
                }
            }
            // no checkpoint that the history does not have
            let mut n = 0;
            for e in std::fs::read_dir(&dir.0).unwrap() {
                let f = e.unwrap().file_name().to_string_lossy().to_string();
                if let Some(num) = f.strip_prefix(&format!("{name}_")).and_then(|f| f.strip_suffix(".bin")) { if num.parse::<usize>().is_ok() { n += 1; } }
            }
            if n != model.len() { v.push(("C10", format!("{n} checkpoint files, {} expected: {log}", model.len()))); return log; }
        }
        for (f, b) in &foreign {
            if std::fs::read(dir.0.join(f)).ok().as_ref() != Some(b) { v.push(("C10", format!("file {f}, which is not one of its checkpoints, is changed: {log}"))); return log; }
        }
    }
    log
}
