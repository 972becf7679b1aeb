//! One case function per property.
use crate::exec::*;
use crate::cases::*;
use crate::machine::*;
use crate::prob::*;
use crate::trace::*;
use globalsearch::observers::ObserverMode;
use globalsearch::scatter_search::ScatterSearch;
use globalsearch::types::*;
use std::sync::Arc;

pub struct CaseRes { pub viol: Vec<String>, pub nontrivial: bool, pub desc: String }

pub const PROPS: [&str; 18] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19"];

fn pick_viol(prop: &str, v: Viol) -> Vec<String> { v.into_iter().filter(|(p, _)| *p == prop || *p == "*").map(|(_, m)| m).collect() }

fn any_run(c: &Case, v: &mut Viol, st: &mut Stats, r: &mut R) {
    #[cfg(feature = "full")]
    {
        if r.chance(0.85) || is_par(c) { full(c, None, v, st); } else { light(c, v, st); }
    }
    #[cfg(not(feature = "full"))]
    { let _ = r; light(c, v, st); }
}

pub fn run_case(prop: &str, seed: u64) -> CaseRes {
    let mut r = R(seed ^ 0x5555);
    let mut v: Viol = vec![];
    let mut st = Stats::default();
    let done = |v: Viol, nontrivial: bool, desc: String| CaseRes { viol: pick_viol(prop, v), nontrivial, desc };
    match prop {
        "C01" | "C02" | "C03" | "C19" => {
            let w = Want { cons: prop == "C03", custom: prop == "C19", odd_bounds: prop == "C01" && r.chance(0.7), ..Want::default() };
            let mut c = gen_case(seed, w);
            if prop == "C02" && r.chance(0.3) { let mut s = Spec::new(c.prob.0.lo.clone(), c.prob.0.hi.clone(), c.prob.0.obj.clone(), vec![]); s.err_one_in = 400; c.prob = Prob(Arc::new(s)); }
            if r.chance(0.5) { scatter(&c, &mut v, &mut r); } else { any_run(&c, &mut v, &mut st, &mut r); }
            if prop == "C01" { moves(&c, &mut v, &mut r); }
            done(v, true, c.describe())
        }
        "C04" | "C05" | "C11" | "C07" => {
            let w = Want { target: prop == "C07", no_stop: prop == "C11" || (prop == "C04" && r.chance(0.5)), seq: r.chance(0.3), ..Want::default() };
            let mut c = gen_case(seed, w);
            if prop == "C11" && r.chance(0.7) { c.wait = r.range(1, 3); c.iters = c.pop; }
            if prop == "C07" && r.chance(0.12) { let d = time_case(&mut c, &mut v, &mut r); return done(v, true, d); }
            any_run(&c, &mut v, &mut st, &mut r);
            let nt = match prop { "C04" => st.gates_yes > 0 && st.gates_no > 0, "C05" => st.gates_yes > 0, "C11" => st.gates_no > 0, _ => st.trials > 0 || st.stopped };
            done(v, nt, c.describe())
        }
        "C06" => { let d = solution_set(&mut v, &mut r); done(v, true, d) }
        "C08" => { let d = validation(&mut v, &mut r); done(v, true, d) }
        "C12" => { let c = gen_case(seed, Want::default()); let nt = observers(&c, &mut v, &mut r); done(v, nt, c.describe()) }
        "C13" => { let mut c = gen_case(seed, Want { seq: r.chance(0.7), ..Want::default() }); if r.chance(0.4) { c.target = None; c.iters = c.pop; } let nt = non_interference(&c, &mut v, &mut r); done(v, nt, c.describe()) }
        "C14" => { let d = crate::solvers::case(&mut v, &mut r); done(v, true, d) }
        "C15" => { let d = crate::solvers::builders(&mut v, &mut r); done(v, true, d) }
        "C17" => { let mut c = gen_case(seed, Want { seq: true, ..Want::default() }); c.par = false; let nt = deterministic(&c, &mut v); done(v, nt, c.describe()) }
        "C18" => {
            if r.chance(0.05) { let d = crate::solvers::misfit(&mut v, &mut r); return done(v, true, d); }
            let mut c = gen_case(seed, Want { odd_bounds: r.chance(0.5), fail: true, custom: r.chance(0.3), ..Want::default() });
            if r.chance(0.3) { let mut s = Spec::new(c.prob.0.lo.clone(), c.prob.0.hi.clone(), c.prob.0.obj.clone(), c.prob.0.cons.clone()); s.err_one_in = r.range(2, 60) as u64; c.prob = Prob(Arc::new(s)); }
            if r.chance(0.2) { c.tol = Some(r.pick(&[(f64::INFINITY, 0.0), (0.0, f64::INFINITY), (-1.0, 0.0), (f64::NAN, f64::NAN)])); }
            if r.chance(0.1) { c.batch = Some(usize::MAX); }
            if r.chance(0.1) { c.wait = usize::MAX; }
            any_run(&c, &mut v, &mut st, &mut r);
            if r.chance(0.3) { observers(&c, &mut v, &mut r); }
            #[cfg(feature = "full")]
            if r.chance(0.3) { crate::ckprops::resume_case(&c, &mut v, &mut r); }
            done(v, true, c.describe())
        }
        #[cfg(feature = "full")]
        "C09" => {
            if r.chance(0.4) { let d = crate::ckprops::round_trip(&mut v, &mut r); done(v, true, d) } else {
                let mut c = gen_case(seed, Want { no_stop: r.chance(0.5), ..Want::default() });
                if r.chance(0.5) { c.iters = c.pop; }
                let nt = crate::ckprops::resume_case(&c, &mut v, &mut r); done(v, nt, c.describe())
            }
        }
        #[cfg(feature = "full")]
        "C10" => { let d = crate::ckprops::store(&mut v, &mut r); done(v, true, d) }
        _ => done(v, false, String::new()),
    }
}

/// ScatterSearch used directly through its public interface.
fn scatter(c: &Case, v: &mut Viol, r: &mut R) {
    enter(c);
    let par = r.chance(0.5);
    let res = guarded(|| {
        #[allow(unused_mut)]
        let mut s = ScatterSearch::new(c.prob.clone(), params(c)).map_err(|e| e.to_string())?;
        #[cfg(feature = "full")]
        { s = s.parallel(par); }
        let _ = par;
        if let Some(p) = &c.custom { s = s.with_custom_points(p.iter().map(|p| arr(p)).collect()); }
        s.run().map_err(|e| e.to_string())
    });
    let evals = c.prob.0.take_evals();
    match res {
        Err(p) => v.push(("*", format!("panic: {p}"))),
        Ok(Err(e)) => if !allowed_error(c, &e) { v.push(("C18", format!("a valid configuration fails: {e}"))) },
        Ok(Ok((set, best))) => {
            let pts: Vec<Vec<f64>> = set.iter().map(|(p, _)| p.to_vec()).collect();
            stage1(c, &evals, Some(&pts), Some(&best.to_vec()), v);
            for (p, o) in &set {
                let want = c.prob.0.value(&p.to_vec());
                if *o != want { v.push(("C02", format!("reference point {p} is stored with objective {o:e}, its objective is {want:e}"))); break; }
            }
        }
    }
}

/// The point-generating moves of Stage 1 on their own.
fn moves(c: &Case, v: &mut Viol, r: &mut R) {
    enter(c);
    let s = &c.prob.0;
    let par = r.chance(0.5);
    let pt = |r: &mut R| -> Vec<f64> { (0..c.d()).map(|i| match r.below(4) { 0 => s.lo[i], 1 => s.hi[i], _ => (s.lo[i] + (s.hi[i] - s.lo[i]) * r.f01()).clamp(s.lo[i], s.hi[i]) }).collect() };
    let (a, b) = (pt(r), pt(r));
    let far: Vec<f64> = (0..c.d()).map(|i| match r.below(4) { 0 => f64::INFINITY, 1 => f64::NEG_INFINITY, _ => s.lo[i] + (s.hi[i] - s.lo[i]) * (r.f01() * 5.0 - 2.0) }).collect();
    let (n, sd) = (r.below(30), r.next());
    let res = guarded(|| {
        #[allow(unused_mut)]
        let mut ss = ScatterSearch::new(c.prob.clone(), params(c)).map_err(|e| e.to_string())?;
        #[cfg(feature = "full")]
        { ss = ss.parallel(par); }
        let _ = par;
        let mut p = ss.combine_points(&arr(&a), &arr(&b), sd);
        let samples = ss.generate_stratified_samples(n).map_err(|e| e.to_string())?;
        let ns = samples.len();
        p.extend(samples);
        let mut x = arr(&far);
        ss.apply_bounds(&mut x);
        p.push(x);
        Ok::<_, String>((p, ns))
    });
    match res {
        Err(p) => v.push(("*", format!("panic: {p}"))),
        Ok(Err(e)) => v.push(("C18", format!("a valid configuration fails: {e}"))),
        Ok(Ok((pts, ns))) => {
            for p in pts { if !s.in_bounds(&p.to_vec()) { v.push(("C01", format!("generated point {p} outside the bounds {:?} {:?} (from {a:?}, {b:?}, {far:?})", s.lo, s.hi))); break; } }
            if ns != n { v.push(("C02", format!("{ns} samples instead of {n}"))); }
        }
    }
    c.prob.0.take_evals();
}

fn time_case(c: &mut Case, v: &mut Viol, r: &mut R) -> String {
    c.target = None;
    c.iters = c.pop;
    match r.below(3) {
        0 => {
            // no time at all: Stage 2 processes nothing
            c.max_time = Some(r.pick(&[-1.0, -1e-9, f64::NEG_INFINITY]));
            let out = exec(c, &Opt::default());
            match &out.res {
                Err(p) => v.push(("*", format!("panic: {p}"))),
                Ok(Ok(_)) => if out.log.len() > 1 { v.push(("C07", format!("{} local searches in Stage 2 although the time is already up", out.log.len() - 1))) },
                Ok(Err(e)) => if !allowed_error(c, e) && !e.contains("No feasible solution") { v.push(("C07", format!("the time limit makes the run fail: {e}"))) },
            }
        }
        1 => {
            // more time than needed: as without a limit
            c.max_time = Some(r.pick(&[1e6, f64::INFINITY]));
            c.par = false;
            let a = exec(c, &Opt::default());
            let mut d = c.clone();
            d.max_time = None;
            let b = exec(&d, &Opt::default());
            if let Err(p) = &a.res { v.push(("*", format!("panic: {p}"))); }
            if a.log.len() != b.log.len() || a.ok() != b.ok() { v.push(("C07", format!("a time limit of {:?} s changes the run: {} against {} local searches", c.max_time, a.log.len(), b.log.len()))); }
        }
        _ => {
            // every trial is searched from and takes 4 ms; 20 ms do not suffice for 40 trials
            c.pop = 40; c.iters = 40; c.df = 0.0; c.tf = 1e9; c.wait = 1;
            c.script.sleep_ms = 4; c.script.fail_one_in = 0; c.script.mode = 0;
            c.par = false; c.batch = None; c.excl = false;
            c.prob = Prob(Arc::new(Spec::new(c.prob.0.lo.clone(), c.prob.0.hi.clone(), ObjKind::Constant, vec![])));
            c.custom = None;
            c.max_time = Some(0.02);
            let out = exec(c, &Opt::default());
            if let Err(p) = &out.res { v.push(("*", format!("panic: {p}"))); }
            if out.log.len() > 38 { v.push(("C07", format!("{} local searches of 4 ms each within a time limit of 20 ms", out.log.len()))); }
            if out.log.len() < 2 { v.push(("C07", "the time limit of 20 ms is applied before any trial".to_string())); }
        }
    }
    c.describe()
}

fn solution_set(v: &mut Viol, r: &mut R) -> String {
    let d = r.range(1, 4);
    let n = r.below(7);
    let pool = [0.0, -0.0, 1.0, -1.0, 2.5, f64::INFINITY, f64::NEG_INFINITY, 1e-300, -7.25, 2.5];
    let sols: Vec<Sol> = (0..n).map(|_| Sol { p: (0..d).map(|_| r.f(-3.0, 3.0)).collect(), o: if r.chance(0.7) { r.pick(&pool) } else { r.f(-9.0, 9.0) } }).collect();
    let set = SolutionSet { solutions: sols.iter().map(|s| LocalSolution { point: arr(&s.p), objective: s.o }).collect() };
    let desc = format!("{sols:?}");
    let idx: Vec<usize> = (0..n).collect();
    let prob = Prob(Arc::new(Spec::new(vec![-3.0; d], vec![3.0; d], ObjKind::Sphere, if r.chance(0.5) { vec![0, 1] } else { vec![] })));
    prob.0.enter();
    let got = guarded(|| {
        let b = set.best_solution().map(|s| (s as *const LocalSolution, Sol { p: s.x().to_vec(), o: s.fun() }));
        let ix: Vec<Sol> = idx.iter().map(|&i| Sol { p: set[i].point.to_vec(), o: set[i].objective }).collect();
        let it: Vec<Sol> = set.solutions().map(|s| Sol { p: s.point.to_vec(), o: s.objective }).collect();
        (set.len(), set.is_empty(), b.map(|b| b.1), ix, it, format!("{set}"), set.display_with_problem(&prob))
    });
    match got {
        Err(p) => v.push(("*", format!("panic: {p}"))),
        Ok((len, empty, b, ix, it, text, text2)) => {
            if len != n || empty != (n == 0) { v.push(("C06", format!("length {len}, empty {empty} for {n} solutions"))); }
            if ix != sols || it != sols { v.push(("C06", "indexing or iteration does not give the stored solutions".into())); }
            match b {
                None => if n > 0 { v.push(("C06", "no best solution in a nonempty set".into())) },
                Some(b) => {
                    if n == 0 { v.push(("C06", "a best solution in an empty set".into())); }
                    if !sols.contains(&b) { v.push(("C06", format!("best solution {b:?} is not a member"))); }
                    if sols.iter().any(|s| s.o < b.o) { v.push(("C06", format!("best solution has objective {:e}, the set has a lower one", b.o))); }
                }
            }
            for t in [&text, &text2] {
                if n > 0 && !t.contains(&format!("Best objective value: {:.8e}", sols.iter().map(|s| s.o).min_by(f64::total_cmp).unwrap())) && !sols.iter().any(|s| s.o == 0.0) { v.push(("C06", "the printed best objective is not the lowest one".into())); }
                if !t.contains(&format!("Total solutions: {n}")) || t.matches("Solution #").count() != n { v.push(("C06", "the printed set does not list every solution".into())); }
            }
            if n > 0 && !prob.0.cons.is_empty() {
                let bad = sols.iter().flat_map(|s| prob.0.cons.iter().map(|&k| CONS[k](&s.p, &mut ()))).filter(|g| *g < 0.0).count();
                if text2.matches("violated by").count() != bad { v.push(("C06", format!("{} violated constraints printed, {bad} are violated", text2.matches("violated by").count()))); }
            }
        }
    }
    desc
}

fn validation(v: &mut Viol, r: &mut R) -> String {
    use globalsearch::oqnlp::{OQNLP, OQNLPError};
    let mut c = gen_case(r.next(), Want::default());
    let mut chk = |what: String, got: Result<String, String>, want: &str| {
        match got { Err(p) => v.push(("*", format!("{what}: panic: {p}"))), Ok(g) => if g != want { v.push(("C08", format!("{what}: {g}, expected {want}"))) } }
    };
    let weird = [f64::NAN, -1.0, 0.0, -0.0, 1e-300, f64::INFINITY, f64::NEG_INFINITY, 0.5, -1e-300, f64::MIN_POSITIVE];
    match r.below(4) {
        0 | 1 => {
            c.pop = r.below(12);
            c.iters = r.below(14);
            if r.chance(0.3) { c.pop = r.pick(&[0, 1, 2, 3, 4, usize::MAX]); c.iters = r.pick(&[0, 3, 4, 5, usize::MAX]); }
            if r.chance(0.5) { c.tf = r.pick(&weird); }
            if r.chance(0.5) { c.df = r.pick(&weird); }
            let got = guarded(|| match OQNLP::new(c.prob.clone(), params(&c)) {
                Ok(_) => "accepted".to_string(),
                Err(OQNLPError::InvalidPopulationSize(n)) if n == c.pop => "population".into(),
                Err(OQNLPError::InvalidIterations(i, p)) if i == c.iters && p == c.pop => "iterations".into(),
                Err(OQNLPError::InvalidThresholdFactor(_)) => "threshold factor".into(),
                Err(OQNLPError::DistanceFilterError(_)) => "distance factor".into(),
                Err(e) => format!("other error: {e}"),
            });
            let mut want = vec![];
            if c.pop <= 3 { want.push("population"); }
            if c.iters > c.pop { want.push("iterations"); }
            if !(c.tf > 0.0) { want.push("threshold factor"); }
            if !(c.df >= 0.0) { want.push("distance factor"); }
            let got2 = got.clone().unwrap_or_default();
            let w = if want.is_empty() { "accepted" } else if want.contains(&got2.as_str()) { got2.as_str() } else { want[0] };
            let w = w.to_string();
            chk(format!("new optimizer with population {} iterations {} threshold factor {:e} distance factor {:e}", c.pop, c.iters, c.tf, c.df), got, &w);
        }
        2 => {
            let d = c.d();
            let (lo, hi) = (c.prob.0.lo.clone(), c.prob.0.hi.clone());
            let cols = if r.chance(0.15) { d + 1 - 2 * r.below(2) } else { d };
            let mut pts: Vec<Vec<f64>> = (0..r.range(0, 4)).map(|_| (0..cols).map(|i| { let i = i.min(d - 1); (lo[i] + (hi[i] - lo[i]) * r.f01()).clamp(lo[i], hi[i]) }).collect()).collect();
            if !pts.is_empty() && cols > 0 && r.chance(0.6) {
                let (i, j) = (r.below(pts.len()), r.below(cols));
                let k = j.min(d - 1);
                pts[i][j] = match r.below(6) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => lo[k].next_down(), 3 => hi[k].next_up(), 4 => lo[k], _ => hi[k] };
            }
            let bad_dim = cols != d && !pts.is_empty();
            let bad: Vec<usize> = (0..pts.len()).filter(|&i| !bad_dim && !c.prob.0.in_bounds(&pts[i])).collect();
            c.pop = 10; c.iters = 2; c.df = 0.1; c.tf = 0.5;
            let m = matrix(cols, &pts);
            let got = guarded(|| match OQNLP::new(c.prob.clone(), params(&c)).unwrap().with_points(m) {
                Ok(_) => "accepted".to_string(),
                Err(OQNLPError::InvalidCustomPointsDimension { expected, got, .. }) if expected == d && got == cols => "dimension".into(),
                Err(OQNLPError::CustomPointOutOfBounds { index }) => format!("point {index}"),
                Err(e) => format!("other error: {e}"),
            });
            let want = if bad_dim { "dimension".to_string() } else if bad.is_empty() { "accepted".into() } else if bad.iter().any(|i| Ok(format!("point {i}")) == got) { got.clone().unwrap() } else { format!("point {}", bad[0]) };
            chk(format!("user-supplied points {pts:?} for bounds {lo:?} {hi:?}"), got, &want);
        }
        _ => {
            let d = c.d();
            let (mut lo, mut hi) = (c.prob.0.lo.clone(), c.prob.0.hi.clone());
            let i = r.below(d);
            match r.below(9) { 0 => lo[i] = hi[i], 1 => std::mem::swap(&mut lo[i], &mut hi[i]), 2 => lo[i] = f64::NAN, 3 => hi[i] = f64::NAN, 4 => hi[i] = f64::INFINITY, 5 => lo[i] = f64::NEG_INFINITY, 6 => { lo[i] = -f64::MAX; hi[i] = f64::MAX; } _ => {} }
            let good = (0..d).all(|i| lo[i] < hi[i] && (hi[i] - lo[i]).is_finite());
            c.prob = Prob(Arc::new(Spec::new(lo.clone(), hi.clone(), ObjKind::Constant, vec![])));
            c.pop = 6; c.iters = 1; c.df = 0.1; c.tf = 0.5; c.custom = None; c.script.fail_one_in = 0; c.script.mode = 0; c.excl = false;
            let got = guarded(|| match ScatterSearch::new(c.prob.clone(), params(&c)) {
                Ok(_) => "accepted".to_string(),
                Err(globalsearch::scatter_search::ScatterSearchError::InvalidBounds { dimension, .. }) if !(lo[dimension] < hi[dimension] && (hi[dimension] - lo[dimension]).is_finite()) => "bounds".into(),
                Err(e) => format!("other error: {e}"),
            });
            chk(format!("bounds {lo:?} {hi:?}"), got, if good { "accepted" } else { "bounds" });
            let out = exec(&c, &Opt::default());
            let got = match out.res { Err(p) => Err(p), Ok(Ok(_)) => Ok("accepted".to_string()), Ok(Err(_)) => Ok("error".into()) };
            chk(format!("run with bounds {lo:?} {hi:?}"), got, if good { "accepted" } else { "error" });
        }
    }
    c.describe()
}

fn gen_obs(r: &mut R) -> Obs {
    Obs { mode: r.pick(&[ObserverMode::Both, ObserverMode::Both, ObserverMode::Stage1Only, ObserverMode::Stage2Only]), s1: r.chance(0.75), s2: r.chance(0.8), timing: r.chance(0.5),
        freq: r.pick(&[None, Some(1), Some(1), Some(2), Some(3), Some(0), Some(100)]), cb: r.chance(0.85) }
}

fn observers(c: &Case, v: &mut Viol, r: &mut R) -> bool {
    let ob = gen_obs(r);
    let mut st = Stats::default();
    let mut scratch: Viol = vec![];
    #[cfg(feature = "full")]
    let out = {
        let Some((out, cks, _d)) = full(c, Some(ob.clone()), &mut scratch, &mut st) else { v.extend(scratch); return false };
        if let Some(k) = cks.last() {
            if let Some(f) = &out.fin_s1 { if matches!(ob.mode, ObserverMode::Both | ObserverMode::Stage1Only) && f.rs != k.2.reference_set.len() { v.push(("C12", format!("Stage 1 reports {} reference points, there are {}", f.rs, k.2.reference_set.len()))); } }
        }
        out
    };
    #[cfg(not(feature = "full"))]
    let out = { let _ = &mut scratch; exec(c, &Opt { obs: Some(ob.clone()), ..Opt::default() }) };
    if let Err(p) = &out.res { v.push(("*", format!("panic: {p}"))); return false; }
    if !scratch.is_empty() && scratch.iter().all(|s| s.0 != "C05" ) && scratch.iter().any(|s| s.0 == "*") { v.extend(scratch); return false; }
    // a run that violates another property is judged by that property's check, counters are still comparable
    let e1: Vec<&Eval> = out.evals.iter().take_while(|e| !e.in_solver).collect();
    let see1 = ob.s1 && ob.mode != ObserverMode::Stage2Only;
    let see2 = ob.s2 && ob.mode != ObserverMode::Stage1Only;
    if out.log.is_empty() || out.log.iter().any(|r| !r.ok) || c.prob.0.err_one_in > 0 { return false; }
    match &out.fin_s1 {
        None => if ob.s1 { v.push(("C12", "Stage 1 is tracked, but its state is not available after the run".into())) },
        Some(f) => {
            if !ob.s1 { v.push(("C12", "Stage 1 state without Stage 1 tracking".into())); }
            let want = if see1 { e1.len() + out.log[0].evals.len() } else { 0 };
            if f.fe != want { v.push(("C12", format!("Stage 1 reports {} function evaluations, there were {want}", f.fe))); }
            if see1 {
                let b = e1.iter().filter_map(|e| e.f).fold(f64::INFINITY, f64::min).min(out.log[0].f);
                if f.best != b { v.push(("C12", format!("Stage 1 reports best objective {:e}, it is {b:e}", f.best))); }
                match &f.point {
                    None => v.push(("C12", "Stage 1 reports no best point".into())),
                    Some(p) => if !(bits(p) == bits(&out.log[0].x) && out.log[0].f == b) && c.prob.0.value(p) != b { v.push(("C12", format!("Stage 1 reports best point {p:?} with objective {:e}, not {b:e}", c.prob.0.value(p)))) },
                }
                if f.substage != "stage1_complete" { v.push(("C12", format!("Stage 1 ends in substage {}", f.substage))); }
                if out.total_s1.0.is_none() || out.total_s1.0 != out.total_s1.1 { v.push(("C12", format!("the time of the finished Stage 1 is not fixed: {:?}", out.total_s1))); }
                // number of trial points: what the public interface generates for this problem
                enter(c);
                let n = guarded(|| {
                    let mut s = ScatterSearch::new(c.prob.clone(), params(c)).ok()?;
                    #[cfg(feature = "full")]
                    { s = s.parallel(false); }
                    if let Some(p) = &c.custom { s = s.with_custom_points(p.iter().map(|p| arr(p)).collect()); }
                    s.initialize_reference_set().ok()?;
                    Some(s.generate_trial_points().ok()?.len())
                });
                c.prob.0.take_evals();
                if let Ok(Some(n)) = n { if f.tp != n { v.push(("C12", format!("Stage 1 reports {} trial points, {n} are generated", f.tp))); } }
            }
        }
    }
    let stage2_ran = !(out.log.len() == 1 && reached(&after_stage1(c, &Cfg::of(c), &out.log[0]), &Cfg::of(c)));
    if out.fin.s1.is_some() { v.push(("C12", "Stage 1 state is still visible after its completion".into())); }
    if stage2_ran && ob.s2 && out.fin.s2.is_none() { v.push(("C12", "Stage 2 is tracked, but its state is not visible after it started".into())); }
    if !stage2_ran && out.fin.s2.is_some() { v.push(("C12", "Stage 2 state is visible although Stage 2 never started".into())); }
    let other = scratch.iter().any(|s| ["C04", "C05", "C07", "C11"].contains(&s.0));
    if let (Some(f), true) = (&out.fin.s2, stage2_ran) {
        let n2 = out.log.len() - 1;
        let par_stop = is_par(c) && st.stopped;
        let ev: usize = out.log[1..].iter().map(|r| r.evals.len()).sum();
        if !see2 {
            if f.calls != 0 || f.fe != 0 || f.improved != 0 || f.size != 0 { v.push(("C12", format!("Stage 2 is not observed, but reports {f:?}"))); }
        } else if !par_stop {
            if f.calls != n2 { v.push(("C12", format!("Stage 2 reports {} local searches, there were {n2}", f.calls))); }
            if f.fe != ev { v.push(("C12", format!("Stage 2 reports {} function evaluations, its local searches made {ev}", f.fe))); }
        } else if f.calls > n2 || f.fe > ev { v.push(("C12", format!("Stage 2 reports {} local searches and {} evaluations, there were {n2} and {ev}", f.calls, f.fe))); }
        if see2 {
            #[cfg(feature = "full")]
            if !other {
                if f.improved != st.adds2 { v.push(("C12", format!("Stage 2 reports {} improving searches, {} added a solution", f.improved, st.adds2))); }
                if let Some(l) = &st.last_added { if f.last.as_ref().map(|p| bits(p)) != Some(bits(l)) { v.push(("C12", format!("Stage 2 reports {:?} as the last added point, it is {l:?}", f.last))); } }
                if !is_par(c) && st.last_trial.is_some() && Some(f.it) != st.last_trial { v.push(("C12", format!("Stage 2 reports iteration {}, the last was {:?}", f.it, st.last_trial))); }
            }
            let _ = other;
            if let Some(s) = out.ok() {
                if f.size != s.len() { v.push(("C12", format!("Stage 2 reports {} solutions, there are {}", f.size, s.len()))); }
                let b = best(s);
                if f.best != b.o { v.push(("C12", format!("Stage 2 reports best objective {:e}, it is {:e}", f.best, b.o))); }
                if !s.iter().any(|s| s.o == b.o && f.point.as_ref().is_some_and(|p| bits(p) == bits(&s.p))) { v.push(("C12", format!("Stage 2 reports best point {:?}, it is {:?}", f.point, b.p))); }
            }
            if out.total_s2.0.is_none() || out.total_s2.0 != out.total_s2.1 { v.push(("C12", format!("the time of the finished Stage 2 is not fixed: {:?}", out.total_s2))); }
        }
    }
    // callbacks
    if !ob.cb { return see1 || see2; }
    let freq = ob.freq.unwrap_or(1);
    let mut fe1 = 0; let mut calls2 = 0; let mut fe2 = 0; let mut started = false;
    let mut its = vec![];
    let mut subs: Vec<String> = vec![];
    for s in &out.snaps {
        if let Some(a) = &s.s1 {
            if started { v.push(("C12", "Stage 1 state is visible to a callback of Stage 2".into())); break; }
            if a.fe < fe1 { v.push(("C12", "the function evaluations of Stage 1 decrease".into())); break; }
            fe1 = a.fe;
            if subs.last() != Some(&a.substage) { subs.push(a.substage.clone()); }
        }
        if let Some(b) = &s.s2 {
            started = true;
            if b.calls < calls2 || b.fe < fe2 || b.improved > b.calls { v.push(("C12", "the counters of Stage 2 are not monotone".into())); break; }
            calls2 = b.calls; fe2 = b.fe;
            its.push(b.it);
        }
    }
    if see1 {
        let all = ["initialization_complete", "diversification_complete", "intensification_complete", "scatter_search_complete", "local_optimization_complete", "stage1_complete"];
        if subs != all { v.push(("C12", format!("callbacks of Stage 1 see the substages {subs:?}"))); }
    }
    if see2 && stage2_ran && !other {
        let total = { #[cfg(feature = "full")] { st.last_trial.map_or(0, |t| t + 1) } #[cfg(not(feature = "full"))] { out.fin.s2.as_ref().map_or(0, |f| if c.iters == 0 { 0 } else { f.it + 1 }) } };
        if freq == 0 { if !its.is_empty() { v.push(("C12", "callbacks in Stage 2 although their frequency is 0".into())); } } else {
            if let Some(i) = its.iter().find(|i| **i % freq != 0) { v.push(("C12", format!("a callback for trial {i} with callback frequency {freq}"))); }
            let want: Vec<usize> = (0..total).filter(|i| i % freq == 0).collect();
            let mut sorted = its.clone();
            sorted.sort();
            let short: Vec<usize> = want.iter().copied().filter(|i| i + 1 != total).collect();
            let stopped = { #[cfg(feature = "full")] { st.stopped } #[cfg(not(feature = "full"))] { c.target.is_some() } };
            let fine = sorted == want || (stopped && !is_par(c) && sorted == short) || (stopped && is_par(c) && { let b = c.batch.unwrap_or(8).min(c.iters.max(1)); sorted.iter().all(|i| want.contains(i)) && want.iter().filter(|i| **i + b < total).all(|i| sorted.contains(i)) });
            if !fine { v.push(("C12", format!("callbacks for trials {sorted:?}, expected {want:?}"))); }
        }
    }
    see1 || see2
}

fn key(o: &Out) -> (String, Vec<Vec<u64>>, Vec<Vec<u64>>) {
    (format!("{:?}", o.res.as_ref().map(|r| r.as_ref().map(|s| s.iter().map(|s| (bits(&s.p), s.o.to_bits())).collect::<Vec<_>>()))),
     o.log.iter().map(|r| bits(&r.x0)).collect(), o.evals.iter().filter(|e| !e.in_solver).map(|e| bits(&e.x)).collect())
}

fn non_interference(c: &Case, v: &mut Viol, r: &mut R) -> bool {
    let mut c = c.clone();
    #[cfg(feature = "full")]
    let par = c.par;
    #[cfg(not(feature = "full"))]
    let par = false;
    if par && c.batch.is_none() { c.batch = Some(3); }
    #[cfg(feature = "full")]
    let run = |o: Option<Obs>| {
        let d = ck::Scratch::new();
        let out = exec(&c, &Opt { obs: o, ck: Some(Ck { dir: d.0.clone(), freq: 1, keep_all: true, auto: false }), ..Opt::default() });
        let ks = ck::load_all(&d.0).unwrap_or_default();
        let states: Vec<(usize, St)> = ks.iter().map(|k| (k.0, st_of(&k.2))).collect();
        let rs = ks.last().map(|k| k.2.reference_set.iter().map(|p| bits(&p.to_vec())).collect::<Vec<_>>());
        (out, states, rs)
    };
    #[cfg(not(feature = "full"))]
    let run = |o: Option<Obs>| (exec(&c, &Opt { obs: o, ..Opt::default() }), Vec::<(usize, St)>::new(), None::<Vec<Vec<u64>>>);
    let (a, sa, ra) = run(None);
    let ob = gen_obs(r);
    let (b, sb, rb) = run(Some(ob.clone()));
    for o in [&a, &b] { if let Err(p) = &o.res { v.push(("*", format!("panic: {p}"))); return false; } }
    let (ka, kb) = (key(&a), key(&b));
    if par {
        if ra != rb { return false; } // the parallel first stage may differ in rounding from run to run
        let sorted = |mut x: Vec<Vec<u64>>| { x.sort(); x };
        if ka.0 != kb.0 || sa != sb || sorted(ka.1) != sorted(kb.1) { v.push(("C13", format!("an observer {ob:?} changes the run: {} against {}", ka.0, kb.0))); }
    } else {
        if ka.0 != kb.0 { v.push(("C13", format!("an observer {ob:?} changes the result: {} without, {} with it", ka.0, kb.0))); }
        else if ka.1 != kb.1 { v.push(("C13", format!("an observer {ob:?} changes the local searches: {} without, {} with it", ka.1.len(), kb.1.len()))); }
        else if ka.2 != kb.2 { v.push(("C13", format!("an observer {ob:?} changes the evaluated points: {} without, {} with it", ka.2.len(), kb.2.len()))); }
        else if sa != sb { v.push(("C13", format!("an observer {ob:?} changes the state of the run"))); }
    }
    a.log.len() > 1
}

fn deterministic(c: &Case, v: &mut Viol) -> bool {
    let a = exec(c, &Opt::default());
    let b = exec(c, &Opt::default());
    if let Err(p) = &a.res { v.push(("*", format!("panic: {p}"))); return false; }
    let (ka, kb) = (key(&a), key(&b));
    if ka != kb { v.push(("C17", format!("two sequential runs with the same seed differ: {} and {}, {} and {} local searches", ka.0, kb.0, ka.1.len(), kb.1.len()))); }
    a.log.len() > 1
}
