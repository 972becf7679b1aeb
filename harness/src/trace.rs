//! Checks one run of the optimizer, step by step, against the specification machine.
use crate::exec::*;
use crate::cases::Case;
use crate::machine::*;
use std::collections::HashMap;

pub type Viol = Vec<(&'static str, String)>;

pub fn count_points<'a>(v: impl Iterator<Item = &'a Vec<f64>>) -> HashMap<Vec<u64>, usize> {
    let mut m = HashMap::new();
    for x in v { *m.entry(bits(x)).or_insert(0) += 1; }
    m
}

pub struct Stats { pub gates_yes: usize, pub gates_no: usize, pub trials: usize, pub stopped: bool, pub replaced: usize, pub added: usize, pub dropped: usize, pub ticks_adj: usize, pub processed2: usize, pub adds2: usize, pub last_added: Option<Vec<f64>>, pub last_trial: Option<usize> }
impl Default for Stats { fn default() -> Self { Stats { gates_yes: 0, gates_no: 0, trials: 0, stopped: false, replaced: 0, added: 0, dropped: 0, ticks_adj: 0, processed2: 0, adds2: 0, last_added: None, last_trial: None } } }

/// Stage 1: everything evaluated before the first local search, the reference set if known, the first start.
pub fn stage1(c: &Case, evals: &[crate::prob::Eval], refset: Option<&[Vec<f64>]>, first: Option<&Vec<f64>>, v: &mut Viol) {
    let s = &c.prob.0;
    let e1: Vec<&crate::prob::Eval> = evals.iter().take_while(|e| !e.in_solver).collect();
    for e in &e1 {
        if !s.in_bounds(&e.x) { v.push(("C01", format!("Stage 1 evaluates the objective at {:?}, outside the bounds {:?} {:?}", e.x, s.lo, s.hi))); break; }
    }
    for e in &e1 {
        if !s.feasible(&e.x) { v.push(("C03", format!("Stage 1 evaluates the infeasible point {:?}", e.x))); break; }
    }
    let seen = count_points(e1.iter().map(|e| &e.x));
    let mut must: Vec<(&str, Vec<f64>)> = vec![("lower-bound corner", s.lo.clone()), ("upper-bound corner", s.hi.clone())];
    let mut given = 0;
    for p in c.custom.iter().flatten() { must.push(("user-supplied point", p.clone())); }
    for (what, p) in &must {
        if !s.feasible(p) { continue; }
        given += 1;
        if !seen.contains_key(&bits(p)) { v.push(("C19", format!("the {what} {p:?} is never evaluated in Stage 1"))); break; }
    }
    let mid: Vec<f64> = s.lo.iter().zip(&s.hi).map(|(a, b)| a / 2.0 + b / 2.0).collect();
    let near_mid = |x: &Vec<f64>| x.iter().zip(&mid).zip(s.lo.iter().zip(&s.hi)).all(|((a, b), (l, h))| (a - b).abs() <= 1e-9 * (h - l) + 4.0 * f64::EPSILON * l.abs().max(h.abs()));
    let robust_mid = s.feasible(&mid);
    if robust_mid {
        given += 1;
        if !e1.iter().any(|e| near_mid(&e.x)) { v.push(("C19", format!("the centre of the box {mid:?} is never evaluated in Stage 1"))); }
    }
    // user-supplied points count with multiplicity
    for p in c.custom.iter().flatten() {
        let want = c.custom.iter().flatten().filter(|q| bits(q) == bits(p)).count();
        if s.feasible(p) && seen.get(&bits(p)).copied().unwrap_or(0) < want { v.push(("C19", format!("user-supplied point {p:?} evaluated fewer than {want} times"))); break; }
    }
    if e1.len() < c.pop { v.push(("C02", format!("Stage 1 evaluates only {} points for population size {}", e1.len(), c.pop))); }
    if let Some(r) = refset {
        for x in r {
            if !s.in_bounds(x) { v.push(("C01", format!("reference point {x:?} outside the bounds {:?} {:?}", s.lo, s.hi))); break; }
        }
        for x in r {
            if !s.feasible(x) { v.push(("C03", format!("reference point {x:?} violates a constraint"))); break; }
        }
        if !(r.len() == c.pop || (given > c.pop && r.len() == given)) {
            v.push(("C02", format!("the reference set has {} points for population size {} ({given} seed and user-supplied points)", r.len(), c.pop)));
        }
        let m = count_points(r.iter());
        for (k, n) in &m {
            if seen.get(k).copied().unwrap_or(0) < *n {
                v.push(("C02", format!("reference point {:?} was not evaluated (or not so often) in Stage 1", k.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>())));
                break;
            }
        }
        let mut have: Vec<f64> = r.iter().map(|x| s.value(x)).collect();
        have.sort_by(f64::total_cmp);
        let mut all: Vec<f64> = e1.iter().filter_map(|e| e.f).collect();
        all.sort_by(f64::total_cmp);
        if have.iter().zip(&all).any(|(a, b)| a != b) {
            v.push(("C02", format!("the reference set does not hold the best evaluated points: objectives kept {have:?}, best evaluated {:?}", &all[..have.len().min(all.len())])));
        }
        if let (Some(f), Some(best)) = (first, have.first()) {
            if !m.contains_key(&bits(f)) || s.value(f) != *best {
                v.push(("C02", format!("the first local search starts at {f:?} (objective {}), the best reference objective is {best}", s.value(f))));
            }
        }
    }
}

pub fn chunk_fold(prev: &St, cfg: &Cfg, trials: &[(usize, Vec<f64>, f64)], par: bool, b: usize, solve: Solve) -> Vec<Outcome> {
    if !par { return seq_batch(prev, cfg, trials, solve); }
    let mut live = vec![Outcome { st: prev.clone(), starts: vec![], processed: 0, stop_at: None, added: 0, last_added: None }];
    for ch in trials.chunks(b.max(1)) {
        let mut next = vec![];
        for o in live {
            if o.stop_at.is_some() { next.push(o); continue; }
            for mut q in par_batch(&o.st, cfg, ch, solve) {
                let mut starts = o.starts.clone();
                starts.extend(q.starts.iter().cloned());
                q.starts = starts;
                q.processed += o.processed;
                q.added += o.added;
                if q.last_added.is_none() { q.last_added = o.last_added.clone(); }
                next.push(q);
            }
        }
        next.truncate(64);
        live = next;
    }
    live
}

pub fn st_diff(o: &St, s: &St) -> Option<(&'static str, String)> {
    if o.sols != s.sols { return Some(("C05", format!("solution set is {:?}, expected {:?}", s.sols, o.sols))); }
    if !close(o.thr, s.thr) { return Some(("C11", format!("merit threshold is {:e}, expected {:e}", s.thr, o.thr))); }
    if o.uc != s.uc { return Some(("C11", format!("waiting counter is {}, expected {}", s.uc, o.uc))); }
    if o.df != s.df { return Some(("C04", format!("processed local solutions are {:?}, expected {:?}", s.df, o.df))); }
    None
}

pub struct Trace<'a> { pub c: &'a Case, pub cfg: Cfg, pub par: bool, pub batch: Option<usize>, pub refset: Vec<Vec<f64>>, pub iters: usize }

impl Trace<'_> {
    /// `states`: observed (iteration, state) in order; `starts`: Stage 2 starts in order.
    pub fn stage2(&self, from: usize, s0: St, states: &[(usize, St)], starts: &[Vec<f64>], v: &mut Viol, stats: &mut Stats) {
        let c = self.c;
        let solve = |x: &[f64]| { let a = c.script.answer(&c.prob.0, x); Sol { p: a.x, o: a.f } };
        let end = self.iters.min(self.refset.len());
        let (mut pos, mut st, mut ptr, mut stopped) = (from, s0, 0usize, false);
        if reached(&st, &self.cfg) { stopped = true; }
        for (k, (it, seen)) in states.iter().enumerate() {
            if *it < pos { v.push(("C09", format!("checkpoint of iteration {it} after one of iteration {pos}"))); return; }
            if *it > end && *it > pos { v.push(("C07", format!("checkpoint of iteration {it}, but only {end} trials are to be processed"))); return; }
            if *it == pos {
                if let Some((p, m)) = st_diff(&st, seen) { v.push((p, format!("before trial {pos}: {m}"))); return; }
                continue;
            }
            if stopped { v.push(("C07", format!("trial {pos} is processed although the run was to stop before it"))); return; }
            let trials: Vec<(usize, Vec<f64>, f64)> = (pos..*it).map(|i| (i, self.refset[i].clone(), c.prob.0.value(&self.refset[i]))).collect();
            if !self.par && trials.len() > 1 { v.push(("C09", format!("no checkpoint between trials {pos} and {it} although one is to be saved after each"))); }
            let b = self.batch.unwrap_or(trials.len());
            let outs = chunk_fold(&st, &self.cfg, &trials, self.par, b, &solve);
            let matches_starts = |o: &Outcome| {
                let n = o.starts.len();
                if ptr + n > starts.len() { return false; }
                let got = &starts[ptr..ptr + n];
                if self.par { count_points(got.iter()) == count_points(o.starts.iter()) } else { got.iter().zip(&o.starts).all(|(a, b)| bits(a) == bits(b)) }
            };
            let grown = seen.df.len() as i64 - st.df.len() as i64;
            let good = outs.iter().find(|o| matches_starts(o) && st_diff(&o.st, seen).is_none());
            let Some(o) = good else {
                // name what differs, preferring outcomes that agree on the searches
                let o = outs.iter().find(|o| matches_starts(o) && o.processed as i64 == grown).unwrap_or(&outs[0]);
                let where_ = format!("trials {pos}..{it} (state before: threshold {:e}, waiting {}, {} processed solutions; objectives {:?})", st.thr, st.uc, st.df.len(), trials.iter().map(|t| t.2).collect::<Vec<_>>());
                if !matches_starts(o) || o.processed as i64 != grown {
                    v.push(("C04", format!("{where_}: local searches expected from {:?}, next searches were {:?}, {} processed", o.starts, starts.get(ptr..(ptr + o.starts.len() + 1).min(starts.len())), grown)));
                    if let Some((p, m)) = st_diff(&o.st, seen) { if p == "C11" { v.push((p, format!("{where_}: {m}"))); } }
                } else if let Some((p, m)) = st_diff(&o.st, seen) {
                    v.push((p, format!("{where_}: {m}")));
                    let mut o2 = o.st.clone();
                    o2.sols = seen.sols.clone();
                    if p == "C05" { if let Some((p, m)) = st_diff(&o2, seen) { v.push((p, format!("{where_}: {m}"))); } }
                }
                return;
            };
            stats.gates_yes += o.starts.len();
            stats.gates_no += trials.len().saturating_sub(o.starts.len());
            stats.trials += trials.len();
            stats.adds2 += o.added;
            stats.processed2 += o.processed;
            if o.last_added.is_some() { stats.last_added = o.last_added.clone(); }
            if o.added == 0 && o.st.sols != st.sols { stats.replaced += 1; }
            stats.dropped += o.processed - o.added.min(o.processed);
            if o.st.thr > st.thr { stats.ticks_adj += 1; }
            ptr += o.starts.len();
            if let Some(i) = o.stop_at {
                stopped = true;
                stats.stopped = true;
                if !self.par && *it != i + 1 { v.push(("C07", format!("target reached at trial {i}, but the run went on to {it}"))); return; }
            }
            let _ = k;
            pos = *it;
            stats.last_trial = Some(pos - 1);
            st = seen.clone();
        }
        if ptr < starts.len() { v.push((if stopped { "C07" } else { "C04" }, format!("{} further local searches, first from {:?}", starts.len() - ptr, starts[ptr]))); return; }
        if !stopped && pos < end && c.max_time.is_none() { v.push(("C07", format!("the run stopped after trial {pos} of {end} although no target was reached"))); }
    }
}

/// direct statement of the solution-set invariant
pub fn set_invariant(cfg: &Cfg, sols: &[Sol], v: &mut Viol) {
    let o2 = sols[0].o;
    for s in sols {
        let tol = cfg.abs.max(cfg.rel * s.o.abs().max(o2.abs()));
        if (s.o - o2).abs() > tol * (1.0 + 1e-12) { v.push(("C05", format!("solution set mixes objectives {o2:e} and {:e} (tolerance {tol:e})", s.o))); }
        if cfg.excl && !cfg.inb(&s.p) { v.push(("C05", format!("solution {:?} is out of bounds although such solutions are excluded", s.p))); }
    }
    for i in 0..sols.len() { for j in 0..i {
        if dist2(&sols[i].p, &sols[j].p) < cfg.dfac * cfg.dfac * (1.0 - 1e-12) { v.push(("C05", format!("solutions {:?} and {:?} are closer than the distance factor {:e}", sols[i].p, sols[j].p, cfg.dfac))); }
    } }
}

pub fn after_stage1(c: &Case, cfg: &Cfg, first: &cobyla::Rec) -> St {
    let _ = c;
    let s0 = Sol { p: first.x.clone(), o: first.f };
    let st = St { thr: s0.o, sols: None, df: vec![], uc: 0 };
    pls(&st, cfg, &s0).remove(0).0
}

pub fn allowed_error(c: &Case, e: &str) -> bool {
    (c.script.fail_one_in > 0 && e.contains("COBYLA")) || (!c.prob.0.cons.is_empty() && e.contains("No feasible candidates")) || c.prob.0.err_one_in > 0
}

#[cfg(feature = "full")]
pub fn st_of(k: &globalsearch::types::OQNLPCheckpoint) -> St {
    St {
        thr: k.merit_threshold, uc: k.unchanged_cycles,
        sols: k.solution_set.as_ref().map(sols_of),
        df: k.distance_filter_solutions.iter().map(|l| Sol { p: l.point.to_vec(), o: l.objective }).collect(),
    }
}
#[cfg(feature = "full")]
pub fn is_par(c: &Case) -> bool { c.par && c.batch.is_none_or(|b| b > 1) }
#[cfg(not(feature = "full"))]
pub fn is_par(_c: &Case) -> bool { false }

/// A whole run with a checkpoint after every trial (batch), checked step by step.
#[cfg(feature = "full")]
pub fn full(c: &Case, obs: Option<Obs>, v: &mut Viol, stats: &mut Stats) -> Option<(Out, Vec<(usize, std::path::PathBuf, globalsearch::types::OQNLPCheckpoint)>, ck::Scratch)> {
    let dir = ck::Scratch::new();
    let out = exec(c, &Opt { ck: Some(Ck { dir: dir.0.clone(), freq: 1, keep_all: true, auto: false }), obs, ..Opt::default() });
    let cfg = Cfg::of(c);
    match &out.res {
        Err(p) => { v.push(("*", format!("panic: {p}"))); return None; }
        Ok(Err(e)) if !allowed_error(c, e) && !e.contains("No feasible solution found") => { v.push(("C18", format!("a valid configuration fails: {e}"))); return None; }
        _ => {}
    }
    if out.log.is_empty() && out.ok().is_none() { return None; } // Stage 1 failed, with an error that is allowed
    let cks = match ck::load_all(&dir.0) { Ok(k) => k, Err(e) => { v.push(("C09", format!("saved checkpoints cannot be read: {e}"))); return None; } };
    let refset: Option<Vec<Vec<f64>>> = cks.last().map(|k| k.2.reference_set.iter().map(|x| x.to_vec()).collect());
    stage1(c, &out.evals, refset.as_deref(), out.log.first().map(|r| &r.x0), v);
    let Some(first) = out.log.first() else { return Some((out, cks, dir)) };
    for r in &out.log {
        if !c.prob.0.in_bounds(&r.x0) { v.push(("C01", format!("a local search starts outside the bounds, at {:?}", r.x0))); break; }
        if !c.prob.0.feasible(&r.x0) { v.push(("C03", format!("a local search starts at the infeasible point {:?}", r.x0))); break; }
    }
    if out.log.iter().any(|r| !r.ok) || c.prob.0.err_one_in > 0 {
        // the solver failed: the failure is reported, and nothing more is specified
        if out.log.iter().any(|r| !r.ok) && out.ok().is_some() { v.push(("C14", "a failed local search is not reported".to_string())); }
        return Some((out, cks, dir));
    }
    let s0 = after_stage1(c, &cfg, first);
    let starts: Vec<Vec<f64>> = out.log[1..].iter().map(|r| r.x0.clone()).collect();
    let fin = match (reached(&s0, &cfg), refset) {
        (true, _) | (_, None) => {
            if reached(&s0, &cfg) {
                stats.stopped = true;
                if !starts.is_empty() { v.push(("C07", format!("target reached by the first local search, but {} more follow", starts.len()))); }
            } else { v.push(("C07", "the run stopped after Stage 1 although no target was reached".into())); }
            s0.clone()
        }
        (false, Some(refset)) => {
            let t = Trace { c, cfg: cfg.clone(), par: is_par(c), batch: c.batch, refset, iters: c.iters };
            let states: Vec<(usize, St)> = cks.iter().map(|k| (k.0, st_of(&k.2))).collect();
            for k in &cks { if k.2.reference_set != cks[0].2.reference_set { v.push(("C09", "the saved reference set changes during the run".into())); break; } }
            for k in &cks { if k.2.current_iteration != k.0 { v.push(("C10", format!("checkpoint file of iteration {} holds iteration {}", k.0, k.2.current_iteration))); break; } }
            t.stage2(0, s0, &states, &starts, v, stats);
            cks.last().map(|k| st_of(&k.2)).unwrap()
        }
    };
    if let Some(s) = &fin.sols { set_invariant(&cfg, s, v); }
    match (&fin.sols, &out.res) {
        (Some(s), Ok(Ok(r))) if s != r => v.push(("C05", format!("returned set {r:?} differs from the final set {s:?}"))),
        (Some(_), Ok(Err(e))) => v.push(("C05", format!("a run with solutions returns the error {e}"))),
        (None, Ok(Ok(r))) => v.push(("C05", format!("a run without accepted solutions returns {r:?}"))),
        _ => {}
    }
    Some((out, cks, dir))
}

/// Checks that need neither checkpoints nor rayon: searches in log order.
pub fn light(c: &Case, v: &mut Viol, stats: &mut Stats) -> Option<Out> {
    let obs = Obs { mode: globalsearch::observers::ObserverMode::Both, s1: true, s2: true, timing: false, freq: Some(1), cb: true };
    let out = exec(c, &Opt { obs: Some(obs), ..Opt::default() });
    let cfg = Cfg::of(c);
    match &out.res {
        Err(p) => { v.push(("*", format!("panic: {p}"))); return None; }
        Ok(Err(e)) if !allowed_error(c, e) && !e.contains("No feasible solution found") => { v.push(("C18", format!("a valid configuration fails: {e}"))); return None; }
        _ => {}
    }
    if out.log.is_empty() && out.ok().is_none() { return None; }
    stage1(c, &out.evals, None, None, v);
    for r in &out.log {
        if !c.prob.0.in_bounds(&r.x0) { v.push(("C01", format!("a local search starts outside the bounds, at {:?}", r.x0))); break; }
        if !c.prob.0.feasible(&r.x0) { v.push(("C03", format!("a local search starts at the infeasible point {:?}", r.x0))); break; }
    }
    if out.log.is_empty() || out.log.iter().any(|r| !r.ok) || is_par(c) || c.prob.0.err_one_in > 0 { return Some(out); }
    let s0 = after_stage1(c, &cfg, &out.log[0]);
    // the observer tells which trial index each later search belongs to, and the threshold before it
    let snaps: Vec<&S2> = out.snaps.iter().filter_map(|s| s.s2.as_ref()).collect();
    let mut live = vec![s0.clone()];
    let mut stopped = reached(&s0, &cfg);
    let mut calls = 0usize;
    let fin = out.fin.s2.clone();
    for (k, r) in out.log[1..].iter().enumerate() {
        if stopped { v.push(("C07", format!("local search from {:?} after the target was reached", r.x0))); return Some(out); }
        let obj = c.prob.0.value(&r.x0);
        let s = Sol { p: r.x.clone(), o: r.f };
        if live.iter().all(|st| far(&st.df, cfg.dfac, &r.x0) == Tri::No) { v.push(("C04", format!("local search from {:?}, which is within the distance factor {:e} of a processed solution", r.x0, cfg.dfac))); return Some(out); }
        let snap = snaps.iter().find(|s| s.calls == k + 1).copied().or(fin.as_ref().filter(|f| f.calls == k + 1));
        if let Some(sn) = snap {
            if obj > sn.thr { v.push(("C04", format!("local search from {:?} with objective {obj:e} above the threshold {:e}", r.x0, sn.thr))); return Some(out); }
        }
        let mut next: Vec<St> = vec![];
        for st in &live { let mut p = st.clone(); p.thr = obj; for (n, a) in pls(&p, &cfg, &s) { if a { stats.added += 1; } if !next.contains(&n) { next.push(n) } } }
        next.truncate(64);
        live = next;
        if live.iter().all(|s| reached(s, &cfg)) { stopped = true; stats.stopped = true; }
        calls += 1;
    }
    stats.gates_yes += calls;
    stats.processed2 = calls;
    let got: Option<Vec<Sol>> = out.ok().cloned();
    if !live.iter().any(|s| s.sols == got) { v.push(("C05", format!("returned set {got:?}, expected {:?}", live[0].sols))); }
    if let Some(s) = &got { set_invariant(&cfg, s, v); }
    // thresholds between consecutive trials without a search in between
    for w in snaps.windows(2) {
        let (a, b) = (w[0], w[1]);
        if b.it != a.it + 1 { v.push(("C07", format!("trial {} follows trial {}", b.it, a.it))); return Some(out); }
        if a.calls == b.calls && a.it > 0 {
            // trial a (threshold before it: a.thr); if it was not searched from, at most one relaxation happens
            let prev_calls = snaps.iter().filter(|s| s.it + 1 == a.it).map(|s| s.calls).next();
            if prev_calls == Some(a.calls) {
                let st = St { thr: a.thr, sols: None, df: vec![], uc: a.uc };
                let n = tick(&st, &cfg);
                if !close(n.thr, b.thr) || n.uc != b.uc { v.push(("C11", format!("after trial {}: threshold {:e} and waiting counter {}, expected {:e} and {}", a.it, b.thr, b.uc, n.thr, n.uc))); return Some(out); }
                stats.gates_no += 1;
            }
        }
    }
    if !stopped && c.max_time.is_none() {
        if let Some(l) = snaps.last() { if l.it + 1 != c.iters { v.push(("C07", format!("last trial is {}, {} trials were to be processed", l.it, c.iters))); } }
        else if c.iters > 0 { v.push(("C07", format!("no trial is processed although {} iterations are set", c.iters))); }
    }
    Some(out)
}
