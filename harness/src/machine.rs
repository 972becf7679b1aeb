//! Executable mirror of the specification functions that the Verus contracts are stated over.
//! Comparisons whose operands are equal only up to rounding are ambiguous: both outcomes are allowed.
use crate::cases::Case;

#[derive(Clone, Debug)]
pub struct Sol { pub p: Vec<f64>, pub o: f64 }
impl PartialEq for Sol { fn eq(&self, b: &Sol) -> bool { bits(&self.p) == bits(&b.p) && self.o.to_bits() == b.o.to_bits() } }
pub fn bits(p: &[f64]) -> Vec<u64> { p.iter().map(|v| v.to_bits()).collect() }

#[derive(Clone, Debug, PartialEq)]
pub struct St { pub thr: f64, pub sols: Option<Vec<Sol>>, pub df: Vec<Sol>, pub uc: usize }

#[derive(Clone, Debug)]
pub struct Cfg { pub lo: Vec<f64>, pub hi: Vec<f64>, pub excl: bool, pub abs: f64, pub rel: f64, pub dfac: f64, pub wait: usize, pub tfac: f64, pub target: Option<f64>, pub iters: usize }
impl Cfg {
    pub fn of(c: &Case) -> Cfg {
        let (abs, rel) = c.tol.unwrap_or((1e-8, 1e-6));
        Cfg { lo: c.prob.0.lo.clone(), hi: c.prob.0.hi.clone(), excl: c.excl, abs, rel, dfac: c.df, wait: c.wait, tfac: c.tf, target: c.target, iters: c.iters }
    }
    pub fn inb(&self, p: &[f64]) -> bool { p.iter().enumerate().all(|(i, v)| *v >= self.lo[i] && *v <= self.hi[i]) }
}

pub fn close(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs()) || (a.is_nan() && b.is_nan()) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tri { Yes, No, Amb }
/// a < b, strictly
fn lt(a: f64, b: f64, scale: f64) -> Tri {
    if a != b && a.is_finite() && b.is_finite() && (a - b).abs() <= 1e-12 * scale.abs().max(a.abs()).max(b.abs()) { Tri::Amb } else if a < b { Tri::Yes } else { Tri::No }
}
fn not(t: Tri) -> Tri { match t { Tri::Yes => Tri::No, Tri::No => Tri::Yes, t => t } }
fn and(a: Tri, b: Tri) -> Tri { if a == Tri::No || b == Tri::No { Tri::No } else if a == Tri::Yes && b == Tri::Yes { Tri::Yes } else { Tri::Amb } }
pub fn opts(t: Tri) -> Vec<bool> { match t { Tri::Yes => vec![true], Tri::No => vec![false], Tri::Amb => vec![true, false] } }

pub fn dist2(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum() }

/// farther than the distance factor from every processed local solution
pub fn far(df: &[Sol], dfac: f64, x: &[f64]) -> Tri {
    df.iter().fold(Tri::Yes, |t, s| and(t, lt(dfac * dfac, dist2(x, &s.p), 0.0)))
}
pub fn gate(st: &St, c: &Cfg, x: &[f64], obj: f64) -> Tri {
    and(if obj <= st.thr { Tri::Yes } else { not(lt(st.thr, obj, 0.0)) }, far(&st.df, c.dfac, x))
}
fn dup(sols: &[Sol], c: &Cfg, p: &[f64]) -> Tri {
    not(sols.iter().fold(Tri::Yes, |t, s| and(t, not(lt(dist2(p, &s.p), c.dfac * c.dfac, 0.0)))))
}
/// One processed local solution: the allowed (state, added) outcomes.
pub fn pls(st: &St, c: &Cfg, s: &Sol) -> Vec<(St, bool)> {
    let mut n = st.clone();
    n.df.push(s.clone());
    if c.excl && !c.inb(&s.p) { return vec![(n, false)]; }
    let Some(sols) = st.sols.clone() else {
        n.sols = Some(vec![s.clone()]);
        n.thr = s.o;
        return vec![(n, true)];
    };
    let (o1, o2) = (s.o, sols[0].o);
    let tol = c.abs.max(c.rel * o1.abs().max(o2.abs()));
    let mag = o1.abs().max(o2.abs());
    let better = lt(o1, o2 - tol, mag);
    let near = not(lt(tol, (o1 - o2).abs(), mag));
    let isdup = dup(&sols, c, &s.p);
    let mut out = vec![];
    for b in opts(better) {
        if b {
            let mut m = n.clone();
            m.sols = Some(vec![s.clone()]);
            m.thr = s.o;
            out.push((m, false));
        } else {
            for add in opts(and(near, not(isdup))) {
                let mut m = n.clone();
                if add { m.sols.as_mut().unwrap().push(s.clone()); }
                out.push((m, add));
            }
        }
    }
    out
}
/// A trial that is not searched from.
pub fn tick(st: &St, c: &Cfg) -> St {
    let mut n = st.clone();
    n.uc += 1;
    if n.uc >= c.wait { n.thr += c.tfac * (1.0 + n.thr.abs()); n.uc = 0; }
    n
}
pub fn best(sols: &[Sol]) -> &Sol { sols.iter().min_by(|a, b| a.o.total_cmp(&b.o)).unwrap() }
pub fn reached(st: &St, c: &Cfg) -> bool {
    match (c.target, &st.sols) {
        (Some(t), Some(s)) if !s.is_empty() => { let b = best(s); b.o <= t && (!c.excl || c.inb(&b.p)) }
        _ => false,
    }
}
/// What a batch may do: resulting state, start points searched from, number processed, stopped early, trials added.
#[derive(Clone, Debug)]
pub struct Outcome { pub st: St, pub starts: Vec<Vec<f64>>, pub processed: usize, pub stop_at: Option<usize>, pub added: usize, pub last_added: Option<Vec<f64>> }

pub type Solve<'a> = &'a dyn Fn(&[f64]) -> Sol;

pub fn seq_batch(st: &St, c: &Cfg, trials: &[(usize, Vec<f64>, f64)], solve: Solve) -> Vec<Outcome> {
    let mut live = vec![Outcome { st: st.clone(), starts: vec![], processed: 0, stop_at: None, added: 0, last_added: None }];
    for (i, x, obj) in trials {
        let mut next = vec![];
        for o in live {
            if o.stop_at.is_some() { next.push(o); continue; }
            for g in opts(gate(&o.st, c, x, *obj)) {
                if g { next.extend(local(&o, c, *i, x, *obj, solve)); } else { let mut m = o.clone(); m.st = tick(&o.st, c); next.push(m); }
            }
        }
        next.truncate(64);
        live = next;
    }
    live
}
fn local(o: &Outcome, c: &Cfg, i: usize, x: &[f64], obj: f64, solve: Solve) -> Vec<Outcome> {
    let s = solve(x);
    let mut pre = o.st.clone();
    pre.thr = obj;
    pls(&pre, c, &s).into_iter().map(|(st, added)| {
        let mut m = o.clone();
        m.starts.push(x.to_vec());
        m.processed += 1;
        if added { m.added += 1; }
        let changed = st.sols != pre.sols && o.st.sols.is_some();
        if changed { m.last_added = Some(s.p.clone()); }
        if reached(&st, c) { m.stop_at = Some(i); }
        m.st = st;
        m
    }).collect()
}
/// A batch whose gate is decided at its start; searches may run in any order, results are processed in trial order.
pub fn par_batch(st: &St, c: &Cfg, trials: &[(usize, Vec<f64>, f64)], solve: Solve) -> Vec<Outcome> {
    let mut parts: Vec<(Vec<usize>, usize)> = vec![(vec![], 0)];
    for (k, (_, x, obj)) in trials.iter().enumerate() {
        let mut next = vec![];
        for p in parts { for g in opts(gate(st, c, x, *obj)) { let mut q = p.clone(); if g { q.0.push(k) } else { q.1 += 1 } next.push(q); } }
        next.truncate(16);
        parts = next;
    }
    let mut out = vec![];
    for (locals, quick) in parts {
        let mut s = st.clone();
        for _ in 0..quick { s = tick(&s, c); }
        let mut live = vec![Outcome { st: s, starts: vec![], processed: 0, stop_at: None, added: 0, last_added: None }];
        for &k in &locals {
            let (i, x, obj) = &trials[k];
            let mut next = vec![];
            for o in live { if o.stop_at.is_some() { next.push(o) } else { next.extend(local(&o, c, *i, x, *obj, solve)) } }
            next.truncate(64);
            live = next;
        }
        // with two or more searches all of them run, also those behind an early stop
        for mut o in live {
            if locals.len() >= 2 { o.starts = locals.iter().map(|&k| trials[k].1.clone()).collect(); }
            out.push(o);
        }
    }
    out
}
