//! Random cases: everything about a case is a function of its 64-bit seed.
use crate::prob::{ObjKind, Prob, Spec};
use cobyla::Answer;
use std::sync::Arc;

#[derive(Clone)]
pub struct R(pub u64);
impl R {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn f01(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn f(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.f01() }
    pub fn chance(&mut self, p: f64) -> bool { self.f01() < p }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.below(v.len())].clone() }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_point(x: &[f64], salt: u64) -> u64 {
    let mut h = mix(salt ^ 0xABCD);
    for v in x { h = mix(h ^ v.to_bits()); }
    h
}

#[derive(Clone, Debug)]
pub struct Script {
    pub salt: u64,
    pub minima: Vec<(Vec<f64>, f64)>,
    /// 0 identity, 1 hashed minimum, 2 nearest minimum, 3 mix of identity and hashed minimum
    pub mode: u8,
    pub fail_one_in: u64,
    pub sleep_ms: u64,
}
impl Script {
    pub fn answer(&self, prob: &Spec, x0: &[f64]) -> Answer {
        let h = hash_point(x0, self.salt);
        let n_ev = 1 + (h >> 8) % 4;
        let mode = if self.mode == 3 { ((h >> 20) % 2) as u8 } else { self.mode };
        let (x, f) = match mode {
            0 => (x0.to_vec(), prob.value(x0)),
            1 => self.minima[(h >> 24) as usize % self.minima.len()].clone(),
            _ => {
                let d = |p: &[f64]| p.iter().zip(x0).map(|(a, b)| (a - b) * (a - b)).sum::<f64>();
                self.minima.iter().min_by(|a, b| d(&a.0).total_cmp(&d(&b.0))).unwrap().clone()
            }
        };
        let ok = self.fail_one_in == 0 || (h >> 40) % self.fail_one_in != 0;
        Answer { x, f, ok, evals: (0..n_ev).map(|_| x0.to_vec()).collect(), sleep_ms: self.sleep_ms }
    }
}

#[derive(Clone)]
pub struct Case {
    pub seed: u64,
    pub prob: Prob,
    pub pop: usize,
    pub iters: usize,
    pub wait: usize,
    pub tf: f64,
    pub df: f64,
    pub pseed: u64,
    pub target: Option<f64>,
    pub excl: bool,
    pub tol: Option<(f64, f64)>,
    pub custom: Option<Vec<Vec<f64>>>,
    pub par: bool,
    pub batch: Option<usize>,
    pub script: Script,
    pub max_time: Option<f64>,
}
impl Case {
    pub fn d(&self) -> usize { self.prob.0.lo.len() }
    pub fn describe(&self) -> String {
        format!(
            "dim={} lower={:?} upper={:?} objective={:?} constraints={:?} population_size={} iterations={} wait_cycle={} threshold_factor={:e} distance_factor={:e} seed={} target={:?} exclude_out_of_bounds={} tolerance={:?} custom_points={:?} parallel={} batch_iterations={:?} max_time={:?} local_solver_script={:?}",
            self.d(), self.prob.0.lo, self.prob.0.hi, self.prob.0.obj, self.prob.0.cons, self.pop, self.iters, self.wait,
            self.tf, self.df, self.pseed, self.target, self.excl, self.tol,
            self.custom.as_ref().map(|c| if c.len() > 8 { format!("{} points", c.len()) } else { format!("{c:?}") }),
            self.par, self.batch, self.max_time, self.script
        )
    }
}

/// What kind of case a property wants more of.
#[derive(Clone, Copy, Default)]
pub struct Want { pub cons: bool, pub custom: bool, pub target: bool, pub small: bool, pub odd_bounds: bool, pub fail: bool, pub seq: bool, pub no_stop: bool, pub dup: bool }

pub fn gen_case(seed: u64, w: Want) -> Case {
    let mut r = R(seed);
    let d = r.range(1, 4);
    let dyadic = !w.odd_bounds && r.chance(0.6);
    let (mut lo, mut hi) = (vec![], vec![]);
    for _ in 0..d {
        let (a, b) = if dyadic {
            r.pick(&[(-1.0, 1.0), (0.0, 2.0), (-2.0, 0.0), (-1.0, 3.0)])
        } else {
            let v = [(-5.0, 5.0), (0.1, 0.3), (-3.7, 11.3), (1e6, 1e6 + 3.0), (-1e-3, 1e-3), (5.0, 5.000001), (-1e5, 2e5), (0.0, 1e-12),
                (-1e9, 3e9), (1.0, 1.0 + 4.0 * f64::EPSILON), (-1e300, 1e300), (0.0, f64::MIN_POSITIVE), (-7.0, -2.0), (1.7e308, 1.75e308)];
            let k = if w.odd_bounds { v.len() } else { 7 };
            v[r.below(k)]
        };
        lo.push(a); hi.push(b);
    }
    let width = lo.iter().zip(&hi).map(|(a, b)| b - a).fold(0.0, f64::max);
    let obj = match r.below(9) {
        0 => ObjKind::Sphere, 1 | 2 => ObjKind::Floor, 3 => ObjKind::Linear, 4 => ObjKind::Constant,
        5 => ObjKind::Cos, 6 | 7 => ObjKind::Hash(r.next()), _ => ObjKind::Scaled(r.pick(&[1e9, -1e9, 1e-9, -3.0])),
    };
    let cons: Vec<usize> = if w.cons || r.chance(0.12) { (0..r.range(1, 2)).map(|_| r.below(4)).collect() } else { vec![] };
    let pop = if w.small { r.range(4, 12) } else if r.chance(0.2) { r.range(20, 32) } else { r.range(4, 19) };
    let iters = if r.chance(0.1) { r.below(3) } else { r.below(pop + 1).max(r.below(pop + 1)) };
    let wait = if r.chance(0.1) { r.pick(&[0, 1, 1000, usize::MAX]) } else { r.range(1, 5) };
    let tf = if r.chance(0.7) { r.pick(&[0.25, 0.5, 0.125, 1.0, 0.2]) } else { r.f(1e-6, 2.0) };
    let df = if dyadic { r.pick(&[0.0, 0.25, 0.5, 1.0, 0.5, 0.125, 2.0]) } else { r.pick(&[0.0, 0.01, 0.1, 0.3]) * width };
    let pseed = if r.chance(0.1) { u64::MAX - r.below(4) as u64 } else { r.next() % 100000 };
    let spec = Spec::new(lo.clone(), hi.clone(), obj, cons);
    let grid_point = |r: &mut R, inside: bool| -> Vec<f64> {
        (0..d).map(|i| {
            let n = if inside { r.below(9) as f64 } else { r.below(13) as f64 - 2.0 };
            let v = lo[i] + (hi[i] - lo[i]) * n / 8.0;
            if inside { v.clamp(lo[i], hi[i]) } else { v }
        }).collect()
    };
    let custom = if w.custom || r.chance(0.35) {
        let n = if w.custom && r.chance(0.15) { r.range(100, 110) } else if r.chance(0.15) { r.range(pop, pop + 8) } else { r.below(5) };
        Some((0..n).map(|_| if r.chance(0.6) { grid_point(&mut r, true) } else {
            (0..d).map(|i| r.f(lo[i], hi[i]).clamp(lo[i], hi[i])).collect()
        }).collect())
    } else { None };
    let tol = if r.chance(0.25) { None } else { Some(r.pick(&[(0.25, 0.0), (0.5, 0.0), (0.0, 0.0), (0.0, 0.125), (0.25, 0.125), (1e-8, 1e-6), (1.0, 0.0), (0.0, 0.5)])) };
    let unit = match tol { Some((a, _)) if a >= 0.1 => a / 2.0, _ => 0.125 };
    let base = r.pick(&[0.0, 0.0, 1.0, -2.0, 4.0, -0.5]);
    let k = r.range(1, 6);
    let spread = r.pick(&[2u64, 4, 8, 20]);
    let oob = r.chance(0.4);
    let minima: Vec<(Vec<f64>, f64)> = (0..k).map(|j| {
        let p = if oob && r.chance(0.4) { grid_point(&mut r, false) } else { grid_point(&mut r, true) };
        let m = r.next() % (spread + 1);
        let mut f = base + unit * (m as f64 - (spread / 2) as f64);
        if r.chance(0.15) { f = base + r.f(-1.0, 1.0); }
        if r.chance(0.1) { f = base * (1.0 + j as f64 * 3e-7) + j as f64 * 3e-9; }
        (p, f)
    }).collect();
    let script = Script {
        salt: r.next(), mode: r.pick(&[0, 1, 1, 2, 3, 3]),
        fail_one_in: if w.fail && r.chance(0.3) { r.range(2, 12) as u64 } else { 0 }, sleep_ms: 0, minima,
    };
    let target = if !w.no_stop && (r.chance(if w.target { 0.85 } else { 0.2 })) {
        let m = script.minima[r.below(script.minima.len())].1;
        Some(match r.below(5) { 0 | 1 => m, 2 => m - unit / 2.0, 3 => m + unit / 2.0, _ => base - 100.0 })
    } else { None };
    let par = if w.seq { false } else { r.chance(0.45) };
    let batch = if par { Some(r.pick(&[2, 3, 4, 5, 8, 64, 0, 1])) } else if r.chance(0.2) { Some(r.below(4)) } else { None };
    let batch = if par && r.chance(0.15) { None } else { batch };
    Case {
        seed, prob: Prob(Arc::new(spec)), pop, iters, wait, tf, df, pseed, target,
        excl: r.chance(0.4), tol, custom, par, batch, script, max_time: None,
    }
}
