//! Local solver dispatch and configuration (C14), configuration builders (C15).
use crate::exec::*;
use crate::cases::*;
use crate::machine::bits;
use crate::prob::*;
use crate::trace::Viol;
use argmin::core::{CostFunction, Error, Executor, Gradient, Hessian, State};
use argmin::solver::gradientdescent::SteepestDescent;
use argmin::solver::linesearch::{HagerZhangLineSearch, MoreThuenteLineSearch};
use argmin::solver::neldermead::NelderMead;
use argmin::solver::newton::NewtonCG;
use argmin::solver::quasinewton::LBFGS;
use argmin::solver::trustregion::{CauchyPoint, Steihaug, TrustRegion};
use globalsearch::local_solver::builders::*;
use globalsearch::local_solver::runner::{LocalSolver, LocalSolverError};
use globalsearch::problem::Problem;
use globalsearch::types::*;
use ndarray::{Array1, Array2, array};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};

/// A smooth problem with gradient and Hessian; counts its evaluations.
#[derive(Clone)]
pub struct Smooth { pub a: f64, pub c: Vec<f64>, pub n: Arc<AtomicU64>, pub work: Arc<AtomicU64>, pub fail: bool }
impl Smooth {
    /// some third-party line searches never end: give up after many evaluations
    fn tick(&self) { if self.work.fetch_add(1, Ordering::Relaxed) > 20000 { panic!("evaluation budget"); } }
}
impl Problem for Smooth {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        self.n.fetch_add(1, Ordering::Relaxed);
        self.tick();
        if self.fail { return Err(EvaluationError::DivisionByZero); }
        Ok(x.iter().zip(&self.c).enumerate().map(|(i, (v, c))| (1.0 + i as f64) * (v - c).powi(2) + self.a * (v - c).powi(4)).sum())
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        self.tick();
        Ok(x.iter().zip(&self.c).enumerate().map(|(i, (v, c))| 2.0 * (1.0 + i as f64) * (v - c) + 4.0 * self.a * (v - c).powi(3)).collect())
    }
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, EvaluationError> {
        let d = x.len();
        Ok(Array2::from_shape_fn((d, d), |(i, j)| if i == j { 2.0 * (1.0 + i as f64) + 12.0 * self.a * (x[i] - self.c[i]).powi(2) } else { 0.0 }))
    }
    fn variable_bounds(&self) -> Array2<f64> { Array2::from_shape_fn((self.c.len(), 2), |(_, j)| if j == 0 { -10.0 } else { 10.0 }) }
}
struct Cost<'a>(&'a Smooth);
impl CostFunction for Cost<'_> { type Param = Array1<f64>; type Output = f64; fn cost(&self, p: &Array1<f64>) -> Result<f64, Error> { self.0.objective(p).map_err(|e| Error::msg(e.to_string())) } }
impl Gradient for Cost<'_> { type Param = Array1<f64>; type Gradient = Array1<f64>; fn gradient(&self, p: &Array1<f64>) -> Result<Array1<f64>, Error> { self.0.gradient(p).map_err(|e| Error::msg(e.to_string())) } }
impl Hessian for Cost<'_> { type Param = Array1<f64>; type Hessian = Array2<f64>; fn hessian(&self, p: &Array1<f64>) -> Result<Array2<f64>, Error> { self.0.hessian(p).map_err(|e| Error::msg(e.to_string())) } }

/// The same method called on argmin directly, with the settings of `cfg`.
fn direct(p: &Smooth, cfg: &LocalSolverConfig, x0: &Array1<f64>) -> Result<(Vec<f64>, f64), Error> {
    macro_rules! mt { ($c1:expr, $c2:expr, $w:expr, $b:expr) => { MoreThuenteLineSearch::new().with_c(*$c1, *$c2)?.with_bounds($b[0], $b[1])?.with_width_tolerance(*$w)? } }
    macro_rules! hz { ($d:expr, $s:expr, $e:expr, $t:expr, $g:expr, $n:expr, $b:expr) => { HagerZhangLineSearch::new().with_delta_sigma(*$d, *$s)?.with_epsilon(*$e)?.with_theta(*$t)?.with_gamma(*$g)?.with_eta(*$n)?.with_bounds($b[0], $b[1])? } }
    macro_rules! go { ($s:expr, $m:expr) => {{
        let r = Executor::new(Cost(p), $s).configure(|s| s.param(x0.clone()).max_iters(*$m)).run()?;
        (r.state().get_best_param().cloned(), r.state().get_best_cost())
    }} }
    macro_rules! with_ls { ($ls:expr, |$l:ident| $body:expr) => { match &$ls.method {
        LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => { let $l = mt!(c1, c2, width_tolerance, bounds); $body }
        LineSearchMethod::HagerZhang { delta, sigma, epsilon, theta, gamma, eta, bounds } => { let $l = hz!(delta, sigma, epsilon, theta, gamma, eta, bounds); $body }
    } } }
    let (x, f) = match cfg {
        LocalSolverConfig::LBFGS { max_iter, tolerance_grad, tolerance_cost, history_size, l1_coefficient, line_search_params } => with_ls!(line_search_params, |l| {
            let mut s = LBFGS::new(l, *history_size).with_tolerance_cost(*tolerance_cost)?.with_tolerance_grad(*tolerance_grad)?;
            if let Some(k) = l1_coefficient { s = s.with_l1_regularization(*k)?; }
            go!(s, max_iter)
        }),
        LocalSolverConfig::NelderMead { simplex_delta, sd_tolerance, max_iter, alpha, gamma, rho, sigma } => {
            let mut sim = vec![x0.clone()];
            for i in 0..x0.len() { let mut q = x0.clone(); q[i] += simplex_delta; sim.push(q); }
            let s = NelderMead::new(sim).with_sd_tolerance(*sd_tolerance)?.with_alpha(*alpha)?.with_gamma(*gamma)?.with_rho(*rho)?.with_sigma(*sigma)?;
            let r = Executor::new(Cost(p), s).configure(|s| s.max_iters(*max_iter)).run()?;
            (r.state().get_best_param().cloned(), r.state().get_best_cost())
        }
        LocalSolverConfig::SteepestDescent { max_iter, line_search_params } => with_ls!(line_search_params, |l| go!(SteepestDescent::new(l), max_iter)),
        LocalSolverConfig::TrustRegion { trust_region_radius_method, max_iter, radius, max_radius, eta } => match trust_region_radius_method {
            TrustRegionRadiusMethod::Cauchy => go!(TrustRegion::new(CauchyPoint::new()).with_radius(*radius)?.with_max_radius(*max_radius)?.with_eta(*eta)?, max_iter),
            TrustRegionRadiusMethod::Steihaug => go!(TrustRegion::new(Steihaug::new()).with_radius(*radius)?.with_max_radius(*max_radius)?.with_eta(*eta)?, max_iter),
        },
        LocalSolverConfig::NewtonCG { max_iter, curvature_threshold, tolerance, line_search_params } => with_ls!(line_search_params, |l| go!(NewtonCG::new(l).with_curvature_threshold(*curvature_threshold).with_tolerance(*tolerance)?, max_iter)),
        LocalSolverConfig::COBYLA { .. } => unreachable!(),
    };
    x.map(|x| (x.to_vec(), f)).ok_or_else(|| Error::msg("no solution"))
}

pub fn types() -> Vec<LocalSolverType> { use LocalSolverType::*; vec![LBFGS, NelderMead, SteepestDescent, TrustRegion, NewtonCG, COBYLA] }
fn ls(r: &mut R) -> LineSearchParams {
    if r.chance(0.5) {
        LineSearchParams { method: LineSearchMethod::MoreThuente { c1: r.pick(&[1e-4, 1e-3, 0.1]), c2: r.pick(&[0.9, 0.5, 0.2]), width_tolerance: r.pick(&[1e-10, 1e-3]), bounds: r.pick(&[array![1e-8, 1e5], array![1e-3, 0.7], array![1e-8, f64::INFINITY]]) } }
    } else {
        LineSearchParams { method: LineSearchMethod::HagerZhang { delta: r.pick(&[0.1, 0.2]), sigma: r.pick(&[0.9, 0.6]), epsilon: r.pick(&[1e-6, 1e-2]), theta: r.pick(&[0.5, 0.3]), gamma: r.pick(&[0.66, 0.4]), eta: r.pick(&[0.01, 0.2]), bounds: r.pick(&[array![f64::EPSILON, 1e5], array![1e-6, 3.0]]) } }
    }
}
pub fn config(t: &LocalSolverType, r: &mut R) -> LocalSolverConfig {
    let max_iter = r.pick(&[1, 2, 3, 5, 9, 20, 60]);
    match t {
        LocalSolverType::LBFGS => LocalSolverConfig::LBFGS { max_iter, tolerance_grad: r.pick(&[1e-8, 1e-2, 0.5]), tolerance_cost: r.pick(&[1e-15, 1e-3]), history_size: r.range(1, 6), l1_coefficient: r.pick(&[None, None, Some(0.1)]), line_search_params: ls(r) },
        LocalSolverType::NelderMead => LocalSolverConfig::NelderMead { simplex_delta: r.pick(&[0.1, 0.5, -0.3]), sd_tolerance: r.pick(&[1e-15, 1e-2]), max_iter, alpha: r.pick(&[1.0, 0.8]), gamma: r.pick(&[2.0, 1.7]), rho: r.pick(&[0.5, 0.3]), sigma: r.pick(&[0.5, 0.4]) },
        LocalSolverType::SteepestDescent => LocalSolverConfig::SteepestDescent { max_iter, line_search_params: ls(r) },
        LocalSolverType::TrustRegion => LocalSolverConfig::TrustRegion { trust_region_radius_method: r.pick(&[TrustRegionRadiusMethod::Cauchy, TrustRegionRadiusMethod::Steihaug]), max_iter, radius: r.pick(&[1.0, 0.3]), max_radius: r.pick(&[100.0, 0.5]), eta: r.pick(&[0.125, 0.2]) },
        LocalSolverType::NewtonCG => LocalSolverConfig::NewtonCG { max_iter, curvature_threshold: r.pick(&[0.0, 3.0, 1e3]), tolerance: r.pick(&[1e-15, 0.05, 0.5]), line_search_params: ls(r) },
        LocalSolverType::COBYLA => LocalSolverConfig::COBYLA { max_iter: r.next() % 5000, initial_step_size: r.f(0.01, 2.0), ftol_rel: r.f(0.0, 1.0), ftol_abs: r.f(0.0, 1.0), xtol_rel: r.f(0.0, 1.0), xtol_abs: (0..r.below(4)).map(|_| r.f01()).collect() },
    }
}
pub fn sig(c: &LocalSolverConfig) -> String {
    let l = |p: &LineSearchParams| match &p.method {
        LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => format!("MT {:?}", [*c1, *c2, *width_tolerance].iter().chain(bounds.iter()).map(|v| v.to_bits()).collect::<Vec<_>>()),
        LineSearchMethod::HagerZhang { delta, sigma, epsilon, theta, gamma, eta, bounds } => format!("HZ {:?}", [*delta, *sigma, *epsilon, *theta, *gamma, *eta].iter().chain(bounds.iter()).map(|v| v.to_bits()).collect::<Vec<_>>()),
    };
    match c {
        LocalSolverConfig::LBFGS { max_iter, tolerance_grad, tolerance_cost, history_size, l1_coefficient, line_search_params } => format!("LBFGS {max_iter} {:e} {:e} {history_size} {l1_coefficient:?} {}", tolerance_grad, tolerance_cost, l(line_search_params)),
        LocalSolverConfig::NelderMead { simplex_delta, sd_tolerance, max_iter, alpha, gamma, rho, sigma } => format!("NM {simplex_delta:e} {sd_tolerance:e} {max_iter} {alpha:e} {gamma:e} {rho:e} {sigma:e}"),
        LocalSolverConfig::SteepestDescent { max_iter, line_search_params } => format!("SD {max_iter} {}", l(line_search_params)),
        LocalSolverConfig::TrustRegion { trust_region_radius_method, max_iter, radius, max_radius, eta } => format!("TR {trust_region_radius_method:?} {max_iter} {radius:e} {max_radius:e} {eta:e}"),
        LocalSolverConfig::NewtonCG { max_iter, curvature_threshold, tolerance, line_search_params } => format!("NCG {max_iter} {curvature_threshold:e} {tolerance:e} {}", l(line_search_params)),
        LocalSolverConfig::COBYLA { max_iter, initial_step_size, ftol_rel, ftol_abs, xtol_rel, xtol_abs } => format!("COBYLA {max_iter} {initial_step_size:e} {ftol_rel:e} {ftol_abs:e} {xtol_rel:e} {xtol_abs:?}"),
    }
}

pub fn case(v: &mut Viol, r: &mut R) -> String {
    match r.below(10) {
        0 | 1 => mismatch(v, r),
        2..=4 => cobyla_case(v, r),
        _ => argmin_case(v, r),
    }
}
fn mismatch(v: &mut Viol, r: &mut R) -> String {
    let ts = types();
    let (i, j) = (r.below(6), r.below(6));
    let cfg = config(&ts[j], r);
    let p = Smooth { a: 0.1, c: vec![0.5; 2], n: Arc::new(AtomicU64::new(0)), work: Arc::new(AtomicU64::new(0)), fail: false };
    *cobyla::SCRIPT.lock().unwrap() = None;
    let desc = format!("solver {:?} with a configuration for {:?}: {}", ts[i], ts[j], sig(&cfg));
    let track = r.chance(0.5);
    let got = guarded(|| LocalSolver::new(p.clone(), ts[i].clone(), cfg).solve_with_tracking(array![0.2, 0.3], track));
    take_log();
    match got {
        Err(e) => v.push(("*", format!("panic: {e}"))),
        Ok(res) => {
            let named = match &res { Ok(_) => false, Err(e) => matches!((&ts[i], e),
                (LocalSolverType::LBFGS, LocalSolverError::InvalidLBFGSConfig { .. }) | (LocalSolverType::NelderMead, LocalSolverError::InvalidNelderMeadConfig { .. }) | (LocalSolverType::SteepestDescent, LocalSolverError::InvalidSteepestDescentConfig { .. })
                | (LocalSolverType::TrustRegion, LocalSolverError::InvalidTrustRegionConfig { .. }) | (LocalSolverType::NewtonCG, LocalSolverError::InvalidNewtonCG { .. }) | (LocalSolverType::COBYLA, LocalSolverError::InvalidCOBYLAConfig { .. })) };
            if i != j && !named { v.push(("C14", format!("{desc}: {:?}", res.map(|r| r.0.objective)))); }
        }
    }
    desc
}
fn cobyla_case(v: &mut Viol, r: &mut R) -> String {
    let mut c = gen_case(r.next(), Want { fail: true, cons: r.chance(0.5), odd_bounds: false, ..Want::default() });
    let mut s = Spec::new(c.prob.0.lo.clone(), c.prob.0.hi.clone(), c.prob.0.obj.clone(), c.prob.0.cons.clone());
    if r.chance(0.3) { s.err_one_in = 2; }
    c.prob = Prob(Arc::new(s));
    enter(&c);
    let mut cfg = config(&LocalSolverType::COBYLA, r);
    if let LocalSolverConfig::COBYLA { xtol_abs, .. } = &mut cfg { let n = match r.below(10) { 0 => c.d() + 1, 1 => c.d() - 1, 2 | 3 => 0, _ => c.d() }; *xtol_abs = (0..n).map(|_| r.f01()).collect(); }
    let LocalSolverConfig::COBYLA { max_iter, initial_step_size, ftol_rel, ftol_abs, xtol_rel, ref xtol_abs } = cfg else { unreachable!() };
    let (mi, xa) = (max_iter, xtol_abs.clone());
    let dim = if r.chance(0.1) { c.d() + 1 } else { c.d() };
    let x0: Vec<f64> = (0..dim).map(|i| { let i = i.min(c.d() - 1); c.prob.0.lo[i] + (c.prob.0.hi[i] - c.prob.0.lo[i]) * r.f01() }).collect();
    let track = r.chance(0.6);
    let desc = format!("COBYLA from {x0:?} with {} tracking={track} for {}", sig(&cfg), c.describe());
    let got = guarded(|| {
        let ls = LocalSolver::new(c.prob.clone(), LocalSolverType::COBYLA, cfg.clone());
        if track { ls.solve_with_tracking(arr(&x0), true).map(|(s, n)| (s, Some(n))) } else { ls.solve(arr(&x0)).map(|s| (s, None)) }
    });
    let log = take_log();
    c.prob.0.take_evals();
    let got = match got { Err(e) => { v.push(("*", format!("panic: {e}"))); return desc; } Ok(g) => g };
    let mut bad = |m: String| v.push(("C14", format!("{m}: {desc}")));
    if dim != c.d() {
        if !matches!(got, Err(LocalSolverError::InvalidCOBYLAConfig { .. })) { bad("a start of the wrong dimension is not rejected".into()); }
        return desc;
    }
    if !xa.is_empty() && xa.len() != dim {
        if !matches!(got, Err(LocalSolverError::InvalidCOBYLAConfig { .. })) { bad("tolerances of the wrong dimension are not rejected".into()); }
        return desc;
    }
    if log.len() != 1 { bad(format!("the solver is called {} times", log.len())); return desc; }
    let k = &log[0];
    if bits(&k.x0) != bits(&x0) { bad(format!("the solver starts at {:?}", k.x0)); }
    if k.bounds != (0..c.d()).map(|i| (c.prob.0.lo[i], c.prob.0.hi[i])).collect::<Vec<_>>() { bad(format!("the solver gets the bounds {:?}", k.bounds)); }
    let cons: Vec<u64> = c.prob.0.cons.iter().map(|&j| CONS[j](&x0, &mut ()).to_bits()).collect();
    if bits(&k.cons) != cons && !k.cons.iter().any(|x| x.is_nan()) { bad(format!("the solver gets {} constraints, values {:?}", k.cons.len(), k.cons)); }
    if k.maxeval as u64 != mi { bad(format!("the solver gets {} evaluations at most", k.maxeval)); }
    if !matches!(k.rhobeg, cobyla::RhoBeg::All(h) if h == initial_step_size) { bad(format!("the solver gets the step {:?}", k.rhobeg)); }
    match &k.tols { Some(t) if t.ftol_rel == ftol_rel && t.ftol_abs == ftol_abs && t.xtol_rel == xtol_rel && t.xtol_abs == xa => {} t => bad(format!("the solver gets the tolerances {t:?}")) }
    for (x, f) in &k.evals {
        let want = if c.prob.0.fails(x) { f64::INFINITY } else { c.prob.0.value(x) };
        if *f != want { bad(format!("the objective seen by the solver at {x:?} is {f:e}, not {want:e}")); }
    }
    match got {
        Ok((s, n)) => {
            if !k.ok { bad("a failed solver run is reported as a solution".into()); }
            if bits(&s.point.to_vec()) != bits(&k.x) || s.objective.to_bits() != k.f.to_bits() { bad(format!("solution {} {:e}, the solver found {:?} {:e}", s.point, s.objective, k.x, k.f)); }
            if let Some(n) = n { if n != k.evals.len() as u64 { bad(format!("{n} evaluations reported, {} made", k.evals.len())); } }
        }
        Err(e) => if k.ok || !matches!(e, LocalSolverError::RunFailed { .. }) { bad(format!("error {e}")) },
    }
    desc
}
/// settings whose shape does not fit give an error (C14) and never a panic (C18)
pub fn misfit(v: &mut Viol, r: &mut R) -> String {
    let t = r.pick(&[LocalSolverType::LBFGS, LocalSolverType::SteepestDescent, LocalSolverType::NewtonCG, LocalSolverType::COBYLA]);
    let mut cfg = config(&t, r);
    let short = r.pick(&[array![], array![0.5]]);
    match &mut cfg {
        LocalSolverConfig::LBFGS { line_search_params: p, .. } | LocalSolverConfig::SteepestDescent { line_search_params: p, .. } | LocalSolverConfig::NewtonCG { line_search_params: p, .. } => match &mut p.method { LineSearchMethod::MoreThuente { bounds, .. } | LineSearchMethod::HagerZhang { bounds, .. } => *bounds = short },
        LocalSolverConfig::COBYLA { xtol_abs, .. } => *xtol_abs = vec![1e-3; r.pick(&[1, 3, 4])],
        _ => {}
    }
    let p = Smooth { a: 0.1, c: vec![0.5; 2], n: Arc::new(AtomicU64::new(0)), work: Arc::new(AtomicU64::new(0)), fail: false };
    *cobyla::SCRIPT.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let desc = format!("{t:?} with {}", sig(&cfg));
    let got = guarded(|| LocalSolver::new(p.clone(), t.clone(), cfg.clone()).solve(array![0.2, 0.3]).map(|s| s.objective));
    take_log();
    match got {
        Err(e) => v.push(("*", format!("panic: {e}: {desc}"))),
        Ok(Ok(f)) => v.push(("C14", format!("a configuration that does not fit is run ({f:e}): {desc}"))),
        Ok(Err(_)) => {}
    }
    desc
}
fn argmin_case(v: &mut Viol, r: &mut R) -> String {
    if r.chance(0.1) { return misfit(v, r); }
    let t = r.pick(&types()[..5]);
    let cfg = config(&t, r);
    let d = r.range(1, 3);
    let p = Smooth { a: r.pick(&[0.0, 0.2, 1.0]), c: (0..d).map(|_| r.f(-2.0, 2.0)).collect(), n: Arc::new(AtomicU64::new(0)), work: Arc::new(AtomicU64::new(0)), fail: r.chance(0.05) };
    let x0: Array1<f64> = (0..d).map(|_| r.f(-3.0, 3.0)).collect();
    let desc = format!("{t:?} from {x0} with {} for a={} c={:?} fail={}", sig(&cfg), p.a, p.c, p.fail);
    let (p1, c1, x1) = (p.clone(), cfg.clone(), x0.clone());
    let want = guarded(|| direct(&p1, &c1, &x1));
    if want.is_err() { return desc; }
    p.n.store(0, Ordering::Relaxed);
    p.work.store(0, Ordering::Relaxed);
    let track = r.chance(0.6);
    let got = guarded(|| {
        let ls = LocalSolver::new(p.clone(), t.clone(), cfg.clone());
        if track { ls.solve_with_tracking(x0.clone(), true).map(|(s, n)| (s, Some(n))) } else { ls.solve(x0.clone()).map(|s| (s, None)) }
    });
    let made = p.n.load(Ordering::Relaxed);
    match (got, want) {
        (Err(_), Err(_)) => {} // the third-party solver itself panics
        (Err(e), _) => v.push(("C14", format!("panic {e}: {desc}"))),
        (Ok(_), Err(_)) => {}
        (Ok(Ok((s, n))), Ok(w)) => {
            match w {
                Ok((x, f)) => if bits(&s.point.to_vec()) != bits(&x) || s.objective.to_bits() != f.to_bits() { v.push(("C14", format!("found {} {:e}; the same solver with these settings finds {x:?} {f:e}: {desc}", s.point, s.objective))) },
                Err(e) => v.push(("C14", format!("found {} {:e}; the same solver with these settings fails ({e}): {desc}", s.point, s.objective))),
            }
            if let Some(n) = n { if n != made { v.push(("C14", format!("{n} evaluations reported, {made} made: {desc}"))); } }
        }
        (Ok(Err(e)), Ok(Ok((x, f)))) => v.push(("C14", format!("error {e}; the same solver with these settings finds {x:?} {f:e}: {desc}"))),
        (Ok(Err(_)), Ok(Err(_))) => {}
    }
    desc
}

/// Setters and build: every setting arrives, every other one stays.
pub fn builders(v: &mut Viol, r: &mut R) -> String {
    let t = r.pick(&types());
    let n = r.range(0, 6);
    let (mut a, mut b) = (r.f(0.1, 9.0), r.f(0.1, 9.0));
    let mut desc = format!("{t:?}:");
    let mut got = String::new();
    let mut want = String::new();
    // each arm: apply n random setters to the builder and to a plain record of the settings
    let res = guarded(|| {
        macro_rules! setters { ($bld:ident, $new:expr, $f:expr, { $($k:literal => $name:ident = $val:expr, $show:expr);* $(;)? }) => {{
            let mut fields: Vec<(&str, String)> = $f;
            let mut $bld = $new;
            for _ in 0..n {
                let m = [$($k),*];
                let k = r.pick(&m);
                $( if k == $k { let x = $val; let s = ($show)(&x); desc.push_str(&format!(" {}={}", stringify!($name), s)); fields.iter_mut().find(|f| f.0 == stringify!($name)).unwrap().1 = s; $bld = $bld.$name(x); } )*
            }
            want = fields.iter().map(|f| format!("{}={};", f.0, f.1)).collect::<String>();
            $bld
        }} }
        let ff = |x: &f64| format!("{:e}", x);
        let uu = |x: &u64| x.to_string();
        let us = |x: &usize| x.to_string();
        let lss = |x: &LineSearchParams| { let c = LocalSolverConfig::SteepestDescent { max_iter: 0, line_search_params: x.clone() }; sig(&c)[5..].to_string() };
        let s = |x: &str| x.to_string();
        a += 1.0; b += 0.5;
        match t {
            LocalSolverType::LBFGS => {
                let l0 = ls(r);
                let full = r.chance(0.5);
                let nb = if full { LBFGSBuilder::new(7, a, b, 3, Some(0.25), l0.clone()) } else if r.chance(0.5) { LBFGSBuilder::default() } else { LocalSolverConfig::lbfgs() };
                let f = if full { vec![("max_iter", s("7")), ("tolerance_grad", ff(&a)), ("tolerance_cost", ff(&b)), ("history_size", s("3")), ("l1_coefficient", s("Some(0.25)")), ("line_search_params", lss(&l0))] }
                    else { vec![("max_iter", s("300")), ("tolerance_grad", ff(&f64::EPSILON.sqrt())), ("tolerance_cost", ff(&f64::EPSILON)), ("history_size", s("10")), ("l1_coefficient", s("None")), ("line_search_params", lss(&LineSearchParams::default()))] };
                let bl = setters!(bl, nb, f, { 0 => max_iter = r.next() % 999, uu; 1 => tolerance_grad = r.f01(), ff; 2 => tolerance_cost = r.f01(), ff; 3 => history_size = r.below(50), us; 4 => l1_coefficient = r.pick(&[None, Some(0.5), Some(1.5)]), |x: &Option<f64>| format!("{x:?}"); 5 => line_search_params = ls(r), lss });
                if let LocalSolverConfig::LBFGS { max_iter, tolerance_grad, tolerance_cost, history_size, l1_coefficient, line_search_params } = bl.build() {
                    got = format!("max_iter={max_iter};tolerance_grad={tolerance_grad:e};tolerance_cost={tolerance_cost:e};history_size={history_size};l1_coefficient={l1_coefficient:?};line_search_params={};", lss(&line_search_params));
                }
            }
            LocalSolverType::NelderMead => {
                let full = r.chance(0.5);
                let nb = if full { NelderMeadBuilder::new(a, b, 9, 1.5, 2.5, 0.25, 0.75) } else if r.chance(0.5) { NelderMeadBuilder::default() } else { LocalSolverConfig::neldermead() };
                let f = if full { vec![("simplex_delta", ff(&a)), ("sd_tolerance", ff(&b)), ("max_iter", s("9")), ("alpha", ff(&1.5)), ("gamma", ff(&2.5)), ("rho", ff(&0.25)), ("sigma", ff(&0.75))] }
                    else { vec![("simplex_delta", ff(&0.1)), ("sd_tolerance", ff(&f64::EPSILON)), ("max_iter", s("300")), ("alpha", ff(&1.0)), ("gamma", ff(&2.0)), ("rho", ff(&0.5)), ("sigma", ff(&0.5))] };
                let bl = setters!(bl, nb, f, { 0 => simplex_delta = r.f01(), ff; 1 => sd_tolerance = r.f01(), ff; 2 => max_iter = r.next() % 999, uu; 3 => alpha = r.f01(), ff; 4 => gamma = r.f01(), ff; 5 => rho = r.f01(), ff; 6 => sigma = r.f01(), ff });
                if let LocalSolverConfig::NelderMead { simplex_delta, sd_tolerance, max_iter, alpha, gamma, rho, sigma } = bl.build() {
                    got = format!("simplex_delta={simplex_delta:e};sd_tolerance={sd_tolerance:e};max_iter={max_iter};alpha={alpha:e};gamma={gamma:e};rho={rho:e};sigma={sigma:e};");
                }
            }
            LocalSolverType::SteepestDescent => {
                let l0 = ls(r);
                let full = r.chance(0.5);
                let nb = if full { SteepestDescentBuilder::new(11, l0.clone()) } else if r.chance(0.5) { SteepestDescentBuilder::default() } else { LocalSolverConfig::steepestdescent() };
                let f = if full { vec![("max_iter", s("11")), ("line_search_params", lss(&l0))] } else { vec![("max_iter", s("300")), ("line_search_params", lss(&LineSearchParams::default()))] };
                let bl = setters!(bl, nb, f, { 0 => max_iter = r.next() % 999, uu; 1 => line_search_params = ls(r), lss });
                if let LocalSolverConfig::SteepestDescent { max_iter, line_search_params } = bl.build() { got = format!("max_iter={max_iter};line_search_params={};", lss(&line_search_params)); }
            }
            LocalSolverType::TrustRegion => {
                let full = r.chance(0.5);
                let nb = if full { TrustRegionBuilder::new(TrustRegionRadiusMethod::Steihaug, 13, a, b, 0.2) } else if r.chance(0.5) { TrustRegionBuilder::default() } else { LocalSolverConfig::trustregion() };
                let f = if full { vec![("method", s("Steihaug")), ("max_iter", s("13")), ("radius", ff(&a)), ("max_radius", ff(&b)), ("eta", ff(&0.2))] } else { vec![("method", s("Cauchy")), ("max_iter", s("300")), ("radius", ff(&1.0)), ("max_radius", ff(&100.0)), ("eta", ff(&0.125))] };
                let bl = setters!(bl, nb, f, { 0 => method = r.pick(&[TrustRegionRadiusMethod::Cauchy, TrustRegionRadiusMethod::Steihaug]), |x: &TrustRegionRadiusMethod| format!("{x:?}"); 1 => max_iter = r.next() % 999, uu; 2 => radius = r.f01(), ff; 3 => max_radius = r.f01(), ff; 4 => eta = r.f01() / 4.0, ff });
                if let LocalSolverConfig::TrustRegion { trust_region_radius_method, max_iter, radius, max_radius, eta } = bl.build() { got = format!("method={trust_region_radius_method:?};max_iter={max_iter};radius={radius:e};max_radius={max_radius:e};eta={eta:e};"); }
            }
            LocalSolverType::NewtonCG => {
                let l0 = ls(r);
                let full = r.chance(0.5);
                let nb = if full { NewtonCGBuilder::new(17, a, b, l0.clone()) } else if r.chance(0.5) { NewtonCGBuilder::default() } else { LocalSolverConfig::newton_cg() };
                let f = if full { vec![("max_iter", s("17")), ("curvature_threshold", ff(&a)), ("tolerance", ff(&b)), ("line_search_params", lss(&l0))] } else { vec![("max_iter", s("300")), ("curvature_threshold", ff(&0.0)), ("tolerance", ff(&f64::EPSILON)), ("line_search_params", lss(&LineSearchParams::default()))] };
                let bl = setters!(bl, nb, f, { 0 => max_iter = r.next() % 999, uu; 1 => curvature_threshold = r.f01(), ff; 2 => tolerance = r.f01(), ff; 3 => line_search_params = ls(r), lss });
                if let LocalSolverConfig::NewtonCG { max_iter, curvature_threshold, tolerance, line_search_params } = bl.build() { got = format!("max_iter={max_iter};curvature_threshold={curvature_threshold:e};tolerance={tolerance:e};line_search_params={};", lss(&line_search_params)); }
            }
            LocalSolverType::COBYLA => {
                let full = r.chance(0.5);
                let nb = if full { COBYLABuilder::new(19, a) } else if r.chance(0.5) { COBYLABuilder::default() } else { LocalSolverConfig::cobyla() };
                let f = vec![("max_iter", if full { s("19") } else { s("300") }), ("initial_step_size", ff(&if full { a } else { 0.5 })), ("ftol_rel", ff(&1e-6)), ("ftol_abs", ff(&1e-8)), ("xtol_rel", ff(&0.0)), ("xtol_abs", s("[]"))];
                let bl = setters!(bl, nb, f, { 0 => max_iter = r.next() % 999, uu; 1 => initial_step_size = r.f01(), ff; 2 => ftol_rel = r.f01(), ff; 3 => ftol_abs = r.f01(), ff; 4 => xtol_rel = r.f01(), ff; 5 => xtol_abs = (0..r.below(3)).map(|_| 0.5).collect::<Vec<f64>>(), |x: &Vec<f64>| format!("{x:?}") });
                if let LocalSolverConfig::COBYLA { max_iter, initial_step_size, ftol_rel, ftol_abs, xtol_rel, xtol_abs } = bl.build() { got = format!("max_iter={max_iter};initial_step_size={initial_step_size:e};ftol_rel={ftol_rel:e};ftol_abs={ftol_abs:e};xtol_rel={xtol_rel:e};xtol_abs={xtol_abs:?};"); }
            }
        }
        if got != want { return Some(format!("built {got}, expected {want}")); }
        // line-search builders
        let aa = |x: &Array1<f64>| format!("{x:?}");
        if r.chance(0.5) {
            let nb = if r.chance(0.5) { MoreThuenteBuilder::default() } else { LineSearchParams::morethuente() };
            let f = vec![("c1", ff(&1e-4)), ("c2", ff(&0.9)), ("width_tolerance", ff(&1e-10)), ("bounds", aa(&array![f64::EPSILON.sqrt(), f64::INFINITY]))];
            let bl = setters!(bl, nb, f, { 0 => c1 = r.f01(), ff; 1 => c2 = r.f01(), ff; 2 => width_tolerance = r.f01(), ff; 3 => bounds = array![r.f01(), 2.0 + r.f01()], aa });
            got = match bl.build().method { LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => format!("c1={c1:e};c2={c2:e};width_tolerance={width_tolerance:e};bounds={bounds:?};"), _ => "other method".into() };
        } else {
            let nb = if r.chance(0.5) { HagerZhangBuilder::default() } else { LineSearchParams::hagerzhang() };
            let f = vec![("delta", ff(&0.1)), ("sigma", ff(&0.9)), ("epsilon", ff(&1e-6)), ("theta", ff(&0.5)), ("gamma", ff(&0.66)), ("eta", ff(&0.01)), ("bounds", aa(&array![f64::EPSILON, 1e5]))];
            let bl = setters!(bl, nb, f, { 0 => delta = r.f01(), ff; 1 => sigma = r.f01(), ff; 2 => epsilon = r.f01(), ff; 3 => theta = r.f01(), ff; 4 => gamma = r.f01(), ff; 5 => eta = r.f01(), ff; 6 => bounds = array![r.f01(), 2.0 + r.f01()], aa });
            got = match bl.build().method { LineSearchMethod::HagerZhang { delta, sigma, epsilon, theta, gamma, eta, bounds } => format!("delta={delta:e};sigma={sigma:e};epsilon={epsilon:e};theta={theta:e};gamma={gamma:e};eta={eta:e};bounds={bounds:?};"), _ => "other method".into() };
        }
        if got != want { return Some(format!("built {got}, expected {want}")); }
        // names of the solvers
        for (names, t) in [(&["lbfgs", "LBFGS"][..], LocalSolverType::LBFGS), (&["nelder-mead", "NelderMead", "neldermead"][..], LocalSolverType::NelderMead), (&["SteepestDescent"][..], LocalSolverType::SteepestDescent), (&["TrustRegion"][..], LocalSolverType::TrustRegion), (&["newton-cg", "NewtonCG"][..], LocalSolverType::NewtonCG), (&["cobyla", "COBYLA"][..], LocalSolverType::COBYLA)] {
            for n in names { if LocalSolverType::from_string(n) != Ok(t.clone()) { return Some(format!("the solver name {n} is read as {:?}", LocalSolverType::from_string(n))); } }
        }
        let w: String = (0..r.below(6)).map(|_| (b'a' + r.below(26) as u8) as char).collect();
        if w != "lbfgs" && w != "cobyla" && LocalSolverType::from_string(&w).is_ok() { return Some(format!("the solver name {w} is accepted")); }
        None
    });
    match res { Err(p) => v.push(("*", format!("panic: {p}"))), Ok(Some(m)) => v.push(("C15", format!("{desc}: {m}"))), Ok(None) => {} }
    desc
}
