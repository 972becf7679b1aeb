//! Stand-in for the third-party COBYLA solver: records what it is called with and answers with a
//! scripted result. Same public names and signature as cobyla 0.8.0's `minimize`.
use std::cell::Cell;
use std::sync::{Arc, Mutex};

pub trait Func<U>: Fn(&[f64], &mut U) -> f64 {}
impl<T, U> Func<U> for T where T: Fn(&[f64], &mut U) -> f64 {}

#[derive(Debug, Clone, Copy)]
pub enum FailStatus { Failure, InvalidArgs, OutOfMemory, RoundoffLimited, ForcedStop, UnexpectedError }
#[derive(Debug, Clone, Copy)]
pub enum SuccessStatus { Success, StopValReached, FtolReached, XtolReached, MaxEvalReached, MaxTimeReached }
#[derive(Debug, Clone, Default)]
pub struct StopTols { pub ftol_rel: f64, pub ftol_abs: f64, pub xtol_rel: f64, pub xtol_abs: Vec<f64> }
#[derive(Debug, Clone)]
pub enum RhoBeg { All(f64), Set(Vec<f64>) }

/// What one call received and answered.
#[derive(Debug, Clone)]
pub struct Rec {
    pub x0: Vec<f64>,
    pub bounds: Vec<(f64, f64)>,
    /// values of the constraint functions at x0
    pub cons: Vec<f64>,
    pub maxeval: usize,
    pub rhobeg: RhoBeg,
    pub tols: Option<StopTols>,
    /// (point, value) pairs the objective was evaluated at by this call
    pub evals: Vec<(Vec<f64>, f64)>,
    pub x: Vec<f64>,
    pub f: f64,
    pub ok: bool,
    pub at: std::time::Instant,
}

/// The scripted answer to a start point.
#[derive(Debug, Clone)]
pub struct Answer { pub x: Vec<f64>, pub f: f64, pub ok: bool, pub evals: Vec<Vec<f64>>, pub sleep_ms: u64 }
pub type Script = Arc<dyn Fn(&[f64]) -> Answer + Send + Sync>;

pub static LOG: Mutex<Vec<Rec>> = Mutex::new(Vec::new());
pub static SCRIPT: Mutex<Option<Script>> = Mutex::new(None);
thread_local! { pub static INSIDE: Cell<bool> = const { Cell::new(false) }; }

#[allow(clippy::too_many_arguments)]
pub fn minimize<F: Func<U>, G: Func<U>, U: Clone>(
    func: F, xinit: &[f64], bounds: &[(f64, f64)], cons: &[G], args: U, maxeval: usize,
    rhobeg: RhoBeg, stop_tol: Option<StopTols>,
) -> Result<(SuccessStatus, Vec<f64>, f64), (FailStatus, Vec<f64>, f64)> {
    // as the real one
    if bounds.len() != xinit.len() { panic!("Minimize Error: Bounds and x should have same size"); }
    if let Some(t) = &stop_tol { if !t.xtol_abs.is_empty() && t.xtol_abs.len() != xinit.len() { panic!("Minimize Error: xtol_abs should have x dim size"); } }
    let script = SCRIPT.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let at = std::time::Instant::now();
    let ans = match script {
        Some(s) => s(xinit),
        None => Answer { x: xinit.to_vec(), f: f64::NAN, ok: true, evals: vec![xinit.to_vec()], sleep_ms: 0 },
    };
    if ans.sleep_ms > 0 { std::thread::sleep(std::time::Duration::from_millis(ans.sleep_ms)); }
    let mut u = args.clone();
    INSIDE.with(|c| c.set(true));
    let evals: Vec<(Vec<f64>, f64)> = ans.evals.iter().map(|x| (x.clone(), func(x, &mut u))).collect();
    INSIDE.with(|c| c.set(false));
    let f = if ans.f.is_nan() { evals.last().map_or(f64::NAN, |e| e.1) } else { ans.f };
    let rec = Rec {
        x0: xinit.to_vec(), bounds: bounds.to_vec(), cons: cons.iter().map(|g| g(xinit, &mut u)).collect(),
        maxeval, rhobeg, tols: stop_tol, evals, x: ans.x.clone(), f, ok: ans.ok, at,
    };
    LOG.lock().unwrap_or_else(|e| e.into_inner()).push(rec);
    if ans.ok { Ok((SuccessStatus::Success, ans.x, f)) } else { Err((FailStatus::Failure, ans.x, f)) }
}
