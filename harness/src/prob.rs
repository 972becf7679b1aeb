//! The optimization problem of a case; logs every evaluation of its objective.
use crate::cases::hash_point;
use globalsearch::problem::Problem;
use globalsearch::types::EvaluationError;
use ndarray::{Array1, Array2};
use std::sync::{Arc, Mutex, RwLock};

#[derive(Clone, Debug)]
pub enum ObjKind { Sphere, Floor, Linear, Constant, Cos, Hash(u64), Scaled(f64) }

#[derive(Clone, Debug)]
pub struct Eval { pub x: Vec<f64>, pub f: Option<f64>, pub in_solver: bool }

pub struct Spec {
    pub lo: Vec<f64>, pub hi: Vec<f64>, pub obj: ObjKind, pub cons: Vec<usize>,
    /// evaluation fails for one point in this many (0: never)
    pub err_one_in: u64,
    pub evals: Mutex<Vec<Eval>>,
}
/// Box of the current case for the constraint functions (plain fn pointers).
static BOX: RwLock<(Vec<f64>, Vec<f64>)> = RwLock::new((Vec::new(), Vec::new()));

fn unit(x: &[f64]) -> Vec<f64> {
    let b = BOX.read().unwrap_or_else(|e| e.into_inner());
    x.iter().enumerate().map(|(i, v)| v / (b.1[i] - b.0[i]) - b.0[i] / (b.1[i] - b.0[i])).collect()
}
fn c0(x: &[f64], _: &mut ()) -> f64 { 0.6 - unit(x)[0] }
fn c1(x: &[f64], _: &mut ()) -> f64 { let u = unit(x); u.iter().sum::<f64>() / u.len() as f64 - 0.4 }
fn c2(x: &[f64], _: &mut ()) -> f64 { let u = unit(x); (u[0] - 0.3).sqrt() } // NaN: infeasible
fn c3(x: &[f64], _: &mut ()) -> f64 { let u = unit(x); 0.36 - u.iter().map(|v| (v - 0.5) * (v - 0.5)).sum::<f64>() }
pub const CONS: [fn(&[f64], &mut ()) -> f64; 4] = [c0, c1, c2, c3];

impl Spec {
    pub fn new(lo: Vec<f64>, hi: Vec<f64>, obj: ObjKind, cons: Vec<usize>) -> Self {
        Spec { lo, hi, obj, cons, err_one_in: 0, evals: Mutex::new(vec![]) }
    }
    pub fn enter(&self) { *BOX.write().unwrap_or_else(|e| e.into_inner()) = (self.lo.clone(), self.hi.clone()); }
    pub fn fails(&self, x: &[f64]) -> bool { self.err_one_in > 0 && hash_point(x, 77) % self.err_one_in == 0 }
    pub fn value(&self, x: &[f64]) -> f64 {
        let u: Vec<f64> = x.iter().enumerate().map(|(i, v)| v / (self.hi[i] - self.lo[i]) - self.lo[i] / (self.hi[i] - self.lo[i])).collect();
        let sph = |c: f64| u.iter().map(|v| (v - c) * (v - c)).sum::<f64>();
        match self.obj {
            ObjKind::Sphere => sph(0.37),
            ObjKind::Floor => (sph(0.6) * 16.0).floor() / 4.0,
            ObjKind::Linear => u.iter().sum(),
            ObjKind::Constant => 1.0,
            ObjKind::Cos => sph(0.5) - u.iter().map(|v| (20.0 * v).cos()).sum::<f64>(),
            ObjKind::Hash(s) => (hash_point(x, s) % 12) as f64 / 4.0 - 1.0,
            ObjKind::Scaled(k) => k * (sph(0.2) + 1.0),
        }
    }
    pub fn feasible(&self, x: &[f64]) -> bool { self.cons.iter().all(|&k| CONS[k](x, &mut ()) >= 0.0) }
    pub fn in_bounds(&self, x: &[f64]) -> bool { x.len() == self.lo.len() && x.iter().enumerate().all(|(i, v)| *v >= self.lo[i] && *v <= self.hi[i]) }
    pub fn take_evals(&self) -> Vec<Eval> { std::mem::take(&mut self.evals.lock().unwrap_or_else(|e| e.into_inner())) }
}

#[derive(Clone)]
pub struct Prob(pub Arc<Spec>);
impl Problem for Prob {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        let v = x.to_vec();
        let f = if self.0.fails(&v) { None } else { Some(self.0.value(&v)) };
        let in_solver = cobyla::INSIDE.with(|c| c.get());
        self.0.evals.lock().unwrap_or_else(|e| e.into_inner()).push(Eval { x: v, f, in_solver });
        f.ok_or(EvaluationError::DivisionByZero)
    }
    fn variable_bounds(&self) -> Array2<f64> {
        Array2::from_shape_fn((self.0.lo.len(), 2), |(i, j)| if j == 0 { self.0.lo[i] } else { self.0.hi[i] })
    }
    fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> { self.0.cons.iter().map(|&k| CONS[k]).collect() }
}
