//! Runs of the real library under a case's configuration.
use crate::cases::Case;
use crate::machine::Sol;
use crate::prob::{Eval, Prob};
use cobyla::Rec;
use globalsearch::local_solver::builders::COBYLABuilder;
use globalsearch::observers::{Observer, ObserverMode};
use globalsearch::oqnlp::OQNLP;
use globalsearch::types::{LocalSolverType, OQNLPParams, SolutionSet};
use ndarray::{Array1, Array2};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};

pub fn params(c: &Case) -> OQNLPParams {
    OQNLPParams {
        iterations: c.iters, population_size: c.pop, wait_cycle: c.wait, threshold_factor: c.tf, distance_factor: c.df,
        local_solver_type: LocalSolverType::COBYLA, local_solver_config: COBYLABuilder::default().build(), seed: c.pseed,
    }
}
pub fn sols_of(s: &SolutionSet) -> Vec<Sol> { s.solutions.iter().map(|l| Sol { p: l.point.to_vec(), o: l.objective }).collect() }

#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub s1: Option<S1>, pub s2: Option<S2>,
}
#[derive(Clone, Debug)]
pub struct S1 { pub substage: String, pub fe: usize, pub tp: usize, pub rs: usize, pub best: f64, pub point: Option<Vec<f64>> }
#[derive(Clone, Debug)]
pub struct S2 { pub it: usize, pub fe: usize, pub calls: usize, pub improved: usize, pub size: usize, pub thr: f64, pub uc: usize, pub best: f64, pub point: Option<Vec<f64>>, pub last: Option<Vec<f64>> }
pub fn s1_of(s: &globalsearch::observers::Stage1State) -> S1 {
    S1 { substage: s.current_substage().to_string(), fe: s.function_evaluations(), tp: s.trial_points_generated(), rs: s.reference_set_size(), best: s.best_objective(), point: s.best_point().map(|p| p.to_vec()) }
}
pub fn s2_of(s: &globalsearch::observers::Stage2State) -> S2 {
    S2 { it: s.current_iteration(), fe: s.function_evaluations(), calls: s.local_solver_calls(), improved: s.improved_local_calls(), size: s.solution_set_size(), thr: s.threshold_value(), uc: s.unchanged_cycles(), best: s.best_objective(), point: s.best_point().map(|p| p.to_vec()), last: s.last_added_point().map(|p| p.to_vec()) }
}

#[derive(Clone, Debug)]
pub struct Obs { pub mode: ObserverMode, pub s1: bool, pub s2: bool, pub timing: bool, pub freq: Option<usize>, pub cb: bool }

#[cfg(feature = "full")]
#[derive(Clone)]
pub struct Ck { pub dir: std::path::PathBuf, pub freq: usize, pub keep_all: bool, pub auto: bool }

#[derive(Clone, Default)]
pub struct Opt {
    pub obs: Option<Obs>,
    #[cfg(feature = "full")]
    pub ck: Option<Ck>,
    /// call before run: 0 nothing, 1 try_resume, 2 resume_with_modified_params, 3 resume_from_checkpoint_with_params(path)
    pub resume: u8,
    #[cfg(feature = "full")]
    pub resume_path: Option<std::path::PathBuf>,
    pub resume_params: Option<OQNLPParams>,
    pub plain_settings: bool,
}

pub struct Out {
    /// outer Err: panic message; inner Err: the error the library returned
    pub res: Result<Result<Vec<Sol>, String>, String>,
    pub evals: Vec<Eval>,
    pub log: Vec<Rec>,
    pub snaps: Vec<Snap>,
    pub fin: Snap,
    pub fin_s1: Option<S1>,
    pub total_s1: (Option<f64>, Option<f64>),
    pub total_s2: (Option<f64>, Option<f64>),
    pub resumed: Option<bool>,
}
impl Out {
    pub fn ok(&self) -> Option<&Vec<Sol>> { match &self.res { Ok(Ok(v)) => Some(v), _ => None } }
}

pub fn enter(c: &Case) {
    c.prob.0.enter();
    c.prob.0.take_evals();
    let (script, spec) = (c.script.clone(), c.prob.0.clone());
    *cobyla::SCRIPT.lock().unwrap_or_else(|e| e.into_inner()) = Some(Arc::new(move |x: &[f64]| script.answer(&spec, x)));
    cobyla::LOG.lock().unwrap_or_else(|e| e.into_inner()).clear();
    cobyla::INSIDE.with(|v| v.set(false));
}
pub fn take_log() -> Vec<Rec> { std::mem::take(&mut cobyla::LOG.lock().unwrap_or_else(|e| e.into_inner())) }

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> { catch_unwind(AssertUnwindSafe(f)).map_err(panic_msg) }

pub fn matrix(d: usize, pts: &[Vec<f64>]) -> Array2<f64> { Array2::from_shape_fn((pts.len(), d), |(i, j)| pts[i][j]) }
pub fn arr(p: &[f64]) -> Array1<f64> { Array1::from(p.to_vec()) }

pub fn observer(o: &Obs, snaps: Arc<Mutex<Vec<Snap>>>) -> Observer {
    let mut ob = Observer::new().with_mode(o.mode);
    if o.s1 { ob = ob.with_stage1_tracking(); }
    if o.s2 { ob = ob.with_stage2_tracking(); }
    if o.timing { ob = ob.with_timing(); }
    if o.cb {
        ob = ob.with_callback(move |ob: &mut Observer| {
            let s = Snap { s1: ob.stage1().map(s1_of), s2: ob.stage2().map(s2_of) };
            snaps.lock().unwrap_or_else(|e| e.into_inner()).push(s);
        });
        if let Some(f) = o.freq { ob = ob.with_callback_frequency(f); }
    }
    ob
}

pub fn exec(c: &Case, o: &Opt) -> Out {
    enter(c);
    let snaps = Arc::new(Mutex::new(vec![]));
    let mut fin = Snap::default();
    let mut fin_s1 = None;
    let mut total_s1 = (None, None);
    let mut total_s2 = (None, None);
    let mut resumed = None;
    let res = guarded(|| -> Result<Vec<Sol>, String> {
        let es = |e: globalsearch::oqnlp::OQNLPError| format!("{e}");
        let mut q: OQNLP<Prob> = OQNLP::new(c.prob.clone(), params(c)).map_err(es)?;
        if !o.plain_settings {
            if let Some(t) = c.target { q = q.target_objective(t); }
            if c.excl { q = q.exclude_out_of_bounds(); }
            if let Some((a, r)) = c.tol { q = q.with_tolerance(a, r); }
            #[cfg(feature = "full")]
            {
                q = q.parallel(c.par);
                if let Some(b) = c.batch { q = q.batch_iterations(b); }
            }
            if let Some(p) = &c.custom { q = q.with_points(matrix(c.d(), p)).map_err(es)?; }
        }
        if let Some(t) = c.max_time { q = q.max_time(t); }
        if let Some(ob) = &o.obs { q = q.add_observer(observer(ob, snaps.clone())); }
        #[cfg(feature = "full")]
        if let Some(k) = &o.ck {
            q = q.with_checkpointing(globalsearch::types::CheckpointConfig {
                checkpoint_dir: k.dir.clone(), checkpoint_name: "ck".into(), save_frequency: k.freq, keep_all: k.keep_all, auto_resume: k.auto,
            }).map_err(es)?;
            match o.resume {
                1 => resumed = Some(q.try_resume_from_checkpoint().map_err(es)?),
                2 => resumed = Some(q.resume_with_modified_params(o.resume_params.clone().unwrap()).map_err(es)?),
                3 => q.resume_from_checkpoint_with_params(o.resume_path.as_ref().unwrap(), o.resume_params.clone().unwrap()).map_err(es)?,
                _ => {}
            }
        }
        let r = q.run();
        if let Some(ob) = q.observer() {
            fin = Snap { s1: ob.stage1().map(s1_of), s2: ob.stage2().map(s2_of) };
            fin_s1 = ob.stage1_final().map(s1_of);
            let t1 = ob.stage1_final().and_then(|s| s.total_time());
            let t2 = ob.stage2().and_then(|s| s.total_time());
            total_s1 = (t1, ob.stage1_final().and_then(|s| s.total_time()));
            total_s2 = (t2, ob.stage2().and_then(|s| s.total_time()));
        }
        r.map(|s| sols_of(&s)).map_err(es)
    });
    let snaps = std::mem::take(&mut *snaps.lock().unwrap_or_else(|e| e.into_inner()));
    Out { res, evals: c.prob.0.take_evals(), log: take_log(), snaps, fin, fin_s1, total_s1, total_s2, resumed }
}

#[cfg(feature = "full")]
pub mod ck {
    use globalsearch::checkpoint::read_checkpoint_file;
    use globalsearch::types::OQNLPCheckpoint;
    use std::path::PathBuf;
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    /// A scratch directory of its own, removed when dropped.
    pub struct Scratch(pub PathBuf);
    impl Scratch {
        pub fn new() -> Scratch {
            let base = std::env::var("GSH_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
            let p = base.join(format!("gsh-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
            std::fs::create_dir_all(&p).expect("scratch directory");
            Scratch(p)
        }
    }
    impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
    /// all numbered checkpoints of a directory, by iteration
    pub fn load_all(dir: &std::path::Path) -> Result<Vec<(usize, PathBuf, OQNLPCheckpoint)>, String> {
        let mut v = vec![];
        for e in std::fs::read_dir(dir).map_err(|e| e.to_string())? {
            let p = e.map_err(|e| e.to_string())?.path();
            let n = p.file_name().unwrap().to_string_lossy().to_string();
            if let Some(m) = n.strip_prefix("ck_").and_then(|m| m.strip_suffix(".bin")) {
                let it: usize = m.parse().map_err(|_| format!("unexpected file name {n}"))?;
                v.push((it, p.clone(), read_checkpoint_file(&p).map_err(|e| e.to_string())?));
            }
        }
        v.sort_by_key(|e| e.0);
        Ok(v)
    }
}
