//! Runs the solvers of the library on a generated problem under the
//! deterministic scheduler, and observes everything a caller can see.
use crate::prob::*;
use engineering::*;
use kit::{guarded, Src};
use parking_lot::sched;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Cut {
    Lel,
    Frontier,
}
impl Cut {
    pub fn get(self) -> CutsetType {
        match self {
            Cut::Lel => CutsetType::LastExactLayer,
            Cut::Frontier => CutsetType::Frontier,
        }
    }
    pub fn gen(s: &mut Src) -> Cut {
        s.pick(&[Cut::Lel, Cut::Frontier])
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fr {
    Simple,
    NoDup,
    /// user-written: any element of greatest upper bound may come first
    AnyMax(u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Which {
    Parallel(Fr),
    Barrier,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Build {
    /// custom(.., k)
    Custom,
    /// custom(.., j).with_nb_threads(k)
    With(usize),
    /// new(..).with_nb_threads(k) / new(..) on all cores
    New,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Pol {
    Random(u32),
    Pct(Vec<u64>),
    Robin(u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Stop {
    /// maximize()
    Maximize,
    /// maximize_with_interrupt with a callback that never asks to stop
    Never,
    /// the callback asks to stop from its k-th call on
    From(usize),
    /// the callback asks to stop at its k-th call only
    Only(usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Run {
    pub which: Which,
    pub cut: Cut,
    pub width: Width,
    pub threads: usize,
    pub build: Build,
    pub pol: Pol,
    pub seed: u64,
    pub stop: Stop,
    /// scheduling points inside the callbacks as well
    pub fine: bool,
    pub maxsteps: u64,
}
pub fn gen_which(s: &mut Src, barrier: Option<bool>) -> Which {
    let b = match barrier {
        Some(b) => b,
        None => s.chance(1, 2),
    };
    if b {
        Which::Barrier
    } else {
        Which::Parallel(match s.below(5) {
            0 | 1 => Fr::NoDup,
            2 | 3 => Fr::Simple,
            _ => Fr::AnyMax(s.raw() as u64),
        })
    }
}
pub fn gen_pol(s: &mut Src) -> Pol {
    match s.below(5) {
        0 => Pol::Random(s.pick(&[4, 16, 64])),
        1 => Pol::Random(s.pick(&[128, 256])),
        2 => Pol::Robin(s.range(1, 9) as u64),
        _ => {
            let k = s.below(5);
            let horizon = s.pick(&[40usize, 150, 600]);
            Pol::Pct((0..k).map(|_| s.range(1, horizon) as u64).collect())
        }
    }
}
pub fn gen_build(s: &mut Src) -> Build {
    match s.below(8) {
        0 => Build::With(s.range(0, 4)),
        1 => Build::New,
        _ => Build::Custom,
    }
}

#[derive(Debug, Clone)]
pub struct Outcome {
    /// None for maximize()
    pub status: Option<ResolutionStatus>,
    pub best: Option<isize>,
    pub sol: Option<Vec<Decision>>,
    pub best_so_far: Option<isize>,
    pub sol_so_far: Option<Vec<Decision>>,
    pub lb: isize,
    pub ub: isize,
    pub explored: usize,
    pub explored_dd: usize,
    pub polls: usize,
    /// the callback asked to stop at least once
    pub asked: bool,
    pub rep: sched::Report,
    /// states whose domain was really enumerated
    pub expanded: u64,
    /// times the width of a subproblem was asked
    pub width_calls: u64,
    /// polls of the callback and subproblems started, in order
    pub ev: Vec<Ev>,
    /// what was wrong before the first search
    pub before: Option<String>,
}

pub struct AnyMax {
    v: Vec<SubProblem<St>>,
    rng: u64,
    pub popped: usize,
}
impl AnyMax {
    pub fn new(rng: u64) -> AnyMax {
        AnyMax { v: vec![], rng, popped: 0 }
    }
}
impl Frontier for AnyMax {
    type State = St;
    fn push(&mut self, n: SubProblem<St>) {
        self.v.push(n)
    }
    fn pop(&mut self) -> Option<SubProblem<St>> {
        let m = self.v.iter().map(|n| n.ub).max()?;
        let c: Vec<usize> = (0..self.v.len()).filter(|i| self.v[*i].ub == m).collect();
        self.rng = kit::mix(self.rng);
        self.popped += 1;
        Some(self.v.swap_remove(c[self.rng as usize % c.len()]))
    }
    fn clear(&mut self) {
        self.v.clear()
    }
    fn len(&self) -> usize {
        self.v.len()
    }
}

pub fn policy(p: &Pol) -> sched::Policy {
    match p {
        Pol::Random(n) => sched::Policy::Random { num: *n },
        Pol::Pct(c) => sched::Policy::Pct { changes: c.clone() },
        Pol::Robin(k) => sched::Policy::RoundRobin { every: *k },
    }
}

pub fn drive<S: InterruptibleSolver>(s: &mut S, stop: Stop, ev: &Events) -> Option<ResolutionStatus> {
    let when: fn(usize, usize) -> bool = match stop {
        Stop::Maximize => {
            s.maximize();
            return None;
        }
        Stop::Never => |_, _| false,
        Stop::From(_) => |i, k| i >= k,
        Stop::Only(_) => |i, k| i == k,
    };
    let k = match stop {
        Stop::From(k) | Stop::Only(k) => k,
        _ => 0,
    };
    let polls = AtomicUsize::new(0);
    let ev = ev.clone();
    Some(s.maximize_with_interrupt(move || {
        let b = when(polls.fetch_add(1, SeqCst), k);
        ev.lock().unwrap().push(Ev::Poll(std::thread::current().id(), b));
        b
    }))
}

pub trait AnySolver {
    fn search(&mut self, stop: Stop, ev: &Events) -> Outcome;
    /// what is reported at the moment
    fn look(&self) -> Outcome;
}
macro_rules! any_solver {
    () => {
        fn search(&mut self, stop: Stop, ev: &Events) -> Outcome {
            let status = drive(self, stop, ev);
            observe(self, status, self.get_explored(), self.get_explored_dd())
        }
        fn look(&self) -> Outcome {
            observe(self, None, self.get_explored(), self.get_explored_dd())
        }
    };
}
impl<'a, 't, F: Frontier<State = St> + Send + Sync> AnySolver for ParallelSolver<'a, Model<'t>, Relax<'t>, Rank<'t>, WidthHeu<'t>, F> {
    any_solver!();
}
impl<'a, 't> AnySolver for BarrierParallelSolver<'a, Model<'t>, Relax<'t>, Rank<'t>, WidthHeu<'t>> {
    any_solver!();
}

pub fn run_solver(t: &Tab, r: &Run) -> Result<Outcome, String> {
    run_history(t, r, &[r.stop]).map(|mut v| v.remove(0))
}
/// Builds one solver and runs one search on it for each element of `stops`.
pub fn run_history(t: &Tab, r: &Run, stops: &[Stop]) -> Result<Vec<Outcome>, String> {
    let mut m = Model::new(t);
    m.yields = r.fine;
    let relax = Relax::new(t);
    let rank = Rank::new(t);
    let wh = WidthHeu::new(t, r.width);
    let body = |s: &mut dyn AnySolver| -> Result<Vec<Outcome>, String> {
        let mut all = vec![];
        let mut before = check_before(&s.look()).err();
        for (i, stop) in stops.iter().enumerate() {
            wh.ev.lock().unwrap().clear();
            let (e0, w0) = (m.expanded.load(SeqCst), wh.calls.load(SeqCst));
            sched::begin(sched::Config { expected: r.threads.max(1), seed: r.seed.wrapping_add(i as u64), policy: policy(&r.pol), max_steps: r.maxsteps });
            let res = guarded(|| s.search(*stop, &wh.ev));
            let rep = sched::end();
            if let Some(why) = &rep.aborted {
                // a worker that panicked leaves the others waiting: the panic comes first
                let first = match &res {
                    Err(m) if m != "panic" && !m.contains("a scoped thread panicked") => Some(m.clone()),
                    _ => None,
                };
                return Err(match first {
                    Some(m) => format!("panic: {} (then {})", m, why),
                    None => format!("termination: {}", why),
                });
            }
            let mut o = res.map_err(|m| format!("panic: {}", m))?;
            o.rep = rep;
            o.ev = std::mem::take(&mut *wh.ev.lock().unwrap());
            o.polls = o.ev.iter().filter(|e| matches!(e, Ev::Poll(..))).count();
            o.asked = o.ev.iter().any(|e| matches!(e, Ev::Poll(_, true)));
            o.expanded = m.expanded.load(SeqCst) - e0;
            o.width_calls = wh.calls.load(SeqCst) - w0;
            o.before = before.take();
            all.push(o);
        }
        Ok(all)
    };
    let res = guarded(|| {
        macro_rules! go {
            ($fr:expr) => {{
                let fr = &mut $fr;
                let mut s = match r.build {
                    Build::Custom => ParallelSolver::custom(&m, &relax, &rank, &wh, r.cut.get(), fr, r.threads),
                    Build::With(k) => ParallelSolver::custom(&m, &relax, &rank, &wh, r.cut.get(), fr, k).with_nb_threads(r.threads),
                    Build::New => ParallelSolver::new(&m, &relax, &rank, &wh, r.cut.get(), fr).with_nb_threads(r.threads),
                };
                body(&mut s)
            }};
        }
        match r.which {
            Which::Parallel(Fr::Simple) => go!(SimpleFrontier::new(&rank)),
            Which::Parallel(Fr::NoDup) => go!(NoDupFrontier::new(&rank)),
            Which::Parallel(Fr::AnyMax(seed)) => go!(AnyMax::new(seed)),
            Which::Barrier => {
                let mut s = match r.build {
                    Build::Custom => BarrierParallelSolver::custom(&m, &relax, &rank, &wh, r.cut.get(), r.threads),
                    Build::With(k) => BarrierParallelSolver::custom(&m, &relax, &rank, &wh, r.cut.get(), k).with_nb_threads(r.threads),
                    Build::New => BarrierParallelSolver::new(&m, &relax, &rank, &wh, r.cut.get()).with_nb_threads(r.threads),
                };
                body(&mut s)
            }
        }
    });
    match res {
        Err(m) => Err(format!("panic: {}", m)),
        Ok(r) => r,
    }
}

pub fn observe<S: InterruptibleSolver>(s: &S, status: Option<ResolutionStatus>, explored: usize, explored_dd: usize) -> Outcome {
    Outcome {
        status,
        best: s.best_value(),
        sol: s.best_solution(),
        best_so_far: s.best_value_so_far(),
        sol_so_far: s.best_solution_so_far(),
        lb: s.best_lower_bound(),
        ub: s.best_upper_bound(),
        explored,
        explored_dd,
        polls: 0,
        asked: false,
        rep: sched::Report::default(),
        expanded: 0,
        width_calls: 0,
        ev: vec![],
        before: None,
    }
}

/* ------------------------------------------------------- what must hold of it */

/// Before any search nothing is known.
fn check_before(o: &Outcome) -> Result<(), String> {
    if o.best.is_some() || o.sol.is_some() || o.best_so_far.is_some() || o.sol_so_far.is_some() {
        return Err(format!("before: {:?} is reported before any search", o.best));
    }
    if o.lb != isize::MIN || o.ub != isize::MAX || o.explored != 0 || o.explored_dd != 0 {
        return Err(format!("before: lb={} ub={} explored={} {} before any search", o.lb, o.ub, o.explored, o.explored_dd));
    }
    Ok(())
}
/// The reported solution is a certificate of the reported value.
pub fn check_certificate(t: &Tab, o: &Outcome) -> Result<(), String> {
    if o.best != o.best_so_far || o.sol != o.sol_so_far {
        return Err(format!("accessors: best_value()={:?} but best_value_so_far()={:?}", o.best, o.best_so_far));
    }
    match (&o.best, &o.sol) {
        (None, None) => {
            if o.lb != isize::MIN {
                return Err(format!("certificate: no solution is reported but the lower bound is {}", o.lb));
            }
            Ok(())
        }
        (Some(v), Some(sol)) => {
            if o.lb != *v {
                return Err(format!("certificate: best value {} but lower bound {}", v, o.lb));
            }
            if sol.len() != t.n() {
                return Err(format!("certificate: the solution has {} decisions for {} variables", sol.len(), t.n()));
            }
            let (_, c) = replay(t, t.root_state(), sol).map_err(|m| format!("certificate: {} in {:?}", m, sol))?;
            if c + t.init_value != *v {
                return Err(format!("certificate: the solution is worth {} but {} is reported", c + t.init_value, v));
            }
            Ok(())
        }
        (b, s) => Err(format!("certificate: value {:?} with solution {:?}", b, s)),
    }
}
/// The search ran to its end: the optimum is reported, and the bounds meet.
pub fn check_optimal(opt: Option<isize>, o: &Outcome) -> Result<(), String> {
    if let Some(s) = o.status {
        if s != ResolutionStatus::Proved {
            return Err(format!("status: {:?} although nobody asked to stop", s));
        }
    }
    if o.best != opt {
        return Err(format!("optimum: {:?} reported, {:?} expected", o.best, opt));
    }
    let want = opt.unwrap_or(isize::MIN);
    if o.lb != want || o.ub != want {
        return Err(format!("bounds: proved optimum {:?} but lb={} ub={}", opt, o.lb, o.ub));
    }
    Ok(())
}
/// The search may have been interrupted.
pub fn check_anytime(opt: Option<isize>, o: &Outcome) -> Result<(), String> {
    if let Some(m) = &o.before {
        return Err(m.clone());
    }
    match o.status {
        Some(ResolutionStatus::Interrupted) if o.asked => {}
        Some(ResolutionStatus::Interrupted) => return Err("status: Interrupted although nobody asked to stop".into()),
        // one may finish before (or right when) asked to stop, but then the answer is final
        _ => return check_optimal(opt, o),
    }
    let v = opt.unwrap_or(isize::MIN);
    if o.lb > v {
        return Err(format!("bounds: lower bound {} above the optimum {:?}", o.lb, opt));
    }
    if o.ub < v {
        return Err(format!("bounds: upper bound {} below the optimum {:?}", o.ub, opt));
    }
    if o.ub < o.lb {
        return Err(format!("bounds: lb={} > ub={}", o.lb, o.ub));
    }
    Ok(())
}
