//! Another family of problems: soft constraints between pairs of variables, where
//! the variable to branch on is chosen by looking at the layer. The oracle is
//! plain enumeration of all assignments.

use crate::prob::{Ev, Events};
use crate::solve::*;
use engineering::*;
use kit::{guarded, mix, Obs, Prop, Src, Tier};
use parking_lot::sched;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::ops::{Deref, DerefMut};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Choice {
    /// the lowest variable left
    First,
    /// the greatest one
    Last,
    /// the one with the fewest values over all states of the layer
    FewestValues,
    /// the one whose best values differ most between states
    Spread,
    /// by some function of the states, whatever their order
    Hash(u64),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Csp {
    /// gain of each value of each variable; None: not in the domain
    pub unary: Vec<Vec<Option<isize>>>,
    /// (i, j, gain of each pair of values; None: forbidden), i < j
    pub pairs: Vec<(usize, usize, Vec<Vec<Option<isize>>>)>,
    pub choice: Choice,
    pub offset: isize,
    pub base: isize,
    pub estimate: bool,
    pub rank: u64,
    pub coarse: u8,
}
/// what each value of each variable that is left would bring now; None: assigned
#[derive(Clone, Debug)]
pub struct State {
    pub left: Vec<Option<Vec<Option<isize>>>>,
    /// which hash function: a good one, or one that many states share
    pub coarse: u8,
    /// tells equal states apart for a reader, but not for the library
    pub note: u64,
}
impl PartialEq for State {
    fn eq(&self, o: &State) -> bool {
        self.left == o.left
    }
}
impl Eq for State {}
impl Hash for State {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self.coarse {
            0 => self.left.hash(h),
            1 => 0u8.hash(h),
            2 => self.iter().flatten().count().hash(h),
            _ => self.iter().flatten().flatten().flatten().fold(0, |a, b| a ^ (b & 3)).hash(h),
        }
    }
}
impl Deref for State {
    type Target = Vec<Option<Vec<Option<isize>>>>;
    fn deref(&self) -> &Self::Target {
        &self.left
    }
}
impl DerefMut for State {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.left
    }
}

impl Csp {
    pub fn gen(s: &mut Src, big: bool, equal: bool) -> Csp {
        let n = if s.chance(1, 20) { s.range(0, 2) } else { s.range(4, if big { 8 } else { 7 }) };
        let max = if equal { s.pick(&[1isize, 3, 10]) } else { s.pick(&[3isize, 10, 10, 1]) };
        let forbid = s.pick(&[0usize, 1, 1, 3]);
        // the fewer pairs, the more states are equal
        let dense = if equal { s.pick(&[2usize, 1, 1]) } else { s.pick(&[4usize, 3, 2, 1]) };
        let doms: Vec<usize> = (0..n).map(|_| s.pick(&[2usize, 2, 3, 1])).collect();
        let unary = doms.iter().map(|k| (0..*k).map(|_| if s.below(16) >= 16 - forbid { None } else { Some(s.near0(-max, max)) }).collect()).collect();
        let mut pairs = vec![];
        for i in 0..n {
            for j in i + 1..n {
                if s.below(4) < dense {
                    let c = (0..doms[i]).map(|_| (0..doms[j]).map(|_| if s.below(12) >= 12 - forbid { None } else { Some(s.near0(-max, max)) }).collect()).collect();
                    pairs.push((i, j, c));
                }
            }
        }
        let choice = match s.below(6) {
            0 => Choice::First,
            1 => Choice::Last,
            2 | 3 => Choice::FewestValues,
            4 => Choice::Spread,
            _ => Choice::Hash(s.raw() as u64),
        };
        Csp { unary, pairs, choice, offset: s.pick(&[0, 1, -4]), base: s.pick(&[0, 0, 25, -25]), estimate: s.chance(1, 2), rank: s.below(3) as u64, coarse: if equal { s.pick(&[1, 2, 3, 0]) } else { 0 } }
    }
    fn worth(&self, a: &[usize]) -> Option<isize> {
        let mut v = self.base;
        for (i, x) in a.iter().enumerate() {
            v += self.unary[i][*x]?;
        }
        for (i, j, c) in &self.pairs {
            v += c[a[*i]][a[*j]]?;
        }
        Some(v)
    }
    fn optimum(&self) -> Option<isize> {
        let n = self.unary.len();
        let mut a = vec![0; n];
        let mut best = None;
        loop {
            best = best.max(self.worth(&a));
            let Some(i) = (0..n).find(|i| a[*i] + 1 < self.unary[*i].len()) else { return best };
            a[i] += 1;
            a[..i].iter_mut().for_each(|x| *x = 0);
        }
    }
    /// value of a solution, by its meaning
    fn value(&self, sol: &[Decision]) -> Result<isize, String> {
        let mut a = vec![None; self.unary.len()];
        for d in sol {
            let x = d.value - self.offset;
            if d.var.id() >= a.len() || x < 0 || x as usize >= self.unary[d.var.id()].len() {
                return Err(format!("certificate: {:?} is no decision of this problem", d));
            }
            if a[d.var.id()].replace(x as usize).is_some() {
                return Err(format!("certificate: {:?} is decided twice", d.var));
            }
        }
        let a: Option<Vec<usize>> = a.into_iter().collect();
        let a = a.ok_or_else(|| format!("certificate: {:?} leaves some variable open", sol))?;
        self.worth(&a).ok_or_else(|| format!("certificate: {:?} is not feasible", sol))
    }
    fn hash(&self, s: &State, salt: u64) -> u64 {
        let mut h = salt;
        for x in s.iter() {
            h = mix(h ^ 77);
            for v in x.iter().flatten() {
                h = mix(h ^ v.map_or(3, |v| (v as u64) << 3));
            }
        }
        h
    }
}
impl Problem for Csp {
    type State = State;
    fn nb_variables(&self) -> usize {
        self.unary.len()
    }
    fn initial_state(&self) -> State {
        State { left: self.unary.iter().map(|u| Some(u.clone())).collect(), coarse: self.coarse, note: 0 }
    }
    fn initial_value(&self) -> isize {
        self.base
    }
    fn next_variable(&self, layer: &mut dyn Iterator<Item = &State>) -> Option<Variable> {
        let n = self.unary.len();
        let mut seen = false;
        let (mut open, mut count, mut lo, mut hi) = (vec![false; n], vec![0usize; n], vec![isize::MAX; n], vec![isize::MIN; n]);
        let mut h = 0u64;
        for s in layer {
            if seen {
                assert!((0..n).all(|i| open[i] == s[i].is_some()), "a layer of states in which different variables are left");
            }
            seen = true;
            h = h.wrapping_add(self.hash(s, 5));
            for i in 0..n {
                if let Some(vs) = &s[i] {
                    open[i] = true;
                    count[i] += vs.iter().flatten().count();
                    let best = vs.iter().flatten().max().copied().unwrap_or(-1000);
                    lo[i] = lo[i].min(best);
                    hi[i] = hi[i].max(best);
                }
            }
        }
        let left: Vec<usize> = (0..n).filter(|i| open[*i]).collect();
        match self.choice {
            Choice::First => left.first().copied(),
            Choice::Last => left.last().copied(),
            Choice::FewestValues => left.into_iter().min_by_key(|i| (count[*i], *i)),
            Choice::Spread => left.into_iter().max_by_key(|i| (hi[*i] - lo[*i], *i)),
            Choice::Hash(x) if !left.is_empty() => Some(left[mix(h ^ x) as usize % left.len()]),
            Choice::Hash(_) => None,
        }
        .map(Variable)
    }
    fn for_each_in_domain<F: FnMut(Decision)>(&self, var: Variable, s: &State, mut f: F) {
        for (x, c) in s[var.id()].as_ref().expect("the variable is left").iter().enumerate() {
            if c.is_some() {
                f(Decision { var, value: x as isize + self.offset })
            }
        }
    }
    fn transition(&self, s: &State, d: Decision) -> State {
        let (i, x) = (d.var.id(), (d.value - self.offset) as usize);
        let mut t = s.clone();
        t.note = mix(s.note ^ (i * 8 + x) as u64);
        t[i] = None;
        for (a, b, c) in &self.pairs {
            let (j, gain): (usize, &dyn Fn(usize) -> Option<isize>) = if *a == i {
                (*b, &|y| c[x][y])
            } else if *b == i {
                (*a, &|y| c[y][x])
            } else {
                continue;
            };
            if let Some(vs) = &mut t[j] {
                for (y, v) in vs.iter_mut().enumerate() {
                    *v = v.and_then(|v| gain(y).map(|g| v + g));
                }
            }
        }
        t
    }
    fn transition_cost(&self, s: &State, d: Decision) -> isize {
        s[d.var.id()].as_ref().unwrap()[(d.value - self.offset) as usize].unwrap()
    }
    fn estimate(&self, s: &State) -> isize {
        if !self.estimate {
            return crate::prob::Bare(std::marker::PhantomData).estimate(s);
        }
        let mut e = 0;
        for vs in s.iter().flatten() {
            match vs.iter().flatten().max() {
                Some(v) => e += v,
                None => return isize::MIN,
            }
        }
        for (i, j, c) in &self.pairs {
            if s[*i].is_some() && s[*j].is_some() {
                match c.iter().flatten().flatten().max() {
                    Some(v) => e += v,
                    None => return isize::MIN,
                }
            }
        }
        e
    }
}
/// the best of each value
pub struct Best;
impl Relaxation for Best {
    type State = State;
    fn merge(&self, states: &mut dyn Iterator<Item = &State>) -> State {
        let mut m = states.next().expect("merge of no state at all").clone();
        for s in states {
            for (a, b) in m.iter_mut().zip(s.iter()) {
                assert!(a.is_some() == b.is_some(), "states in which different variables are left are merged");
                if let (Some(a), Some(b)) = (a, b) {
                    a.iter_mut().zip(b).for_each(|(a, b)| *a = (*a).max(*b));
                }
            }
        }
        m
    }
    fn relax(&self, _: &State, _: &State, _: &State, _: Decision, cost: isize) -> isize {
        cost
    }
}
impl StateRanking for Csp {
    type State = State;
    fn compare(&self, a: &State, b: &State) -> Ordering {
        let sum = |s: &State| s.iter().flatten().map(|v| v.iter().flatten().max().copied().unwrap_or(-1000)).sum::<isize>();
        match self.rank {
            0 => Ordering::Equal,
            1 => sum(a).cmp(&sum(b)),
            _ => self.hash(a, 9).cmp(&self.hash(b, 9)),
        }
    }
}
struct Wide(usize);
impl WidthHeuristic<State> for Wide {
    fn max_width(&self, _: &State) -> usize {
        self.0
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    csp: Csp,
    barrier: bool,
    nodup: bool,
    cut: Cut,
    width: usize,
    threads: usize,
    pol: Pol,
    seed: u64,
    stop: Stop,
}
pub struct Dynamic {
    pub id: &'static str,
    /// many equal states that do not look the same, and poor hash functions
    pub equal: bool,
    pub quick: u64,
    pub thorough: u64,
}
impl Prop for Dynamic {
    type Case = Case;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        let what = if self.equal { "Equal states differ in a part that equality ignores, and the hash function has collisions. " } else { "" };
        let and = if self.equal { ", and equal states that look different met" } else { "" };
        format!("{}{}{}.", what, "case = a problem of 0-8 variables with gains for values and for pairs of values, some forbidden, a way of choosing the next variable from the states of the layer, and a solver configuration (solver, frontier, cutset type, width, 1-3 workers, schedule, interruption); oracle = enumeration of all assignments. Also the three diagrams of the whole problem. Non-trivial: at least 2 subproblems explored, and a solution exists", and)
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        (if tier == Tier::Quick { self.quick } else { self.thorough }, 700)
    }
    fn gen(&self, s: &mut Src, tier: Tier) -> Case {
        let barrier = s.chance(1, 2);
        let (nodup, cut, width) = (s.chance(1, 2), Cut::gen(s), s.pick(&[1usize, 1, 2, 2, 3, 5]));
        let threads = s.pick(&[1usize, 1, 1, 2, 3]);
        let (pol, seed) = (gen_pol(s), s.raw() as u64);
        let stop = match s.below(5) {
            0 => Stop::From(s.below(20)),
            1 => Stop::Only(s.below(20)),
            2 => Stop::Never,
            _ => Stop::Maximize,
        };
        let big = tier == Tier::Thorough || s.chance(1, 4);
        let csp = Csp::gen(s, big, self.equal);
        Case { csp, barrier, nodup, cut, width, threads, pol, seed, stop }
    }
    fn run(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let p = &c.csp;
        let opt = p.optimum();
        let joined = diagrams(c, opt)?;
        let ev = Events::default();
        let wide = Wide(c.width);
        let fly = |s: &mut dyn AnySolver| -> Result<Outcome, String> {
            sched::begin(sched::Config { expected: c.threads, seed: c.seed, policy: policy(&c.pol), max_steps: 600_000 });
            let res = guarded(|| s.search(c.stop, &ev));
            let rep = sched::end();
            match (res, rep.aborted) {
                (Err(m), Some(w)) if m == "panic" || m.contains("a scoped thread panicked") => Err(format!("termination: {}", w)),
                (Err(m), _) => Err(format!("panic: {}", m)),
                (_, Some(w)) => Err(format!("termination: {}", w)),
                (Ok(out), None) => Ok(out),
            }
        };
        let out = if c.barrier {
            fly(&mut BarrierParallelSolver::custom(p, &Best, p, &wide, c.cut.get(), c.threads))
        } else if c.nodup {
            let mut f = NoDupFrontier::new(p);
            fly(&mut ParallelSolver::custom(p, &Best, p, &wide, c.cut.get(), &mut f, c.threads))
        } else {
            let mut f = SimpleFrontier::new(p);
            fly(&mut ParallelSolver::custom(p, &Best, p, &wide, c.cut.get(), &mut f, c.threads))
        }?;
        let low = opt.unwrap_or(isize::MIN);
        if out.status == Some(ResolutionStatus::Interrupted) {
            if !ev.lock().unwrap().iter().any(|e| matches!(e, Ev::Poll(_, true))) {
                return Err("status: Interrupted although nobody asked to stop".into());
            }
            if out.lb > low || out.ub < low {
                return Err(format!("bounds: [{}, {}] with the optimum {:?}", out.lb, out.ub, opt));
            }
        } else if out.best != opt || out.lb != low || out.ub != low {
            return Err(format!("optimum: {:?} in [{}, {}] reported, {:?} expected", out.best, out.lb, out.ub, opt));
        }
        if out.best.unwrap_or(isize::MIN) != out.lb || out.best.is_some() != out.sol.is_some() {
            return Err(format!("certificate: {:?} with {:?} and the lower bound {}", out.best, out.sol, out.lb));
        }
        if let Some(sol) = &out.sol {
            let v = p.value(sol)?;
            if out.best != Some(v) {
                return Err(format!("certificate: the solution is worth {} but {:?} is reported", v, out.best));
            }
        }
        o.class(if c.barrier { "solver: barrier" } else { "solver: parallel" });
        o.class(match p.choice {
            Choice::First | Choice::Last => "fixed order",
            _ => "order depends on the states",
        });
        o.class_if(out.status == Some(ResolutionStatus::Interrupted), "interrupted");
        o.class_if(c.threads > 1, "several workers");
        o.class_if(p.coarse > 0, "hash function with collisions");
        o.class_if(out.explored >= 10, "subproblems: 10+");
        o.class_if(joined, "equal states that look different");
        o.nontrivial = opt.is_some() && out.explored >= 2 && (joined || !self.equal);
        Ok(())
    }
    fn shrink_iters(&self) -> u32 {
        3000
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the states of a layer have the same variables left, and the merge keeps the best of each value".into()]
    }
}
/// the three diagrams of the whole problem
fn diagrams(c: &Case, opt: Option<isize>) -> Result<bool, String> {
    let mut joined = false;
    let mut reused = All::new(c.cut.get());
    for comp_type in [CompilationType::Relaxed, CompilationType::Restricted, CompilationType::Exact] {
        joined |= diagram(&mut reused, c, opt, "all", comp_type)?;
        // what a diagram with a barrier has closed stays closed: a fresh one
        diagram(&mut Barrier::new(fresh(c.csp.unary.len()), c.cut.get()), c, opt, "barrier", comp_type)?;
    }
    Ok(joined)
}
/// what a compilation shows to the choice of a variable, makes and expands
#[derive(Default)]
struct Layer {
    shown: Vec<State>,
    made: Vec<State>,
    expanded: Vec<State>,
    asked: usize,
    bad: Option<String>,
    /// transitions that led to a state that was there already, and looked different
    joined: bool,
    reached: Vec<State>,
}
struct Watch<'a> {
    p: &'a Csp,
    layer: std::sync::Mutex<Layer>,
}
impl Problem for Watch<'_> {
    type State = State;
    fn nb_variables(&self) -> usize {
        self.p.nb_variables()
    }
    fn initial_state(&self) -> State {
        self.p.initial_state()
    }
    fn initial_value(&self) -> isize {
        self.p.base
    }
    fn next_variable(&self, layer: &mut dyn Iterator<Item = &State>) -> Option<Variable> {
        let shown: Vec<State> = layer.cloned().collect();
        let v = self.p.next_variable(&mut shown.iter());
        let mut l = self.layer.lock().unwrap();
        l.asked += 1;
        l.made.clear();
        l.reached.clear();
        l.expanded.clear();
        for (i, s) in shown.iter().enumerate() {
            if let Some(r) = shown[..i].iter().find(|r| *r == s) {
                let why = format!("layer {} holds {:?} and {:?}, which are equal", l.asked, r, s);
                l.bad.get_or_insert(why);
            }
        }
        l.shown = shown;
        v
    }
    fn for_each_in_domain<F: FnMut(Decision)>(&self, var: Variable, s: &State, f: F) {
        {
            let mut l = self.layer.lock().unwrap();
            if !l.shown.contains(s) && !l.made.contains(s) {
                let why = format!("the variable of layer {} was chosen without its state {:?}", l.asked, s);
                l.bad.get_or_insert(why);
            }
            if l.expanded.contains(s) {
                let why = format!("{:?} is expanded twice in layer {}", s, l.asked);
                l.bad.get_or_insert(why);
            }
            l.expanded.push(s.clone());
        }
        self.p.for_each_in_domain(var, s, f)
    }
    fn transition(&self, s: &State, d: Decision) -> State {
        let t = self.p.transition(s, d);
        let mut l = self.layer.lock().unwrap();
        l.joined |= l.reached.iter().any(|r| *r == t && r.note != t.note);
        l.reached.push(t.clone());
        t
    }
    fn transition_cost(&self, s: &State, d: Decision) -> isize {
        self.p.transition_cost(s, d)
    }
    fn estimate(&self, s: &State) -> isize {
        self.p.estimate(s)
    }
}
impl Relaxation for Watch<'_> {
    type State = State;
    fn merge(&self, states: &mut dyn Iterator<Item = &State>) -> State {
        let m = Best.merge(states);
        self.layer.lock().unwrap().made.push(m.clone());
        m
    }
    fn relax(&self, a: &State, b: &State, c: &State, d: Decision, cost: isize) -> isize {
        Best.relax(a, b, c, d, cost)
    }
}
fn diagram<D: DecisionDiagram<State = State>>(d: &mut D, c: &Case, opt: Option<isize>, what: &str, comp_type: CompilationType) -> Result<bool, String> {
    let p = &c.csp;
    let residual = SubProblem { state: Arc::new(p.initial_state()), value: p.base, path: vec![], ub: isize::MAX };
    let w = Watch { p, layer: Default::default() };
    d.compile(&CompilationInput { comp_type, max_width: c.width, problem: &w, relaxation: &w, ranking: p, residual, best_lb: isize::MIN });
    let layer = w.layer.into_inner().unwrap();
    if let Some(why) = layer.bad {
        return Err(format!("choice: {} {:?}: {}", what, comp_type, why));
    }
    let v = d.best_value();
    let wrong = match comp_type {
        CompilationType::Relaxed => v < opt,
        CompilationType::Restricted => v > opt,
        CompilationType::Exact => v != opt || !d.is_exact(),
    };
    if wrong || (d.is_exact() && v != opt) {
        return Err(format!("diagram: {} {:?}: {:?} (exact: {}) with the optimum {:?}", what, comp_type, v, d.is_exact(), opt));
    }
    if comp_type != CompilationType::Relaxed || d.is_exact() {
        if let Some(sol) = d.best_solution() {
            if v != Some(p.value(&sol)?) {
                return Err(format!("diagram: {} {:?}: {:?} does not bring {:?}", what, comp_type, sol, v));
            }
        }
    }
    if comp_type == CompilationType::Relaxed && !d.is_exact() {
        let mut cut: Vec<Arc<State>> = vec![];
        let mut twice = None;
        d.drain_cutset(|n| {
            if cut.contains(&n.state) {
                twice = Some(n.state.clone());
            }
            cut.push(n.state);
        });
        if let Some(s) = twice {
            return Err(format!("cutset: {} delivers {:?} twice", what, s));
        }
    }
    Ok(layer.joined)
}

impl<'a, F: Frontier<State = State> + Send + Sync> AnySolver for ParallelSolver<'a, Csp, Best, Csp, Wide, F> {
    any_solver!();
}
impl<'a> AnySolver for BarrierParallelSolver<'a, Csp, Best, Csp, Wide> {
    any_solver!();
}
fn fresh(n: usize) -> Arc<Vec<parking_lot::RwLock<rustc_hash::FxHashMap<Arc<State>, BarrierInfo>>>> {
    Arc::new((0..=n).map(|_| parking_lot::RwLock::new(Default::default())).collect())
}
