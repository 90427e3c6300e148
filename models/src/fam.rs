//! What the checks need to know about a family of models, and the checks.
use engineering::*;
use kit::{guarded, Obs, Prop, Src, Tier};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Cfg {
    pub barrier: bool,
    pub frontier: bool,
    /// the simple frontier instead of the no-duplicate one (parallel solver)
    pub simple: bool,
    /// a fixed width, or the model's own width with a factor
    pub width: Result<usize, usize>,
}
impl Cfg {
    pub fn gen(s: &mut Src) -> Cfg {
        Cfg {
            barrier: s.chance(1, 2),
            frontier: s.chance(1, 2),
            simple: s.chance(1, 4),
            width: if s.chance(2, 3) { Ok(s.range(1, 4)) } else { Err(s.range(1, 2)) },
        }
    }
}
#[derive(Debug, Clone)]
pub struct Out {
    pub status: ResolutionStatus,
    pub best: Option<isize>,
    pub sol: Option<Vec<Decision>>,
    pub lb: isize,
    pub ub: isize,
    pub explored: usize,
}
struct Either<'a, W>(Option<usize>, &'a W);
impl<S, W: WidthHeuristic<S>> WidthHeuristic<S> for Either<'_, W> {
    fn max_width(&self, s: &S) -> usize {
        self.0.unwrap_or_else(|| self.1.max_width(s))
    }
}
/// solves with one worker
pub fn solve<P, R, O, W>(p: &P, r: &R, o: &O, w: &W, c: &Cfg) -> Result<Out, String>
where
    P: Problem + Send + Sync,
    P::State: Eq + PartialEq + Hash + Clone + Send + Sync,
    R: Relaxation<State = P::State> + Send + Sync,
    O: StateRanking<State = P::State> + Send + Sync,
    W: WidthHeuristic<P::State> + Send + Sync,
{
    let cut = if c.frontier { CutsetType::Frontier } else { CutsetType::LastExactLayer };
    let w = Either(c.width.clone().ok(), w);
    guarded(|| {
        let polls = Arc::new(AtomicUsize::new(0));
        let q = polls.clone();
        let stop = move || q.fetch_add(1, SeqCst) > 300_000;
        macro_rules! go {
            ($s:expr) => {{
                let mut s = $s;
                let status = s.maximize_with_interrupt(stop);
                Out { status, best: s.best_value(), sol: s.best_solution(), lb: s.best_lower_bound(), ub: s.best_upper_bound(), explored: s.get_explored() }
            }};
        }
        if c.barrier {
            go!(BarrierParallelSolver::custom(p, r, o, &w, cut, 1))
        } else if c.simple {
            let mut f = SimpleFrontier::new(o);
            go!(ParallelSolver::custom(p, r, o, &w, cut, &mut f, 1))
        } else {
            let mut f = NoDupFrontier::new(o);
            go!(ParallelSolver::custom(p, r, o, &w, cut, &mut f, 1))
        }
    })
    .map_err(|m| format!("panic: {}", m))
}

/// A family of models, with an oracle written from the definition of the problem.
/// A prefix lists the values decided so far, in the order of the model.
pub trait Fam: Sync + Sized {
    type Inst: Serialize + DeserializeOwned + Clone + Debug + Hash;
    type P: Problem;
    const NAME: &'static str;
    const WHAT: &'static str;
    fn gen(s: &mut Src, big: bool) -> Self::Inst;
    /// the instance file
    fn text(i: &Self::Inst) -> String;
    fn parse(text: &str) -> Result<Self::P, String>;
    fn vars(i: &Self::Inst) -> usize;
    /// position of a variable in a prefix
    fn position(i: &Self::Inst, var: usize) -> usize;
    /// cost added by `v` after the feasible `prefix`; None if that is not allowed
    fn step(i: &Self::Inst, prefix: &[isize], v: isize) -> Option<isize>;
    fn values(i: &Self::Inst) -> Vec<isize>;
    /// what of a feasible prefix matters for its completions
    fn key(i: &Self::Inst, prefix: &[isize]) -> Vec<i64>;
    /// an instance that takes some search
    fn gen_hard(s: &mut Src, big: bool) -> Self::Inst;
    /// a larger instance, where every allowed step can be completed
    fn gen_large(s: &mut Src) -> Self::Inst;
    /// the instance file, in one of the layouts the format allows
    fn layout(i: &Self::Inst, s: &mut Src) -> String;
    /// what the file tells besides the model
    fn header(_: &Self::Inst, _: &Self::P) -> Result<(), String> {
        Ok(())
    }
    fn rank(a: &<Self::P as Problem>::State, b: &<Self::P as Problem>::State) -> std::cmp::Ordering;
    fn width(p: &Self::P, factor: usize, s: &<Self::P as Problem>::State) -> usize;
    fn solve(p: &Patched<Self>, c: &Cfg) -> Result<Out, String>;
    /// The instance as the file tells it, if a defect on record of the reader (named
    /// as well) explains every number that was read.
    fn reread(_: &Self::Inst, _: &Self::P) -> Option<(&'static str, Self::P)> {
        None
    }
    /// the defects on record, in the order of the bits of `Patched::mask`
    const FINDINGS: &'static [&'static str] = &[];
    /// what the repairs of these defects need to know
    type Ctx: Send + Sync;
    fn ctx(p: &Self::P) -> Self::Ctx;
    fn estimate(x: &Patched<Self>, s: &<Self::P as Problem>::State) -> isize {
        x.raw.estimate(s)
    }
    fn cost(x: &Patched<Self>, s: &<Self::P as Problem>::State, d: Decision) -> isize {
        x.raw.transition_cost(s, d)
    }
    fn transition(x: &Patched<Self>, s: &<Self::P as Problem>::State, d: Decision) -> <Self::P as Problem>::State {
        x.raw.transition(s, d)
    }
    fn domain(x: &Patched<Self>, var: Variable, s: &<Self::P as Problem>::State) -> Vec<Decision> {
        let mut ds = vec![];
        x.raw.for_each_in_domain(var, s, |d| ds.push(d));
        ds
    }
    fn merge(p: &Self::P, states: &[&<Self::P as Problem>::State]) -> <Self::P as Problem>::State;
    #[allow(clippy::too_many_arguments)]
    fn relax(
        p: &Self::P,
        src: &<Self::P as Problem>::State,
        dst: &<Self::P as Problem>::State,
        new: &<Self::P as Problem>::State,
        d: Decision,
        cost: isize,
    ) -> isize;
}

/// The example's model, with the defects on record repaired that the mask tells.
/// A repair changes a result only where it is what the defective code computes.
pub struct Patched<'a, F: Fam> {
    pub raw: &'a F::P,
    pub ctx: F::Ctx,
    pub mask: u32,
}
impl<'a, F: Fam> Patched<'a, F> {
    pub fn new(raw: &'a F::P, mask: u32) -> Self {
        Patched { raw, ctx: F::ctx(raw), mask }
    }
    pub fn has(&self, k: u32) -> bool {
        self.mask >> k & 1 == 1
    }
}
impl<F: Fam> Problem for Patched<'_, F> {
    type State = <F::P as Problem>::State;
    fn nb_variables(&self) -> usize {
        self.raw.nb_variables()
    }
    fn initial_state(&self) -> Self::State {
        self.raw.initial_state()
    }
    fn initial_value(&self) -> isize {
        self.raw.initial_value()
    }
    fn transition(&self, s: &Self::State, d: Decision) -> Self::State {
        F::transition(self, s, d)
    }
    fn transition_cost(&self, s: &Self::State, d: Decision) -> isize {
        F::cost(self, s, d)
    }
    fn next_variable(&self, l: &mut dyn Iterator<Item = &Self::State>) -> Option<Variable> {
        self.raw.next_variable(l)
    }
    fn for_each_in_domain<G: FnMut(Decision)>(&self, var: Variable, s: &Self::State, f: G) {
        F::domain(self, var, s).into_iter().for_each(f)
    }
    fn estimate(&self, s: &Self::State) -> isize {
        F::estimate(self, s)
    }
}
/// Decides a case with the model as it is. A failure that goes away with the
/// repairs of the defects on record is put down to the one it needs repaired.
pub fn attributed<F: Fam>(mut run: impl FnMut(u32) -> Result<(), String>) -> Result<(), String> {
    let first = match run(0) {
        Ok(()) => return Ok(()),
        Err(m) => m,
    };
    let n = F::FINDINGS.len() as u32;
    if n == 0 {
        return Err(first);
    }
    let all = (1 << n) - 1;
    if let Err(m) = run(all) {
        return Err(m);
    }
    let k = (0..n).find(|k| run(all & !(1 << k)).is_err()).or_else(|| (0..n).find(|k| run(1 << k).is_ok()));
    match k {
        Some(k) => Err(format!("finding {}: {}", F::FINDINGS[k as usize], first)),
        None => Err(first),
    }
}

/// best completion of a prefix (maximization), by brute force
pub fn best<F: Fam>(i: &F::Inst, prefix: &mut Vec<isize>) -> Option<isize> {
    if prefix.len() == F::vars(i) {
        return Some(0);
    }
    let mut r = None;
    for v in F::values(i) {
        if let Some(c) = F::step(i, prefix, v) {
            prefix.push(v);
            if let Some(b) = best::<F>(i, prefix) {
                r = r.max(Some(b + c));
            }
            prefix.pop();
        }
    }
    r
}
/// the same without looking twice at prefixes that are alike
pub fn best_memo<F: Fam>(i: &F::Inst, prefix: &mut Vec<isize>, seen: &mut HashMap<Vec<i64>, Option<isize>>) -> Option<isize> {
    if prefix.len() == F::vars(i) {
        return Some(0);
    }
    let key = F::key(i, prefix);
    if let Some(b) = seen.get(&key) {
        return *b;
    }
    let mut r = None;
    for v in F::values(i) {
        if let Some(c) = F::step(i, prefix, v) {
            prefix.push(v);
            if let Some(b) = best_memo::<F>(i, prefix, seen) {
                r = r.max(Some(b + c));
            }
            prefix.pop();
        }
    }
    seen.insert(key, r);
    r
}
pub fn cost<F: Fam>(i: &F::Inst, full: &[isize]) -> Option<isize> {
    let mut t = 0;
    for k in 0..full.len() {
        t += F::step(i, &full[..k], full[k])?;
    }
    Some(t)
}

/* ------------------------------------------------------------------ optimum */

pub struct Optimum<F> {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: std::marker::PhantomData<F>,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct OptCase<I> {
    pub inst: I,
    pub cfg: Cfg,
}
pub fn judge<F: Fam>(i: &F::Inst, opt: Option<isize>, out: &Out) -> Result<(), String> {
    if out.status != ResolutionStatus::Proved {
        return Err("termination: still searching after 300000 subproblems".into());
    }
    if out.best != opt {
        return Err(format!("optimum: {:?} reported, {:?} is the best", out.best, opt));
    }
    let want = opt.unwrap_or(isize::MIN);
    if out.lb != want || out.ub != want {
        return Err(format!("bounds: lb={} ub={} for the proved optimum {:?}", out.lb, out.ub, opt));
    }
    match (&out.sol, opt) {
        (None, None) => Ok(()),
        (Some(sol), Some(v)) => {
            let n = F::vars(i);
            let mut full = vec![None; n];
            for d in sol {
                let k = F::position(i, d.var.id());
                if k >= n || full[k].is_some() {
                    return Err(format!("solution: variable {} is assigned twice or unknown", d.var.id()));
                }
                full[k] = Some(d.value);
            }
            let full: Option<Vec<isize>> = full.into_iter().collect();
            let full = full.ok_or_else(|| format!("solution: {:?} does not assign every variable", sol))?;
            match cost::<F>(i, &full) {
                Some(c) if c == v => Ok(()),
                c => Err(format!("solution: {:?} is worth {:?}, {} is reported", full, c, v)),
            }
        }
        (s, _) => Err(format!("solution: {:?} for the optimum {:?}", s, opt)),
    }
}
impl<F: Fam> Prop for Optimum<F> {
    type Case = OptCase<F::Inst>;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        format!("case = a generated {} instance file and a solver configuration (solver, cutset, frontier, width); the file is read by the example's reader and solved with its own relaxation and ranking; oracle = recursion over all assignments from the definition of the problem. Non-trivial: the instance is feasible and at least 2 subproblems were explored.", F::NAME)
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        (if tier == Tier::Quick { self.quick } else { self.thorough }, 250)
    }
    fn gen(&self, s: &mut Src, tier: Tier) -> Self::Case {
        let cfg = Cfg::gen(s);
        let big = tier == Tier::Thorough;
        let inst = if s.chance(1, 8) { F::gen_hard(s, big) } else { F::gen(s, big) };
        OptCase { cfg, inst }
    }
    fn run(&self, c: &Self::Case, o: &mut Obs) -> Result<(), String> {
        let opt = best_memo::<F>(&c.inst, &mut vec![], &mut HashMap::new());
        assert!(F::vars(&c.inst) > 5 || opt == best::<F>(&c.inst, &mut vec![]), "the two ways of enumerating the solutions disagree");
        let p = guarded(|| F::parse(&F::text(&c.inst))).map_err(|m| format!("reader: panic: {}", m))?.map_err(|m| format!("reader: {}", m))?;
        let mut explored = 0;
        let r = attributed::<F>(|mask| {
            let out = F::solve(&Patched::new(&p, mask), &c.cfg)?;
            explored = out.explored;
            judge::<F>(&c.inst, opt, &out)
        });
        o.class(if c.cfg.barrier { "solver: barrier" } else { "solver: parallel" });
        o.class(if c.cfg.frontier { "cutset: frontier" } else { "cutset: lel" });
        o.class_if(opt.is_none(), "infeasible");
        o.class_if(explored >= 2, "2+ subproblems");
        o.class_if(explored >= 10, "10+ subproblems");
        o.class_if(explored >= 100, "100+ subproblems");
        o.nontrivial = opt.is_some() && explored >= 2;
        r
    }
    fn assumptions(&self) -> Vec<String> {
        vec![F::WHAT.into()]
    }
}

/* --------------------------------------------------------------- relaxation */

pub struct Relaxes<F> {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: std::marker::PhantomData<F>,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct RelCase<I> {
    pub inst: I,
    /// for each layer: which successors are kept (bits), and how they are grouped
    pub keep: Vec<u16>,
    pub group: Vec<u32>,
}
struct Node<S> {
    state: S,
    prefixes: Vec<Vec<isize>>,
    merged: bool,
}
fn dp<P: Problem>(p: &P, s: &P::State, fuel: &mut u64) -> Option<isize> {
    if *fuel == 0 {
        panic!("the model does not reach a terminal state");
    }
    *fuel -= 1;
    let var = match p.next_variable(&mut std::iter::once(s)) {
        None => return Some(0),
        Some(v) => v,
    };
    let mut ds = vec![];
    p.for_each_in_domain(var, s, |d| ds.push(d));
    let mut r = None;
    for d in ds {
        let c = p.transition_cost(s, d);
        let t = p.transition(s, d);
        if let Some(b) = dp(p, &t, fuel) {
            r = r.max(Some(b + c));
        }
    }
    r
}
impl<F: Fam> Relaxes<F>
where
    <F::P as Problem>::State: Clone + Eq + Debug,
{
    fn decide(c: &RelCase<F::Inst>, o: &mut Obs, mask: u32) -> Result<(), String> {
        let i = &c.inst;
        let raw = F::parse(&F::text(i)).map_err(|m| format!("reader: {}", m))?;
        let p = Patched::<F>::new(&raw, mask);
        let n = F::vars(i);
        let mut layer = vec![Node { state: p.initial_state(), prefixes: vec![vec![]], merged: false }];
        if p.nb_variables() != n || p.initial_value() != 0 {
            return Err(format!("model: {} variables, {} expected", p.nb_variables(), n));
        }
        let mut merges = 0u64;
        let mut twice = false;
        let mut fuel = 3_000_000;
        for k in 0..=n {
            for x in &layer {
                let want: Option<isize> = x.prefixes.iter().filter_map(|f| best::<F>(i, &mut f.clone())).max();
                let got = dp(&p, &x.state, &mut fuel);
                if !x.merged && got != want {
                    return Err(format!("exact: after {:?} the model reaches {:?}, the problem {:?}", x.prefixes[0], got, want));
                }
                if got < want {
                    return Err(format!("merge: the merge {:?} of {:?} reaches {:?}, one of them {:?}", x.state, x.prefixes, got, want));
                }
                // the solvers estimate states that are to be expanded only
                if k == n {
                    continue;
                }
                let e = p.estimate(&x.state);
                if let Some(w) = want {
                    if e < w {
                        return Err(format!("estimate: {} for {:?} ({:?}), which reaches {}", e, x.state, x.prefixes, w));
                    }
                }
            }
            if k == n {
                break;
            }
            // next layer
            let mut next: Vec<Node<_>> = vec![];
            let mut bit = 0;
            let keep = c.keep.get(k).copied().unwrap_or(u16::MAX);
            for x in &layer {
                let var = p.next_variable(&mut std::iter::once(&x.state)).ok_or("model: no variable although the assignment is partial")?;
                if F::position(i, var.id()) != k {
                    return Err(format!("model: variable {} in layer {}", var.id(), k));
                }
                let mut ds = vec![];
                p.for_each_in_domain(var, &x.state, |d| ds.push(d));
                for v in F::values(i) {
                    let ext: Vec<(Vec<isize>, isize)> = x
                        .prefixes
                        .iter()
                        .filter_map(|f| {
                            let c = F::step(i, f, v)?;
                            let mut g = f.clone();
                            g.push(v);
                            Some((g, c))
                        })
                        .collect();
                    let d = match ds.iter().find(|d| d.value == v) {
                        Some(d) if !ext.is_empty() => *d,
                        _ => continue,
                    };
                    bit += 1;
                    if keep >> (bit % 16) & 1 == 0 {
                        continue;
                    }
                    let cost = p.transition_cost(&x.state, d);
                    if !x.merged && cost != ext[0].1 {
                        return Err(format!("exact: decision {} after {:?} costs {}, {} expected", v, x.prefixes[0], cost, ext[0].1));
                    }
                    if let Some((g, c)) = ext.iter().find(|(_, c)| *c > cost) {
                        return Err(format!("cost: {} from {:?}, {} for the represented {:?}", cost, x.state, c, g));
                    }
                    let st = p.transition(&x.state, d);
                    let dst = st.clone();
                    if F::relax(&raw, &x.state, &dst, &dst, d, cost) < cost {
                        return Err("relax: an edge loses value".into());
                    }
                    let prefixes = ext.into_iter().map(|e| e.0).collect();
                    next.push(Node { state: st, prefixes, merged: x.merged });
                }
            }
            next.truncate(10);
            // group
            let g = c.group.get(k).copied().unwrap_or(0);
            let groups = 1 + (g % 7) as usize;
            let mut out: Vec<Node<_>> = vec![];
            let mut buckets: Vec<Vec<Node<_>>> = (0..groups).map(|_| vec![]).collect();
            let mut h = g as u64;
            for x in next {
                h = kit::mix(h);
                buckets[h as usize % groups].push(x);
            }
            for b in buckets {
                if b.len() >= 2 && b.iter().any(|x| x.state != b[0].state) {
                    let refs: Vec<_> = b.iter().map(|x| &x.state).collect();
                    let state = F::merge(&raw, &refs);
                    merges += 1;
                    twice |= b.iter().any(|x| x.merged);
                    let mut prefixes: Vec<_> = b.into_iter().flat_map(|x| x.prefixes).collect();
                    prefixes.truncate(12);
                    out.push(Node { state, prefixes, merged: true });
                } else {
                    out.extend(b);
                }
            }
            layer = out;
            if layer.is_empty() {
                break;
            }
        }
        o.count("merges", merges);
        o.class_if(twice, "a merged state was merged again");
        o.nontrivial = merges >= 1;
        Ok(())
    }
}
impl<F: Fam> Prop for Relaxes<F>
where
    <F::P as Problem>::State: Clone + Eq + Debug,
{
    type Case = RelCase<F::Inst>;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        format!("case = a generated {} instance file and a sequence of expansions and merges of states, layer by layer; every node remembers the partial assignments it stands for; oracle = brute force over their completions. Non-trivial: at least one merge of different states.", F::NAME)
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        (if tier == Tier::Quick { self.quick } else { self.thorough }, 250)
    }
    fn gen(&self, s: &mut Src, _: Tier) -> Self::Case {
        let keep = (0..8).map(|_| if s.chance(1, 2) { u16::MAX } else { s.raw() as u16 | 1 << s.below(16) }).collect();
        let group = (0..8).map(|_| s.below(7 * 50) as u32).collect();
        RelCase { keep, group, inst: F::gen(s, false) }
    }
    fn run(&self, c: &Self::Case, o: &mut Obs) -> Result<(), String> {
        attributed::<F>(|mask| {
            o.counts.clear();
            o.classes.clear();
            guarded(|| Self::decide(c, o, mask)).map_err(|m| format!("panic: {}", m))?
        })
    }
    fn assumptions(&self) -> Vec<String> {
        vec![F::WHAT.into()]
    }
}
