//! What a diagram, a frontier or a search still holds once it is done with it:
//! every state is counted from its making to its drop.
use crate::p_dd::{follow, Comp};
use crate::p_solver::reference;
use crate::prob::*;
use crate::solve::*;
use engineering::*;
use kit::{guarded, Obs, Prop, Src, Tier};
use parking_lot::{sched, RwLock};
use rustc_hash::FxHashMap;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};

/// the living states, by the period they were made in and by layer
#[derive(Default)]
struct Book {
    now: std::sync::atomic::AtomicUsize,
    alive: Mutex<Vec<Vec<i64>>>,
}
impl Book {
    fn add(&self, born: usize, depth: usize, by: i64) {
        let mut a = self.alive.lock().unwrap();
        while a.len() <= born {
            a.push(vec![]);
        }
        let l = &mut a[born];
        while l.len() <= depth {
            l.push(0);
        }
        l[depth] += by;
    }
    fn make(self: &Arc<Book>, st: St) -> Held {
        let born = self.now.load(std::sync::atomic::Ordering::SeqCst);
        self.add(born, st.depth as usize, 1);
        Held { st, born, book: self.clone() }
    }
    fn next(&self) {
        self.now.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
    /// how many are alive of those made before the current period
    fn old(&self) -> i64 {
        let now = self.now.load(std::sync::atomic::Ordering::SeqCst);
        self.alive.lock().unwrap().iter().take(now).flatten().sum()
    }
    /// how many are alive in the layers above this one
    fn above(&self, depth: usize) -> i64 {
        self.alive.lock().unwrap().iter().map(|l| l.iter().take(depth).sum::<i64>()).sum()
    }
    fn all(&self) -> i64 {
        self.above(usize::MAX)
    }
}
struct Held {
    st: St,
    born: usize,
    book: Arc<Book>,
}
impl Clone for Held {
    fn clone(&self) -> Held {
        self.book.make(self.st)
    }
}
impl Drop for Held {
    fn drop(&mut self) {
        self.book.add(self.born, self.st.depth as usize, -1)
    }
}
impl PartialEq for Held {
    fn eq(&self, o: &Held) -> bool {
        self.st == o.st
    }
}
impl Eq for Held {}
impl Hash for Held {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.st.hash(h)
    }
}
/// one of the parts of a problem, on counted states
struct On<'a, T> {
    inner: &'a T,
    book: Arc<Book>,
}
impl Problem for On<'_, Model<'_>> {
    type State = Held;
    fn nb_variables(&self) -> usize {
        self.inner.nb_variables()
    }
    fn initial_state(&self) -> Held {
        self.book.make(self.inner.initial_state())
    }
    fn initial_value(&self) -> isize {
        self.inner.initial_value()
    }
    fn next_variable(&self, l: &mut dyn Iterator<Item = &Held>) -> Option<Variable> {
        self.inner.next_variable(&mut l.map(|h| &h.st))
    }
    fn for_each_in_domain<F: FnMut(Decision)>(&self, var: Variable, s: &Held, f: F) {
        self.inner.for_each_in_domain(var, &s.st, f)
    }
    fn transition(&self, s: &Held, d: Decision) -> Held {
        self.book.make(self.inner.transition(&s.st, d))
    }
    fn transition_cost(&self, s: &Held, d: Decision) -> isize {
        self.inner.transition_cost(&s.st, d)
    }
    fn estimate(&self, s: &Held) -> isize {
        self.inner.estimate(&s.st)
    }
}
impl Relaxation for On<'_, Relax<'_>> {
    type State = Held;
    fn merge(&self, states: &mut dyn Iterator<Item = &Held>) -> Held {
        self.book.make(self.inner.merge(&mut states.map(|h| &h.st)))
    }
    fn relax(&self, a: &Held, b: &Held, c: &Held, d: Decision, cost: isize) -> isize {
        self.inner.relax(&a.st, &b.st, &c.st, d, cost)
    }
}
impl StateRanking for On<'_, Rank<'_>> {
    type State = Held;
    fn compare(&self, a: &Held, b: &Held) -> Ordering {
        self.inner.compare(&a.st, &b.st)
    }
}
/// what is alive above each layer whenever a subproblem is started
struct Watch<'a> {
    inner: &'a WidthHeu<'a>,
    book: Arc<Book>,
    n: usize,
    seen: Mutex<Vec<Vec<i64>>>,
}
impl WidthHeuristic<Held> for Watch<'_> {
    fn max_width(&self, s: &Held) -> usize {
        self.seen.lock().unwrap().push((0..=self.n).map(|d| self.book.above(d)).collect());
        self.inner.max_width(&s.st)
    }
}
/// a frontier, and the most it held
struct Meter<F> {
    inner: F,
    high: usize,
}
impl<F: Frontier> Frontier for Meter<F> {
    type State = F::State;
    fn push(&mut self, n: SubProblem<F::State>) {
        self.inner.push(n);
        self.high = self.high.max(self.inner.len());
    }
    fn pop(&mut self) -> Option<SubProblem<F::State>> {
        self.inner.pop()
    }
    fn clear(&mut self) {
        self.inner.clear()
    }
    fn len(&self) -> usize {
        self.inner.len()
    }
}
type PBook<'a, 't> = On<'a, Model<'t>>;
impl<'a, 't, F: Frontier<State = Held> + Send + Sync> AnySolver for ParallelSolver<'a, PBook<'a, 't>, On<'a, Relax<'t>>, On<'a, Rank<'t>>, Watch<'a>, F> {
    any_solver!();
}
impl<'a, 't> AnySolver for BarrierParallelSolver<'a, PBook<'a, 't>, On<'a, Relax<'t>>, On<'a, Rank<'t>>, Watch<'a>> {
    any_solver!();
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    /// state, value, bound
    Push(u16, isize, isize),
    Pop,
    Clear,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Job {
    comp: Comp,
    width: usize,
    walk: Vec<u8>,
    /// below the value of the root of the subproblem, if any
    lb: Option<isize>,
    drain: bool,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Part {
    Diagram { barrier: bool, cut: Cut, jobs: Vec<Job> },
    Frontier { nodup: bool, ops: Vec<Op> },
    Search(Run),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    t: Tab,
    part: Part,
}
pub struct Memory {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
}
impl Prop for Memory {
    type Case = Case;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        "case = a layered decision process and one of: 2-4 compilations by one diagram; a history of up to 40 operations on a frontier; a search. The states count themselves from their making to their drop. Non-trivial: the diagram had states to let go of; the frontier was popped or cleared after 4 pushes or more; the search explored 3 subproblems or more".into()
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        (if tier == Tier::Quick { self.quick } else { self.thorough }, 700)
    }
    fn gen(&self, s: &mut Src, tier: Tier) -> Case {
        let kind = s.pick(&[0, 0, 1, 2, 2, 2, 2, 2]);
        let (barrier, nodup, cut) = (s.chance(1, 2), s.chance(1, 2), Cut::gen(s));
        let ops = (0..if kind == 1 { s.range(1, 40) } else { 0 })
            .map(|_| match s.below(16) {
                0 => Op::Clear,
                1..=5 => Op::Pop,
                _ => Op::Push(s.below(8) as u16, s.near0(-9, 9), s.near0(-9, 9)),
            })
            .collect();
        let which = gen_which(s, None);
        let threads = s.pick(&[1usize, 1, 1, 1, 2, 3]);
        let (pol, seed) = (gen_pol(s), s.raw() as u64);
        let stop = match s.below(6) {
            0 => Stop::From(s.below(40)),
            1 => Stop::Never,
            _ => Stop::Maximize,
        };
        let t = Tab::draw(s, tier == Tier::Thorough, 100, false);
        let t = if kind == 2 && s.chance(9, 10) { Tab { rank_keys: u64::MAX, ..t } } else { t };
        let part = match kind {
            0 => {
                let k = s.range(2, 4);
                let jobs = (0..k)
                    .map(|_| {
                        let deep = if s.chance(1, 2) { 0 } else { s.below(t.n() + 1) };
                        Job {
                            comp: s.pick(&[Comp::Relaxed, Comp::Restricted, Comp::Exact]),
                            width: s.range(1, 5),
                            walk: (0..deep).map(|_| s.below(4) as u8).collect(),
                            lb: s.chance(1, 4).then(|| s.near0(-20, 20)),
                            drain: s.chance(1, 2),
                        }
                    })
                    .collect();
                Part::Diagram { barrier, cut, jobs }
            }
            1 => Part::Frontier { nodup, ops },
            _ => {
                let width = Width::gen(s, &t);
                Part::Search(Run { which, cut, width, threads, build: Build::Custom, pol, seed, stop, fine: false, maxsteps: 600_000 })
            }
        };
        Case { t, part }
    }
    fn run(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        match &c.part {
            Part::Diagram { barrier, cut, jobs } => diagram(&c.t, *barrier, *cut, jobs, o),
            Part::Frontier { nodup, ops } => frontier(&c.t, *nodup, ops, o),
            Part::Search(r) => search(&c.t, r, o),
        }
    }
    fn shrink_iters(&self) -> u32 {
        3000
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a frontier without duplicates may keep what it popped until the place is needed again".into()]
    }
}

/// A diagram holds nothing of the compilations before the last one.
fn diagram(t: &Tab, barrier: bool, cut: Cut, jobs: &[Job], o: &mut Obs) -> Result<(), String> {
    let book = Arc::new(Book::default());
    let (m, relax, rank) = (Model::new(t), Relax::new(t), Rank::new(t));
    let on = (On { inner: &m, book: book.clone() }, On { inner: &relax, book: book.clone() }, On { inner: &rank, book: book.clone() });
    let bars: Arc<Vec<RwLock<FxHashMap<Arc<Held>, BarrierInfo>>>> = Arc::new((0..=t.n()).map(|_| RwLock::new(Default::default())).collect());
    let stored = || -> i64 {
        let now = book.now.load(std::sync::atomic::Ordering::SeqCst);
        bars.iter().map(|l| l.read().keys().filter(|k| k.born < now).count() as i64).sum()
    };
    let (mut all, mut bar) = (All::new(cut.get()), Barrier::new(bars.clone(), cut.get()));
    let mut before = 0;
    for (i, j) in jobs.iter().enumerate() {
        before = book.all() - stored();
        book.next();
        let sub = follow(t, &j.walk);
        let lb = j.lb.map_or(isize::MIN, |d| sub.value + d);
        let residual = SubProblem { state: Arc::new(book.make(sub.st)), value: sub.value, path: sub.path, ub: isize::MAX };
        let input = CompilationInput { comp_type: j.comp.get(), max_width: j.width, problem: &on.0, relaxation: &on.1, ranking: &on.2, residual, best_lb: lb };
        if barrier {
            bar.compile(&input)
        } else {
            all.compile(&input)
        }
        let left = book.old() - stored();
        if left > 0 {
            return Err(format!("diagram: {} states of earlier compilations are held after compilation {}", left, i + 1));
        }
        drop(input);
        if j.drain {
            if barrier {
                bar.drain_cutset(|_| ())
            } else {
                all.drain_cutset(|_| ())
            }
        }
    }
    drop((all, bar));
    book.next();
    let left = book.old() - stored();
    if left > 0 {
        return Err(format!("diagram: {} states are alive although the diagram is dropped", left));
    }
    o.class(if barrier { "diagram with thresholds" } else { "plain diagram" });
    o.nontrivial = before > 1;
    Ok(())
}

/// A frontier holds what can still be popped; without duplicates, the places it has made at most.
fn frontier(t: &Tab, nodup: bool, ops: &[Op], o: &mut Obs) -> Result<(), String> {
    let book = Arc::new(Book::default());
    let rank = Rank::new(t);
    let on = On { inner: &rank, book: book.clone() };
    if nodup {
        hold(&mut NoDupFrontier::new(&on), true, ops, &book, o)
    } else {
        hold(&mut SimpleFrontier::new(&on), false, ops, &book, o)
    }
}
fn hold(f: &mut dyn Frontier<State = Held>, nodup: bool, ops: &[Op], book: &Arc<Book>, o: &mut Obs) -> Result<(), String> {
    let (mut high, mut pushes) = (0, 0);
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Push(set, value, ub) => {
                pushes += 1;
                f.push(SubProblem { state: Arc::new(book.make(St { depth: 0, set: *set })), value: *value, path: vec![], ub: *ub })
            }
            Op::Pop => drop(f.pop()),
            Op::Clear => {
                f.clear();
                high = 0;
            }
        }
        high = high.max(f.len());
        // an element without duplicates is its key and its node, the place of one popped is its node
        let most = if nodup { f.len() + high } else { f.len() };
        if book.all() > most as i64 {
            return Err(format!("frontier: {} states are held after operation {}, {} at most expected", book.all(), i + 1, most));
        }
        if !matches!(op, Op::Push(..)) && pushes >= 4 {
            o.nontrivial = true;
        }
    }
    o.class(if nodup { "frontier without duplicates" } else { "simple frontier" });
    Ok(())
}

/// Once a search is over the solver holds no subproblem any more, and while it goes on no
/// threshold of the layers it is done with.
fn search(t: &Tab, r: &Run, o: &mut Obs) -> Result<(), String> {
    let book = Arc::new(Book::default());
    let (m, relax, rank) = (Model::new(t), Relax::new(t), Rank::new(t));
    let wh = WidthHeu::new(t, r.width);
    let (pm, pr, pk) = (On { inner: &m, book: book.clone() }, On { inner: &relax, book: book.clone() }, On { inner: &rank, book: book.clone() });
    let watch = Watch { inner: &wh, book: book.clone(), n: t.n(), seen: Default::default() };
    let n = t.n();
    let ev = wh.ev.clone();
    let fly = |s: &mut dyn AnySolver| -> Result<Outcome, String> {
        sched::begin(sched::Config { expected: r.threads, seed: r.seed, policy: policy(&r.pol), max_steps: r.maxsteps });
        let res = guarded(|| s.search(r.stop, &ev));
        let rep = sched::end();
        match (res, rep.aborted) {
            (Err(m), Some(w)) if m == "panic" || m.contains("a scoped thread panicked") => Err(format!("termination: {}", w)),
            (Err(m), _) => Err(format!("panic: {}", m)),
            (_, Some(w)) => Err(format!("termination: {}", w)),
            (Ok(out), None) => Ok(out),
        }
    };
    macro_rules! parallel {
        ($f:expr) => {{
            let mut f = Meter { inner: $f, high: 0 };
            let out = {
                let mut s = ParallelSolver::custom(&pm, &pr, &pk, &watch, r.cut.get(), &mut f, r.threads);
                let out = fly(&mut s)?;
                (out, book.all())
            };
            (out.0, out.1, f.high as i64)
        }};
    }
    // a worker may post what it found after another one has closed the search
    let late = |out: &Outcome| r.threads > 1 && out.status == Some(ResolutionStatus::Interrupted);
    let out = match r.which {
        Which::Parallel(Fr::NoDup) => {
            let (out, left, high) = parallel!(NoDupFrontier::new(&pk));
            if left > high && !late(&out) {
                return Err(format!("search: {} states are alive after it, and the frontier never held more than {}", left, high));
            }
            out
        }
        Which::Parallel(_) => {
            let (out, left, _) = parallel!(SimpleFrontier::new(&pk));
            if left > 0 && !late(&out) {
                return Err(format!("search: {} states are alive after it", left));
            }
            out
        }
        Which::Barrier => {
            let out = {
                let mut s = BarrierParallelSolver::custom(&pm, &pr, &pk, &watch, r.cut.get(), r.threads);
                let out = fly(&mut s)?;
                let left = book.above(n);
                if r.threads == 1 {
                    let mut places = barrier(t, r, isize::MIN, 0, &out, left, &watch.seen.lock().unwrap(), &ev, o)?;
                    // a search that starts from the result of the one before
                    for again in 0..if out.status == Some(ResolutionStatus::Interrupted) { 0 } else { r.seed % 3 } {
                        let Some(held) = places else { break };
                        watch.seen.lock().unwrap().clear();
                        ev.lock().unwrap().clear();
                        let next = fly(&mut s)?;
                        places = barrier(t, r, out.best.unwrap_or(isize::MIN), held, &next, book.above(n), &watch.seen.lock().unwrap(), &ev, o).map_err(|e| format!("{} (search {})", e, again + 2))?;
                        if next.status == Some(ResolutionStatus::Interrupted) {
                            places = None;
                        }
                        o.class_if(places.is_some(), "thresholds: a further search");
                        o.class_if(places.is_some() && watch.seen.lock().unwrap().len() > 2, "thresholds: a further search of 3 subproblems or more");
                    }
                }
                out
            };
            out
        }
    };
    if book.all() > 0 {
        return Err(format!("search: {} states are alive although the solver is dropped", book.all()));
    }
    o.class(if matches!(r.which, Which::Barrier) { "search: barrier" } else { "search: parallel" });
    o.class_if(out.status == Some(ResolutionStatus::Interrupted), "interrupted search");
    o.class_if(r.threads > 1, "several workers");
    o.nontrivial = out.explored >= 3;
    Ok(())
}
/// The places the frontier may have kept, unless that depends on ties.
#[allow(clippy::too_many_arguments)]
fn barrier(t: &Tab, r: &Run, known: isize, held: usize, out: &Outcome, left: i64, seen: &[Vec<i64>], ev: &Events, o: &mut Obs) -> Result<Option<usize>, String> {
    let starts: Vec<St> = ev.lock().unwrap().iter().filter_map(|e| if let Ev::Start(_, st) = e { Some(*st) } else { None }).collect();
    let stopped = out.status == Some(ResolutionStatus::Interrupted);
    let (want, mut more) = reference(t, r, 0, known);
    if !want.0.starts_with(&starts) || (!stopped && want.0 != starts) {
        return Ok(None); // ties
    }
    // (other ties may leave other nodes open)
    for how in 1..4 {
        let (w, x) = reference(t, r, how, known);
        if w != want || (&x.floor, &x.slots, x.closed) != (&more.floor, &more.slots, more.closed) {
            return Ok(None);
        }
    }
    more.slots.iter_mut().for_each(|x| *x = held.max(*x));
    o.class("thresholds: what is open is known");
    let mut seen_some = HashSet::new();
    for (i, alive) in seen.iter().enumerate() {
        // the diagram may hold the subproblem before, until it compiles the next one
        let floor = more.floor[i].min(if i > 0 { starts[i - 1].depth as usize } else { usize::MAX });
        seen_some.insert(floor);
        let most = more.slots[i] as i64;
        if alive[floor] > most {
            return Err(format!(
                "thresholds: {} states above layer {} are alive when subproblem {} is started, although nothing is open there; {} at most may be left in the frontier",
                alive[floor],
                floor,
                i + 1,
                most
            ));
        }
    }
    o.class_if(seen_some.iter().any(|f| *f > 1), "a search that is done with some layers");
    let places = if more.closed { 0 } else { more.slots.last().copied().unwrap_or(held) };
    if !stopped {
        let most = places as i64;
        if left > most {
            return Err(format!("thresholds: {} states are held after the search, {} at most may be left in the frontier", left, most));
        }
        o.class_if(more.closed, "closed by the bound");
    }
    Ok(Some(places))
}
