//! Properties of the two branch-and-bound solvers.
use crate::prob::*;
use crate::solve::*;
use crate::p_dd::{fresh_barriers, Dd};
use engineering::*;
use kit::{Obs, Prop, Src, Tier};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::sync::Arc;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    pub t: Tab,
    pub r: Run,
    /// searches after the first one
    #[serde(default)]
    pub then: Vec<Stop>,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    /// full run, one worker
    Optimal { barrier: bool },
    Certificate,
    /// interrupted at a generated point, one worker
    Anytime,
    /// full run, several workers
    Schedules { barrier: bool },
    /// termination: all of it
    Termination,
    /// interrupted and several workers
    AnytimeConc,
    /// what the counters report
    Statistics,
    /// several searches on the same solver
    Repeated,
    /// which subproblems are explored
    NoRework,
    /// bounds as the search goes on
    Monotone,
    /// the same search again, and the same problem in other words
    Same,
}
pub struct SolverProp {
    pub id: &'static str,
    pub kind: Kind,
    pub quick: u64,
    pub thorough: u64,
}
impl SolverProp {
    fn multi(&self) -> bool {
        matches!(self.kind, Kind::Schedules { .. } | Kind::Termination | Kind::AnytimeConc | Kind::Statistics | Kind::Repeated | Kind::NoRework | Kind::Monotone)
    }
}
/// The search as it is described: best first, what cannot improve is left aside,
/// and so is (barrier) what a threshold covers. Yields the subproblems explored in
/// order, the nodes expanded, and the incumbent.
type Work = (Vec<St>, usize, Option<(isize, Vec<Decision>)>);
/// What else there is to know of it.
#[derive(Default)]
pub struct More {
    /// the first layer with open nodes when each subproblem is taken
    pub floor: Vec<usize>,
    /// the most nodes that were open together until then
    pub slots: Vec<usize>,
    /// it ended because nothing that was open could improve
    pub closed: bool,
    /// the incumbent and the best open bound after each subproblem
    pub tops: Vec<(isize, isize)>,
}
/// Of nodes that are alike any may come first, which is left to the hash maps inside of
/// the diagrams. `how` varies that: only what does not depend on it is a matter of the search.
/// `known`: the incumbent of the searches before, if any.
pub fn reference(t: &Tab, r: &Run, how: usize, known: isize) -> (Work, More) {
    let mut other;
    let t = if how == 3 {
        other = t.clone();
        other.rev = !t.rev;
        &other
    } else {
        t
    };
    let m = Model::new(t);
    let (relax, rank) = (Relax::new(t), Rank::new(t));
    let barrier = matches!(r.which, Which::Barrier);
    let bars = fresh_barriers(t.n());
    let fresh = |bars: &crate::p_dd::Barriers| if barrier { Dd::Bar(Barrier::new(bars.clone(), r.cut.get()), bars.clone()) } else { Dd::All(All::new(r.cut.get())) };
    let mut dd = fresh(&bars);
    let mut open: Box<dyn Frontier<State = St> + '_> = match r.which {
        Which::Parallel(Fr::Simple) => Box::new(SimpleFrontier::new(&rank)),
        Which::Parallel(Fr::AnyMax(seed)) => Box::new(AnyMax::new(seed)),
        _ => Box::new(NoDupFrontier::new(&rank)),
    };
    let (mut lb, mut sol) = (known, None);
    let mut starts = vec![];
    let mut expanded = 0;
    open.push(SubProblem { state: Arc::new(t.root_state()), value: t.init_value, path: vec![], ub: isize::MAX });
    let mut more = More::default();
    // open nodes, by layer (the barrier frontier has one for each state)
    let mut by_layer: Vec<HashSet<St>> = vec![HashSet::new(); t.n() + 1];
    by_layer[0].insert(t.root_state());
    let mut floor = 0;
    let mut slots = 1;
    let mut next = true;
    while let Some(node) = open.pop() {
        if std::mem::take(&mut next) {
            more.tops.push((lb, node.ub));
        }
        if node.ub <= lb {
            more.closed = true;
            break;
        }
        slots = slots.max(open.len() + 1);
        by_layer[node.path.len()].remove(&node.state);
        if barrier {
            let mut b = bars[node.path.len()].write();
            if b.get(&node.state).map_or(false, |i| node.value < i.theta || (node.value == i.theta && i.explored)) {
                continue;
            }
            b.insert(node.state.clone(), BarrierInfo { theta: node.value, explored: true });
        }
        starts.push(*node.state);
        more.floor.push(floor);
        more.slots.push(slots);
        let ub = node.ub;
        let max_width = r.width.of(t, &node.state);
        let mut input = CompilationInput { comp_type: CompilationType::Restricted, max_width, problem: &m, relaxation: &relax, ranking: &rank, residual: node, best_lb: lb };
        for comp in [CompilationType::Restricted, CompilationType::Relaxed] {
            input.comp_type = comp;
            input.best_lb = lb;
            if how == 2 || (how == 1 && comp == CompilationType::Restricted) {
                dd = fresh(&bars);
            }
            dd.compile(&input);
            expanded += dd.explored();
            if comp == CompilationType::Restricted || dd.is_exact() {
                if let Some(v) = dd.best_value().filter(|v| *v > lb) {
                    lb = v;
                    sol = dd.best_solution().map(|s| (v, s));
                }
            }
            if dd.is_exact() {
                break;
            }
            if comp == CompilationType::Relaxed {
                for mut n in dd.cutset() {
                    n.ub = n.ub.min(ub);
                    if n.ub > lb {
                        by_layer[n.path.len()].insert(*n.state);
                        open.push(n);
                    }
                }
            }
        }
        next = true;
        floor = by_layer.iter().position(|l| !l.is_empty()).unwrap_or(0);
    }
    ((starts, expanded, sol), more)
}

impl Prop for SolverProp {
    type Case = Case;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        let base = "case = a layered decision process (0-8 variables in any order, 1-6 atoms per layer, forbidden moves, ties, negative and wide costs, several terminal states, merge operator, estimate, ranking, width) and a solver configuration (solver, cutset type, frontier, construction, threads, interrupt point, schedule); oracle = memoised recursion over the table. ";
        let nt = match self.kind {
            Kind::Optimal { .. } => "Non-trivial: the branch and bound explored at least 3 subproblems (so relaxations, cutsets and the frontier were used) and the instance is feasible.",
            Kind::Certificate => "Non-trivial: a solution is reported by a search that explored at least 2 subproblems.",
            Kind::Anytime => "Non-trivial: the search was really interrupted after at least one subproblem was explored.",
            Kind::Schedules { .. } => "Non-trivial: at least 2 workers, at least 8 forced context switches and at least 3 subproblems explored.",
            Kind::Termination => "Non-trivial: at least 2 workers, one of which waited on the monitor, or an interrupt that was delivered.",
            Kind::AnytimeConc => "Non-trivial: at least 2 workers, interrupted with at least one subproblem explored.",
            Kind::Statistics => "Non-trivial: at least 2 subproblems were explored.",
            Kind::NoRework => "Non-trivial: at least 3 subproblems were explored, one of them in a state to which several paths lead.",
            Kind::Monotone => "One worker: the search is run once for each number of polls before it is stopped. Several: the root was done when the search was stopped. Non-trivial: at least 3 stops, or several workers that had done more than the root.",
            Kind::Same => "The search is run again as it is, through another way of building and starting the solver, with the variables renamed, the values of the decisions shifted, the initial value shifted, and all costs scaled. Non-trivial: at least 2 subproblems explored and a solution found.",
            Kind::Repeated => "Then 1-3 further searches run on the same solver. Non-trivial: at least 2 searches explored a subproblem.",
        };
        format!("{}{}", base, nt)
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        (if tier == Tier::Quick { self.quick } else { self.thorough }, 700)
    }
    fn gen(&self, s: &mut Src, tier: Tier) -> Case {
        let barrier = match self.kind {
            Kind::Optimal { barrier } | Kind::Schedules { barrier } => Some(barrier),
            _ => None,
        };
        let which = gen_which(s, barrier);
        let cut = Cut::gen(s);
        let threads = if self.kind == Kind::NoRework {
            s.pick(&[1, 1, 1, 2, 3])
        } else if self.multi() {
            let min = if matches!(self.kind, Kind::Termination | Kind::Statistics | Kind::Repeated | Kind::Monotone) { 1 } else { 2 };
            let max = if s.chance(1, 30) { 12 } else { 4 };
            s.range(min, max)
        } else {
            // asking for none gets one
            s.chance(29, 30) as usize
        };
        let build = gen_build(s);
        let seed = s.raw() as u64;
        let pol = if self.multi() { gen_pol(s) } else { Pol::Random(0) };
        let fine = self.multi() && s.chance(1, 3);
        let polls_max = if self.multi() { 40 } else { 25 };
        let stop = match self.kind {
            Kind::Optimal { .. } | Kind::Schedules { .. } => s.pick(&[Stop::Maximize, Stop::Never]),
            Kind::NoRework => match s.below(6) {
                0 => Stop::From(s.below(40)),
                1 => Stop::Never,
                _ => Stop::Maximize,
            },
            Kind::Monotone => Stop::From(if threads == 1 { 0 } else { s.range(2, 30) }),
            Kind::Anytime | Kind::AnytimeConc => {
                let k = if s.chance(1, 2) { s.below(polls_max) } else { s.below(7) };
                if s.chance(1, 5) { Stop::Only(k) } else { Stop::From(k) }
            }
            Kind::Certificate | Kind::Termination | Kind::Statistics | Kind::Repeated | Kind::Same => match s.below(4) {
                0 => Stop::Maximize,
                1 => Stop::Never,
                2 => Stop::From(s.below(20)),
                _ => Stop::Only(s.below(20)),
            },
        };
        let t = Tab::draw(s, tier == Tier::Thorough, 100, self.kind != Kind::NoRework);
        let t = if self.kind == Kind::NoRework && s.chance(9, 10) { Tab { rank_keys: u64::MAX, ..t } } else { t };
        let width = Width::gen(s, &t);
        let then = if self.kind == Kind::Repeated {
            let k = s.range(1, 3);
            (0..k)
                .map(|_| match s.below(4) {
                    0 => Stop::Maximize,
                    1 => Stop::Never,
                    2 => Stop::From(s.below(20)),
                    _ => Stop::Only(s.below(20)),
                })
                .collect()
        } else {
            vec![]
        };
        let maxsteps = if t.n() > 14 { 60_000 } else { 600_000 };
        Case { then, t, r: Run { which, cut, width, threads, build, pol, seed, stop, fine, maxsteps } }
    }
    fn run(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let r = self.judge(c, o);
        if c.t.n() > 8 && matches!(&r, Err(e) if e.contains("no termination within")) {
            // without thresholds, the effort may be exponential in the number of layers: a
            // long search among many layers is no livelock, so it tells nothing
            o.class("given up: too long a search, more than 8 layers");
            o.nontrivial = false;
            return Ok(());
        }
        o.class_if(c.t.n() > 14, "more than 14 layers");
        r
    }
    fn shrink_iters(&self) -> u32 {
        if self.multi() {
            1500
        } else {
            6000
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "generated models satisfy the documented contract: valid relaxation, admissible estimate, one variable per layer, states that tell their depth, widths >= 1".into(),
            "blocking primitives are replaced by a stand-in for parking_lot (same interface) whose scheduler owns the interleaving; interleavings are explored at the granularity of lock, wait and notify operations (and of callbacks, when 'fine')".into(),
        ]
    }
}

impl SolverProp {
    fn judge(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let opt = Oracle::new(&c.t).opt();
        if self.kind == Kind::Repeated {
            return repeated(c, opt, o);
        }
        match self.kind {
            Kind::Monotone => return monotone(c, o),
            Kind::Same => return same(c, o),
            _ => {}
        }
        let out = run_solver(&c.t, &c.r)?;
        let interrupted = out.status == Some(ResolutionStatus::Interrupted);
        o.class(match c.r.which {
            Which::Barrier => "solver: barrier",
            Which::Parallel(Fr::NoDup) => "solver: parallel, no-dup frontier",
            Which::Parallel(Fr::Simple) => "solver: parallel, simple frontier",
            Which::Parallel(Fr::AnyMax(_)) => "solver: parallel, arbitrary ties",
        });
        o.class(if c.r.cut == Cut::Lel { "cutset: lel" } else { "cutset: frontier" });
        o.class_if(opt.is_none(), "infeasible");
        o.class_if(interrupted, "interrupted");
        o.class_if(interrupted && out.best.is_some() && out.best != opt, "interrupted with a sub-optimal incumbent");
        o.class_if(interrupted && out.best.is_none() && opt.is_some(), "interrupted before any incumbent");
        o.class(match out.explored {
            0..=1 => "subproblems: 0-1",
            2 => "subproblems: 2",
            3..=9 => "subproblems: 3-9",
            10..=49 => "subproblems: 10-49",
            50..=499 => "subproblems: 50-499",
            _ => "subproblems: 500+",
        });
        o.class_if(out.rep.cond_waits > 0, "a worker waited on the monitor");
        o.class_if(c.t.atoms[c.t.n()] > 1, "several terminal states");
        o.count("context switches", out.rep.switches);
        o.count("scheduling points", out.rep.steps);
        match self.kind {
            Kind::Optimal { .. } => {
                o.nontrivial = opt.is_some() && out.explored >= 3;
                check_optimal(opt, &out)
            }
            Kind::Schedules { .. } => {
                o.nontrivial = c.r.threads >= 2 && out.rep.switches >= 8 && out.explored >= 3;
                check_optimal(opt, &out)?;
                check_certificate(&c.t, &out)
            }
            Kind::Certificate => {
                o.nontrivial = out.best.is_some() && out.explored >= 2;
                check_certificate(&c.t, &out)
            }
            Kind::Anytime => {
                o.nontrivial = interrupted && out.explored >= 1;
                check_anytime(opt, &out)
            }
            Kind::AnytimeConc => {
                o.nontrivial = interrupted && out.explored >= 1;
                check_anytime(opt, &out)?;
                check_certificate(&c.t, &out)
            }
            Kind::Repeated | Kind::Monotone | Kind::Same => unreachable!(),
            Kind::NoRework => no_rework(c, &out, o),
            Kind::Statistics => {
                o.nontrivial = out.explored >= 2;
                if out.explored_dd as u64 != out.expanded {
                    return Err(format!("statistics: {} nodes expanded are reported, {} were", out.explored_dd, out.expanded));
                }
                // a worker may still discard a node it took, if the incumbent improved meanwhile
                let low = out.width_calls;
                if (out.explored as u64) < low || (c.r.threads == 1 && out.explored as u64 != low) {
                    return Err(format!("statistics: {} subproblems are reported, {} were explored", out.explored, low));
                }
                if out.polls == 0 && out.explored == 0 {
                    return Err("statistics: not a single subproblem was explored".into());
                }
                Ok(())
            }
            Kind::Termination => {
                o.nontrivial = (c.r.threads >= 2 && out.rep.cond_waits > 0) || interrupted;
                // the search ends, and once asked to stop it does not go on exploring
                if out.rep.registered > c.r.threads {
                    return Err(format!("threads: {} workers ran, {} were asked for", out.rep.registered, c.r.threads));
                }
                stops(c.r.threads, &out)
            }
        }
    }
}

/// What is reported after each of several searches on one solver.
fn repeated(c: &Case, opt: Option<isize>, o: &mut Obs) -> Result<(), String> {
    let stops: Vec<Stop> = std::iter::once(c.r.stop).chain(c.then.iter().copied()).collect();
    let outs = run_history(&c.t, &c.r, &stops)?;
    let want = opt.unwrap_or(isize::MIN);
    let mut prev: Option<&Outcome> = None;
    let mut stopped = false;
    for (i, out) in outs.iter().enumerate() {
        let ctx = |m: String| format!("{} (search {} of {:?})", m, i + 1, stops);
        check_certificate(&c.t, out).map_err(ctx)?;
        stopped |= out.status == Some(ResolutionStatus::Interrupted);
        if out.status == Some(ResolutionStatus::Proved) || (out.status.is_none() && !stopped) {
            check_optimal(opt, out).map_err(ctx)?;
        }
        if out.lb > want || out.ub < want {
            return Err(ctx(format!("bounds: lb={} ub={} optimum {:?}", out.lb, out.ub, opt)));
        }
        if let Some(p) = prev {
            if out.lb < p.lb {
                return Err(ctx(format!("regress: the incumbent went from {} down to {}", p.lb, out.lb)));
            }
        }
        prev = Some(out);
    }
    o.class_if(stopped, "some search was interrupted");
    o.class_if(!stopped, "no search was interrupted");
    let worked = (0..outs.len()).filter(|i| outs[*i].expanded > 0).count();
    o.nontrivial = worked >= 2;
    Ok(())
}

/// Once the callback asked to stop, a worker at most starts the subproblem it had
/// already taken.
fn stops(threads: usize, out: &Outcome) -> Result<(), String> {
    let Some(i) = out.ev.iter().position(|e| matches!(e, Ev::Poll(_, true))) else {
        return Ok(());
    };
    let Ev::Poll(asker, _) = out.ev[i] else { unreachable!() };
    let late: Vec<_> = out.ev[i..].iter().filter_map(|e| if let Ev::Start(t, _) = e { Some(*t) } else { None }).collect();
    if late.contains(&asker) {
        return Err("stop: the worker that was told to stop starts another subproblem".into());
    }
    let mut once = late.clone();
    once.sort_by_key(|t| format!("{:?}", t));
    once.dedup();
    if once.len() != late.len() || late.len() + 1 > threads {
        return Err(format!("stop: {} subproblems are started after the callback asked to stop", late.len()));
    }
    if out.status != Some(ResolutionStatus::Interrupted) {
        return Err(format!("stop: {:?} is reported although the callback asked to stop", out.status));
    }
    Ok(())
}

/// The values at which each state can be reached; None when there are too many to tell.
fn reachable(t: &Tab) -> HashMap<St, (Option<BTreeSet<isize>>, usize)> {
    let mut all: HashMap<St, (Option<BTreeSet<isize>>, usize)> = HashMap::new();
    all.insert(t.root_state(), (Some([t.init_value].into()), 1));
    let mut cur = vec![t.root_state()];
    for d in 0..t.n() {
        let mut next = vec![];
        for st in cur {
            let (vals, paths) = all[&st].clone();
            for v in &t.vals[d] {
                if let Some((nx, c)) = t.step(st, *v) {
                    let e = all.entry(nx).or_insert_with(|| {
                        next.push(nx);
                        (Some(BTreeSet::new()), 0)
                    });
                    e.1 = paths.saturating_add(e.1);
                    match (&mut e.0, &vals) {
                        (Some(x), Some(y)) => x.extend(y.iter().map(|y| y + c)),
                        (x, _) => *x = None,
                    }
                    if e.0.as_ref().map_or(false, |x| x.len() > 200) {
                        e.0 = None;
                    }
                }
            }
        }
        cur = next;
    }
    all
}
fn no_rework(c: &Case, out: &Outcome, o: &mut Obs) -> Result<(), String> {
    let reach = reachable(&c.t);
    let barrier = matches!(c.r.which, Which::Barrier);
    let starts: Vec<St> = out.ev.iter().filter_map(|e| if let Ev::Start(_, st) = e { Some(*st) } else { None }).collect();
    let mut times: HashMap<St, usize> = HashMap::new();
    for st in &starts {
        *times.entry(*st).or_default() += 1;
    }
    let mut shared = false;
    for (st, k) in &times {
        let Some((vals, paths)) = reach.get(st) else {
            return Err(format!("work: {:?} is explored, which no sequence of decisions reaches", st));
        };
        shared |= *paths > 1;
        // (several workers may publish thresholds over each other's, which costs work only)
        if let (1, true, Some(v)) = (c.r.threads, barrier, vals) {
            if *k > v.len() {
                return Err(format!("work: {:?} is explored {} times, but reached with {} values only", st, k, v.len()));
            }
        }
    }
    if c.r.threads == 1 {
        let (want, expanded, sol) = reference(&c.t, &c.r, 0, isize::MIN).0;
        let others: Vec<Work> = (1..4).map(|how| reference(&c.t, &c.r, how, isize::MIN).0).collect();
        let stopped = out.status == Some(ResolutionStatus::Interrupted);
        let sure = c.t.rank_keys == u64::MAX && others.iter().all(|w| w.0 == want);
        o.class_if(sure, "order of the subproblems independent of ties");
        if sure && ((stopped && !want.starts_with(&starts)) || (!stopped && want != starts)) {
            let i = (0..).find(|i| want.get(*i) != starts.get(*i)).unwrap();
            return Err(format!("work: subproblem {} to be explored is {:?} instead of {:?}", i + 1, starts.get(i), want.get(i)));
        }
        let val = |w: &Option<(isize, Vec<Decision>)>| w.as_ref().map(|s| s.0);
        let sure = sure && others.iter().all(|w| w.1 == expanded && val(&w.2) == val(&sol));
        o.class_if(sure, "number of nodes independent of ties");
        if sure && !stopped && (expanded, val(&sol)) != (out.explored_dd, out.best) {
            return Err(format!("work: {} nodes and the incumbent {:?} instead of {} and {:?}", out.explored_dd, out.best, expanded, sol));
        }
    }
    o.class(if barrier { "solver: barrier" } else { "solver: parallel" });
    o.class_if(shared, "a state with several paths to it was explored");
    o.class_if(times.values().any(|k| *k > 1), "some state was explored again");
    o.nontrivial = out.explored >= 3 && shared;
    Ok(())
}

/// As the search goes on, its bounds never get worse.
fn monotone(c: &Case, o: &mut Obs) -> Result<(), String> {
    let at = |k: usize| {
        let r = Run { threads: 1, stop: Stop::From(k), ..c.r.clone() };
        run_solver(&c.t, &r)
    };
    o.class(if matches!(c.r.which, Which::Barrier) { "solver: barrier" } else { "solver: parallel" });
    if c.r.threads == 1 {
        let mut prev: Option<Outcome> = None;
        let mut k = 0;
        // what is left open after so many subproblems, where that does not depend on ties
        let refs: Vec<_> = (0..4).map(|how| reference(&c.t, &c.r, how, isize::MIN)).collect();
        loop {
            let out = at(k)?;
            let i = out.explored;
            let agree = |a: &(Work, More), b: &(Work, More)| a.1.tops.get(..=i) == b.1.tops.get(..=i) && a.0 .0.get(..i) == b.0 .0.get(..i);
            if let Some(&(lb, top)) = refs[0].1.tops.get(i).filter(|t| t.0 == out.lb && refs.iter().all(|r| agree(r, &refs[0]))) {
                if out.status == Some(ResolutionStatus::Interrupted) {
                    o.class_if(i > 0 && top > lb, "stopped, and the best open bound is known");
                    if out.ub > lb.max(top) {
                        return Err(format!("loose: stopped after {} subproblems with the upper bound {}, the incumbent is {} and the best open bound {}", i, out.ub, lb, top));
                    }
                }
            }
            if let Some(p) = &prev {
                if out.lb < p.lb || out.ub > p.ub {
                    return Err(format!("monotone: [{}, {}] after {} polls, [{}, {}] after {}", p.lb, p.ub, k - 1, out.lb, out.ub, k));
                }
                if out.explored < p.explored || out.explored_dd < p.explored_dd || (out.lb == p.lb && out.sol != p.sol) {
                    return Err(format!("monotone: after {} polls something was lost", k));
                }
                o.class_if(out.ub < p.ub && p.ub != isize::MAX, "the upper bound improved");
                o.class_if(out.lb > p.lb && p.lb != isize::MIN, "the lower bound improved");
            }
            k += 1;
            if out.status == Some(ResolutionStatus::Proved) || k > 24 {
                break;
            }
            prev = Some(out);
        }
        o.class("one worker");
        o.nontrivial = k >= 3;
        return Ok(());
    }
    let root = at(1)?;
    let out = run_solver(&c.t, &c.r)?;
    // who explores the root, and does it come back before the search is stopped?
    let Some(i) = out.ev.iter().position(|e| matches!(e, Ev::Start(..))) else { return Ok(()) };
    let Ev::Start(who, _) = out.ev[i] else { unreachable!() };
    let stop = out.ev.iter().position(|e| matches!(e, Ev::Poll(_, true))).unwrap_or(out.ev.len());
    let done = stop == out.ev.len() || (i < stop && out.ev[i..=stop].iter().any(|e| matches!(e, Ev::Poll(t, _) if *t == who)));
    if done {
        o.class("several workers, root done");
        if out.lb < root.lb || out.ub > root.ub {
            return Err(format!("monotone: [{}, {}] after the root, [{}, {}] later on", root.lb, root.ub, out.lb, out.ub));
        }
        o.nontrivial = out.explored >= 2;
    }
    Ok(())
}

/// What must not depend on anything but the problem and the configuration.
fn same(c: &Case, o: &mut Obs) -> Result<(), String> {
    let a = run_solver(&c.t, &c.r)?;
    let cmp = |what: &str, x: &Outcome, val: &dyn Fn(isize) -> isize, dec: &dyn Fn(Decision) -> Decision| -> Result<(), String> {
        let v = |b: isize| if b == isize::MIN || b == isize::MAX { b } else { val(b) };
        let key = |s: &Option<Vec<Decision>>| {
            s.clone().map(|mut s| {
                s.sort_by_key(|d| d.var.id());
                s
            })
        };
        let sol = a.sol.clone().map(|s| s.into_iter().map(dec).collect());
        let want = (a.best.map(val), v(a.lb), v(a.ub), a.explored, a.explored_dd, a.expanded, a.width_calls);
        let got = (x.best, x.lb, x.ub, x.explored, x.explored_dd, x.expanded, x.width_calls);
        if want != got {
            return Err(format!("same: {}: (value, bounds, counts) {:?} instead of {:?}", what, got, want));
        }
        if key(&sol) != key(&x.sol) {
            return Err(format!("same: {}: solution {:?} instead of {:?}", what, x.sol, sol));
        }
        Ok(())
    };
    let id = |v: isize| v;
    let idd = |d: Decision| d;
    cmp("the same search again", &run_solver(&c.t, &c.r)?, &id, &idd)?;
    for build in [Build::Custom, Build::With(3), Build::New] {
        cmp("built otherwise", &run_solver(&c.t, &Run { build, ..c.r.clone() })?, &id, &idd)?;
    }
    let other = match c.r.stop {
        Stop::Maximize => Stop::Never,
        Stop::Never => Stop::Maximize,
        s => s,
    };
    cmp("started otherwise", &run_solver(&c.t, &Run { stop: other, ..c.r.clone() })?, &id, &idd)?;
    let n = c.t.n();
    if n > 1 {
        let mut t = c.t.clone();
        t.order.iter_mut().for_each(|v| *v = (*v + 1) % n);
        let dec = |d: Decision| Decision { var: Variable((d.var.id() + 1) % n), value: d.value };
        cmp("variables renamed", &run_solver(&t, &c.r)?, &id, &dec)?;
    }
    if c.t.bonus == 0 {
        let mut t = c.t.clone();
        t.vals.iter_mut().flatten().for_each(|v| *v -= 5);
        let dec = |d: Decision| Decision { var: d.var, value: d.value - 5 };
        cmp("decision values shifted", &run_solver(&t, &c.r)?, &id, &dec)?;
    }
    // (a minimal estimate is no longer minimal once something is added to it)
    if !Model::new(&c.t).says_impossible() {
        let mut t = c.t.clone();
        t.init_value -= 12345;
        cmp("initial value shifted", &run_solver(&t, &c.r)?, &|v| v - 12345, &idd)?;
        o.class("initial value shifted");
    }
    if c.t.bonus == 0 && c.t.est == Est::None {
        let mut t = c.t.clone();
        t.init_value *= 3;
        t.trans.iter_mut().flatten().flatten().for_each(|(_, c)| *c *= 3);
        cmp("costs tripled", &run_solver(&t, &c.r)?, &|v| 3 * v, &idd)?;
        o.class("costs tripled");
    }
    o.class(if matches!(c.r.which, Which::Barrier) { "solver: barrier" } else { "solver: parallel" });
    o.class_if(a.status == Some(ResolutionStatus::Interrupted), "interrupted");
    o.nontrivial = a.explored >= 2 && a.sol.is_some();
    Ok(())
}
