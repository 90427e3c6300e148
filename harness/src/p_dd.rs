//! Properties of the two kinds of decision diagram, compiled directly.
use crate::prob::*;
use crate::solve::Cut;
use engineering::*;
use kit::{mix, Obs, Prop, Src, Tier};
use parking_lot::RwLock;
use rustc_hash::FxHashMap;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub type Barriers = Arc<Vec<RwLock<FxHashMap<Arc<St>, BarrierInfo>>>>;
pub fn fresh_barriers(n: usize) -> Barriers {
    Arc::new((0..=n).map(|_| RwLock::new(Default::default())).collect())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Comp {
    Exact,
    Relaxed,
    Restricted,
}
impl Comp {
    pub fn get(self) -> CompilationType {
        match self {
            Comp::Exact => CompilationType::Exact,
            Comp::Relaxed => CompilationType::Relaxed,
            Comp::Restricted => CompilationType::Restricted,
        }
    }
}
/// how a bound is chosen with respect to the optimum of the subproblem
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Lb {
    Min,
    Opt(isize),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Job {
    pub comp: Comp,
    pub width: usize,
    /// index of the decision taken at each depth on the way to the subproblem
    pub walk: Vec<u8>,
    pub lb: Lb,
    /// slack of the bound on the subproblem (None: isize::MAX)
    pub ub: Option<isize>,
    /// thresholds that are already there when the diagram is compiled
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub prior: Option<Prior>,
}
/// Thresholds left by an earlier part of the search: for some of the states
/// below the subproblem, values up to the threshold lead to no more than `slack`
/// above the optimum of the subproblem, which is known to be kept elsewhere.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Prior {
    pub slack: isize,
    pub salt: u64,
    /// out of 8
    pub density: u64,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    pub t: Tab,
    pub barrier: bool,
    pub cut: Cut,
    /// compilations made by the same diagram; the last one is examined
    pub jobs: Vec<Job>,
}

pub enum Dd {
    All(All<St>),
    Bar(Barrier<St>, Barriers),
}
impl Dd {
    pub fn new(barrier: bool, cut: Cut, n: usize) -> Dd {
        if barrier {
            let b = fresh_barriers(n);
            Dd::Bar(Barrier::new(b.clone(), cut.get()), b)
        } else {
            Dd::All(All::new(cut.get()))
        }
    }
    pub fn compile(&mut self, i: &CompilationInput<Model, Relax, Rank>) {
        match self {
            Dd::All(d) => d.compile(i),
            Dd::Bar(d, _) => d.compile(i),
        }
    }
    pub fn is_exact(&self) -> bool {
        match self {
            Dd::All(d) => d.is_exact(),
            Dd::Bar(d, _) => d.is_exact(),
        }
    }
    pub fn best_value(&self) -> Option<isize> {
        match self {
            Dd::All(d) => d.best_value(),
            Dd::Bar(d, _) => d.best_value(),
        }
    }
    pub fn best_solution(&self) -> Option<Vec<Decision>> {
        match self {
            Dd::All(d) => d.best_solution(),
            Dd::Bar(d, _) => d.best_solution(),
        }
    }
    pub fn explored(&self) -> usize {
        match self {
            Dd::All(d) => d.get_explored(),
            Dd::Bar(d, _) => d.get_explored(),
        }
    }
    pub fn cutset(&mut self) -> Vec<SubProblem<St>> {
        let mut v = vec![];
        match self {
            Dd::All(d) => d.drain_cutset(|n| v.push(n)),
            Dd::Bar(d, _) => d.drain_cutset(|n| v.push(n)),
        }
        v
    }
    pub fn forget_barriers(&self) {
        if let Dd::Bar(_, b) = self {
            for l in b.iter() {
                l.write().clear();
            }
        }
    }
}

pub struct Sub {
    pub st: St,
    pub value: isize,
    pub path: Vec<Decision>,
}
/// the subproblem the walk leads to (it stops where no decision is left)
pub fn follow(t: &Tab, walk: &[u8]) -> Sub {
    let mut s = Sub { st: t.root_state(), value: t.init_value, path: vec![] };
    for w in walk.iter().take(t.n()) {
        let d = s.st.depth as usize;
        let ok: Vec<isize> = t.vals[d].iter().copied().filter(|v| t.step(s.st, *v).is_some()).collect();
        if ok.is_empty() {
            break;
        }
        let value = ok[*w as usize % ok.len()];
        let (nx, c) = t.step(s.st, value).unwrap();
        s.path.push(Decision { var: Variable(t.order[d]), value });
        s.st = nx;
        s.value += c;
    }
    s
}

fn gen_job(s: &mut Src, t: &Tab, comp: Option<Comp>, full: usize) -> Job {
    let comp = comp.unwrap_or_else(|| s.pick(&[Comp::Relaxed, Comp::Restricted, Comp::Exact]));
    let deep = if s.chance(2, 3) { 0 } else { s.below(t.n() + 1) };
    let walk = (0..deep).map(|_| s.below(4) as u8).collect();
    let lb = match s.below(4) {
        0 | 1 => Lb::Min,
        _ => Lb::Opt(s.near0(-12, 6)),
    };
    let ub = if s.chance(1, 3) { Some(s.below(6) as isize) } else { None };
    let width = match s.below(16) {
        0 | 1 => full + s.below(2),
        2 => s.range(1, full),
        3 if s.chance(1, 4) => usize::MAX,
        _ => s.range(1, (full / 2).clamp(1, 5)),
    };
    let prior = s.chance(1, 3).then(|| Prior { slack: s.near0(-8, 3), salt: s.raw() as u64, density: s.range(1, 5) as u64 });
    Job { comp, width, walk, lb, ub, prior }
}
/// fills in the thresholds; gives the value that may be taken for granted
fn fill(p: Prior, t: &Tab, sub: &Sub, opt: Option<isize>, or: &mut Oracle, b: &Barriers) -> isize {
    let kept = opt.unwrap_or(sub.value) + p.slack;
    for d in sub.path.len() + 1..=t.n() {
        for set in 1..=t.full(d) {
            let st = St { depth: d as u8, set };
            let h = mix(p.salt ^ t.h(st, 41));
            if h % 8 >= p.density {
                continue;
            }
            let theta = match or.best(st) {
                Some(b) => kept - b - [0, 0, 1, 3][(h >> 8) as usize % 4],
                None if h >> 16 & 1 == 0 => isize::MAX,
                None => sub.value + (h >> 20) as isize % 9,
            };
            b[d].write().insert(Arc::new(st), BarrierInfo { theta, explored: h >> 12 & 1 == 0 });
        }
    }
    kept
}

/// everything there is to see after the last compilation of a case
pub struct Seen {
    pub sub: Sub,
    pub sub_opt: Option<isize>,
    /// nothing up to this value needs to be found (lower bound, stored thresholds)
    pub lb: isize,
    pub stored: bool,
    pub exact: bool,
    pub best: Option<isize>,
    pub sol: Option<Vec<Decision>>,
    pub cutset: Vec<SubProblem<St>>,
    pub explored: usize,
    pub expanded: Vec<St>,
    pub merges: Vec<MergeLog>,
    pub thresholds: Vec<(usize, St, isize)>,
    /// the states that are stored as dealt with
    pub settled: std::collections::HashSet<St>,
    /// what was stored before
    pub prior: HashMap<St, isize>,
    /// the lower bound given to the last compilation
    pub given: isize,
    /// the estimates of the model
    pub est: HashMap<St, isize>,
    pub again: usize,
}
pub fn execute(c: &Case, oracle: &mut Oracle) -> Seen {
    let t = &c.t;
    let mut m = Model::new(t);
    m.log = Some(Mutex::new(vec![]));
    let mut relax = Relax::new(t);
    relax.log = Some(Mutex::new(vec![]));
    let rank = Rank::new(t);
    let mut dd = Dd::new(c.barrier, c.cut, t.n());
    let mut last = None;
    let mut prior = HashMap::new();
    let mut given = isize::MIN;
    for j in &c.jobs {
        dd.forget_barriers();
        m.log.as_ref().unwrap().lock().unwrap().clear();
        relax.log.as_ref().unwrap().lock().unwrap().clear();
        let sub = follow(t, &j.walk);
        let opt = oracle.best(sub.st).map(|b| b + sub.value);
        let lb = match (j.lb, opt) {
            (Lb::Min, _) => isize::MIN,
            (Lb::Opt(d), Some(o)) => o + d,
            (Lb::Opt(d), None) => sub.value + d,
        };
        let ub = match (j.ub, opt) {
            (Some(s), Some(o)) => o + s,
            _ => isize::MAX,
        };
        let input = CompilationInput {
            comp_type: j.comp.get(),
            max_width: j.width,
            problem: &m,
            relaxation: &relax,
            ranking: &rank,
            residual: SubProblem { state: Arc::new(sub.st), value: sub.value, path: sub.path.clone(), ub },
            best_lb: lb,
        };
        let mut kept = lb;
        let mut stored = false;
        prior.clear();
        given = lb;
        if let (Dd::Bar(_, b), Some(p)) = (&dd, j.prior) {
            kept = kept.max(fill(p, t, &sub, opt, oracle, b));
            stored = true;
            for l in b.iter() {
                prior.extend(l.read().iter().map(|(s, i)| (**s, i.theta)));
            }
        }
        dd.compile(&input);
        last = Some((sub, opt, kept, stored));
    }
    let (sub, sub_opt, lb, stored) = last.unwrap();
    let exact = dd.is_exact();
    let best = dd.best_value();
    let sol = dd.best_solution();
    let explored = dd.explored();
    let mut thresholds = vec![];
    let mut settled = std::collections::HashSet::new();
    if let Dd::Bar(_, b) = &dd {
        for (d, l) in b.iter().enumerate() {
            for (s, i) in l.read().iter() {
                thresholds.push((d, **s, i.theta));
                if i.explored {
                    settled.insert(**s);
                }
            }
        }
    }
    let cutset = dd.cutset();
    let again = dd.cutset().len();
    let est = cutset.iter().map(|n| (*n.state, m.est(*n.state))).collect();
    let expanded = m.log.as_ref().unwrap().lock().unwrap().clone();
    let merges = relax.log.as_ref().unwrap().lock().unwrap().clone();
    Seen { sub, sub_opt, lb, stored, exact, best, sol, cutset, explored, expanded, merges, thresholds, settled, prior, given, est, again }
}

/// a reported solution must start with the path of the subproblem and be worth its value
fn check_solution(t: &Tab, s: &Seen) -> Result<(), String> {
    match (s.best, &s.sol) {
        (None, None) => Ok(()),
        (Some(v), Some(sol)) => {
            for d in &s.sub.path {
                if !sol.contains(d) {
                    return Err(format!("solution: {:?} does not extend the path {:?} of the subproblem", sol, s.sub.path));
                }
            }
            if sol.len() != t.n() {
                return Err(format!("solution: {} decisions for {} variables", sol.len(), t.n()));
            }
            let (_, c) = replay(t, t.root_state(), sol).map_err(|m| format!("solution: {}", m))?;
            if c + t.init_value != v {
                return Err(format!("solution: worth {} but {} is reported", c + t.init_value, v));
            }
            Ok(())
        }
        (b, s) => Err(format!("solution: value {:?} with solution {:?}", b, s)),
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Relaxed,
    Restricted,
    Exact,
    CutValid,
    CutCover,
    Width,
    Protocol,
    Threshold,
    Choice,
    Report,
    Strength,
}
pub struct DdProp {
    pub id: &'static str,
    pub kind: Kind,
    pub quick: u64,
    pub thorough: u64,
}
impl Prop for DdProp {
    type Case = Case;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        let base = "case = a layered decision process (as for the solvers), a diagram kind, a cutset type and 1-3 compilations made one after the other by the same diagram object, each of a generated subproblem (any depth) with a width, a lower bound around its optimum, a valid upper bound and, for diagrams with thresholds, sound thresholds already stored for states below it; the last one is judged against the memoised recursion. ";
        let nt = match self.kind {
            Kind::Relaxed => "Non-trivial: at least one merge happened and the subproblem has a solution above the lower bound.",
            Kind::Restricted => "Non-trivial: the diagram is narrower than its subproblem (not exact) or exact with a solution above the lower bound.",
            Kind::Exact => "Non-trivial: the subproblem has a solution and at least 6 nodes were expanded.",
            Kind::CutValid => "Non-trivial: the relaxed diagram is not exact and its cutset is not empty.",
            Kind::CutCover => "Non-trivial: the relaxed diagram is not exact and the subproblem has a solution above the lower bound.",
            Kind::Width => "Non-trivial: some layer of the exact diagram is wider than the limit.",
            Kind::Protocol => "Non-trivial: at least one merge happened.",
            Kind::Choice => "The layers are rebuilt from the recorded expansions and merges. Non-trivial: in some layer nodes were given up (dropped or merged) while others were kept.",
            Kind::Report => "The layers are rebuilt from the recorded expansions and merges. Non-trivial: the diagram gave nodes up or pruned some, and a path reaches its end.",
            Kind::Strength => "The layers are rebuilt from the recorded expansions and merges. Non-trivial: the diagram reaches its last layer, and it merged nodes or pruned some by their estimates or thresholds.",
            Kind::Threshold => "Non-trivial: at least 3 thresholds were published and the relaxed diagram merged nodes or pruned by bound.",
        };
        format!("{}{}", base, nt)
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        (if tier == Tier::Quick { self.quick } else { self.thorough }, 700)
    }
    fn gen(&self, s: &mut Src, tier: Tier) -> Case {
        let barrier = matches!(self.kind, Kind::Threshold | Kind::Strength) || s.chance(1, 2);
        let cut = Cut::gen(s);
        let prev = s.pick(&[0usize, 0, 1, 2]);
        let t = Tab::draw(s, tier == Tier::Thorough, 100, true);
        let full = Oracle::new(&t).layers().into_iter().max().unwrap_or(1);
        let mut jobs = vec![];
        let comp = match self.kind {
            Kind::Restricted => Some(Comp::Restricted),
            Kind::Exact => None,
            Kind::Report => s.pick(&[Some(Comp::Relaxed), Some(Comp::Relaxed), None]),
            Kind::Width | Kind::Choice => Some(s.pick(&[Comp::Relaxed, Comp::Restricted])),
            _ => Some(Comp::Relaxed),
        };
        let last = gen_job(s, &t, comp, full);
        for _ in 0..prev {
            jobs.push(gen_job(s, &t, None, full));
        }
        jobs.push(last);
        if self.kind == Kind::Exact {
            let j = jobs.last_mut().unwrap();
            if j.comp != Comp::Exact {
                // just wide enough for every layer that is expanded, or more
                let at = follow(&t, &j.walk).st;
                let l = Oracle::new(&t).layers_from(at);
                let widest = l[..l.len().max(2) - 1].iter().copied().max().unwrap_or(1);
                j.width = widest.max(1) + s.pick(&[0, 0, 1, 2]);
            }
        }
        Case { t, barrier, cut, jobs }
    }
    fn run(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let mut or = Oracle::new(&c.t);
        let s = execute(c, &mut or);
        let j = c.jobs.last().unwrap();
        let merged = !s.merges.is_empty();
        let improving = s.sub_opt.map_or(false, |v| v > s.lb);
        o.class(if c.barrier { "diagram: barrier" } else { "diagram: all" });
        o.class(if c.cut == Cut::Lel { "cutset: lel" } else { "cutset: frontier" });
        o.class_if(c.jobs.len() > 1, "object reused");
        o.class_if(s.stored, "thresholds stored before");
        o.class_if(merged, "merged");
        o.class_if(s.exact, "exact");
        o.class_if(s.exact && merged, "exact although merged");
        o.class_if(s.sub_opt.is_none(), "infeasible subproblem");
        o.class_if(improving, "solution above the lower bound");
        o.class_if(!s.cutset.is_empty(), "cutset not empty");
        o.class_if(s.cutset.iter().any(|n| n.state.depth as usize == c.t.n()), "terminal node in the cutset");
        // the merged state coincides with one that was kept in the layer
        let recycled = s.merges.iter().any(|m| {
            let x = m.merged.unwrap();
            !m.states.contains(&x) && s.expanded.iter().any(|e| e.depth + 1 == x.depth && c.t.vals[e.depth as usize].iter().any(|v| c.t.step(*e, *v).map_or(false, |n| n.0 == x)))
        });
        o.class_if(recycled, "merged state already in the layer");
        let n = c.t.n();
        match self.kind {
            Kind::Relaxed => {
                o.nontrivial = merged && improving;
                if improving {
                    let v = s.sub_opt.unwrap();
                    match s.best {
                        None => return Err(format!("bound: no value although {} can be reached (lb {})", v, s.lb)),
                        Some(b) if b < v => return Err(format!("bound: {} is below the reachable {} (lb {})", b, v, s.lb)),
                        Some(b) if s.exact && b != v => return Err(format!("exactness: {} is claimed exact, {} is the optimum", b, v)),
                        _ => {}
                    }
                }
                if s.exact {
                    check_solution(&c.t, &s)?;
                }
                Ok(())
            }
            Kind::Restricted => {
                o.nontrivial = improving || !s.exact;
                check_solution(&c.t, &s)?;
                if s.exact && improving && s.best != s.sub_opt {
                    return Err(format!("exactness: {:?} is claimed exact, {:?} is the optimum (lb {})", s.best, s.sub_opt, s.lb));
                }
                Ok(())
            }
            Kind::Exact => {
                o.nontrivial = s.sub_opt.is_some() && s.expanded.len() >= 6;
                if !s.exact {
                    return Err("exactness: nothing was cut off but the diagram is not exact".into());
                }
                if merged {
                    return Err("exactness: nodes were merged although the diagram fits".into());
                }
                check_solution(&c.t, &s)?;
                if improving && s.best != s.sub_opt {
                    return Err(format!("optimum: {:?} instead of {:?} (lb {})", s.best, s.sub_opt, s.lb));
                }
                if s.sub_opt.is_none() && s.best.is_some() {
                    return Err("optimum: a value is reported for an infeasible subproblem".into());
                }
                Ok(())
            }
            Kind::CutValid => {
                if s.exact {
                    return Ok(());
                }
                o.nontrivial = !s.cutset.is_empty();
                if s.again > 0 {
                    return Err("drain: the cutset is delivered a second time".into());
                }
                let mut seen = std::collections::HashSet::new();
                // the layer right above the first one in which nodes were merged
                let lel = s.merges.iter().map(|m| m.merged.unwrap().depth as usize - 1).min();
                for x in &s.cutset {
                    if !seen.insert(*x.state) {
                        return Err(format!("twice: {:?} is in the cutset twice", x.state));
                    }
                    let d = x.state.depth as usize;
                    match lel {
                        None => return Err("layer: a cutset although nothing was merged".into()),
                        Some(l) if c.cut == Cut::Lel && d != l => return Err(format!("layer: {:?} is in the cutset, the last exact layer is {}", x.state, l)),
                        Some(l) if d < l => return Err(format!("layer: {:?} is in the cutset, above the last exact layer {}", x.state, l)),
                        _ => {}
                    }
                    let est = x.value.saturating_add(s.est[&x.state]);
                    if s.best.map_or(true, |b| x.ub > b) || d < n && x.ub > est {
                        return Err(format!("loose: {:?} is bounded by {}, its diagram by {:?} and its estimate by {}", x.state, x.ub, s.best, est));
                    }
                    if x.state.depth as usize != x.path.len() || x.path.len() <= s.sub.path.len() {
                        return Err(format!("depth: {:?} has a path of {} decisions (the subproblem has {})", x.state, x.path.len(), s.sub.path.len()));
                    }
                    for d in &s.sub.path {
                        if !x.path.contains(d) {
                            return Err(format!("path: {:?} does not extend the path {:?} of the subproblem", x.path, s.sub.path));
                        }
                    }
                    let (st, v) = replay(&c.t, c.t.root_state(), &x.path).map_err(|m| format!("path: {}", m))?;
                    if st != *x.state {
                        return Err(format!("state: {:?} but its path leads to {:?}", x.state, st));
                    }
                    if v + c.t.init_value != x.value {
                        return Err(format!("value: {} but its path is worth {}", x.value, v + c.t.init_value));
                    }
                    if let Some(b) = or.best(st) {
                        let v = x.value + b;
                        if v > s.lb && x.ub < v {
                            return Err(format!("bound: {:?} is bounded by {} but reaches {} (lb {})", st, x.ub, v, s.lb));
                        }
                    }
                }
                Ok(())
            }
            Kind::CutCover => {
                if s.exact || !improving {
                    return Ok(());
                }
                o.nontrivial = true;
                let v = s.sub_opt.unwrap();
                let cov = s.cutset.iter().filter_map(|x| or.best(*x.state).map(|b| (b + x.value).min(x.ub))).max();
                if cov.map_or(true, |k| k < v) {
                    return Err(format!("cover: {} is reachable, the cutset reaches {:?} (lb {})", v, cov, s.lb));
                }
                Ok(())
            }
            Kind::Width => {
                let full = or.layers().into_iter().max().unwrap_or(1);
                o.nontrivial = full > j.width && s.expanded.len() >= 3;
                let mut per: HashMap<u8, usize> = HashMap::new();
                for e in &s.expanded {
                    *per.entry(e.depth).or_default() += 1;
                }
                for (d, k) in per {
                    let rel = d as usize - s.sub.path.len();
                    // the layer of the root's children is never merged, so that
                    // cutsets are strictly below the root
                    let limited = match j.comp {
                        Comp::Restricted => true,
                        _ => rel >= 2,
                    };
                    if limited && k > j.width {
                        return Err(format!("width: {} nodes expanded at relative depth {} with a width of {}", k, rel, j.width));
                    }
                }
                if s.explored != s.expanded.len() {
                    return Err(format!("count: {} nodes explored are reported, {} were", s.explored, s.expanded.len()));
                }
                Ok(())
            }
            Kind::Protocol => {
                o.nontrivial = merged;
                for m in &s.merges {
                    if m.states.len() < 2 {
                        return Err("merge: of fewer than two states".into());
                    }
                    let mut u = m.states.clone();
                    u.sort();
                    u.dedup();
                    if u.len() != m.states.len() {
                        return Err("merge: a state is given twice".into());
                    }
                    for (src, dst, new, d, cost) in &m.edges {
                        if Some(*new) != m.merged {
                            return Err(format!("relax: new state {:?}, merged state {:?}", new, m.merged));
                        }
                        if !m.states.contains(dst) {
                            return Err(format!("relax: destination {:?} was not merged", dst));
                        }
                        if d.var.id() != c.t.order[src.depth as usize] {
                            return Err(format!("relax: variable {:?} at {:?}", d.var, src));
                        }
                        match c.t.step(*src, d.value) {
                            Some((nx, k)) if nx == *dst && k == *cost => {}
                            x => return Err(format!("relax: edge {:?} -{:?}-> {:?} of cost {}, really {:?}", src, d, dst, cost, x)),
                        }
                        if !s.expanded.contains(src) {
                            return Err(format!("relax: source {:?} was never expanded", src));
                        }
                    }
                    for st in &m.states {
                        if !m.edges.iter().any(|e| e.1 == *st) {
                            return Err(format!("relax: no edge to the merged {:?} was relaxed", st));
                        }
                    }
                    // every arc into a merged state must be redirected
                    for src in s.expanded.iter().filter(|e| Some(e.depth + 1) == m.merged.map(|x| x.depth)) {
                        for v in &c.t.vals[src.depth as usize] {
                            if let Some((nx, _)) = c.t.step(*src, *v) {
                                if m.states.contains(&nx) && !m.edges.iter().any(|e| e.0 == *src && e.3.value == *v) {
                                    return Err(format!("relax: the arc {:?} -{}-> {:?} was not redirected", src, v, nx));
                                }
                            }
                        }
                    }
                }
                Ok(())
            }
            Kind::Choice => rebuild(&c.t, j, &s, o).map(|_| ()),
            Kind::Report => match rebuild(&c.t, j, &s, o) {
                Ok(Some(g)) => report(&c.t, c.barrier, j, &s, &g, o),
                _ => {
                    o.nontrivial = false;
                    o.class("rebuilt: no");
                    Ok(())
                }
            },
            Kind::Strength => {
                if let Ok(Some(g)) = rebuild(&c.t, j, &s, o) {
                    strength(&c.t, c.cut, &s, &g, o)
                } else {
                    o.nontrivial = false;
                    o.class("rebuilt: no");
                    Ok(())
                }
            }
            Kind::Threshold => {
                o.nontrivial = s.thresholds.len() >= 3 && (merged || s.lb > isize::MIN);
                let mut covered = s.lb;
                if s.exact {
                    covered = covered.max(s.best.unwrap_or(isize::MIN));
                } else {
                    for x in &s.cutset {
                        if let Some(b) = or.best(*x.state) {
                            covered = covered.max(b + x.value);
                        }
                    }
                }
                for (d, st, theta) in &s.thresholds {
                    if *d != st.depth as usize || *d > n {
                        return Err(format!("threshold: {:?} is filed under depth {}", st, d));
                    }
                    if let Some(b) = or.best(*st) {
                        let v = theta.saturating_add(b);
                        if v > covered {
                            return Err(format!(
                                "threshold: {} on {:?} would discard a node worth {}, only {} is kept (lb {})",
                                theta, st, v, covered, s.lb
                            ));
                        }
                    }
                }
                Ok(())
            }
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["generated models satisfy the documented contract: valid relaxation, admissible estimate, one variable per layer, states that tell their depth, widths >= 1, valid subproblem bounds".into()]
    }
}

/// What a diagram contains, rebuilt from what the model saw.
struct Graph {
    /// the arcs that leave each layer: source, decision value, destination, cost
    arcs: Vec<Vec<(St, isize, St, isize)>>,
    /// the last layer: value, may descend from a merge
    end: HashMap<St, (isize, bool)>,
    /// longest paths to the end that avoid merged nodes, and that do not
    around: Option<i128>,
    through: Option<i128>,
    /// each of the best nodes of the last layer has a longest path that avoids merged nodes
    avoidable: bool,
    gave_up: bool,
    /// the nodes of each layer
    nodes: Vec<HashMap<St, Kept>>,
    /// the layer before the first one with a merge
    lel: Option<usize>,
    /// some node was saved from a merge but not expanded, which one is not known
    blurred: bool,
}
struct Kept {
    value: i128,
    /// some longest path to it meets no merged node
    exact: bool,
    fate: Fate,
}
#[derive(Clone, Copy, PartialEq)]
enum Fate {
    /// covered by this threshold
    Left(isize),
    /// its estimate does not beat the lower bound
    Cut,
    Expanded,
}

/// The thresholds that follow from the layers: how good a path to a node may be without being of use.
fn strength(t: &Tab, cut: Cut, s: &Seen, g: &Graph, o: &mut Obs) -> Result<(), String> {
    const INF: i128 = 1 << 100;
    let n = t.n();
    let m = Model::new(t);
    let d0 = s.sub.path.len();
    let lb = s.given;
    if g.end.is_empty() || d0 == n {
        o.nontrivial = false;
        o.class("no node in the last layer");
        return Ok(());
    }
    if g.blurred {
        o.nontrivial = false;
        o.class("rebuilt: no");
        return Ok(());
    }
    let pruned = g.nodes.iter().flat_map(|l| l.values()).any(|x| x.fate != Fate::Expanded);
    o.class_if(g.gave_up, "merged");
    o.class_if(pruned, "pruned");
    o.nontrivial = g.gave_up || pruned;
    let found: HashMap<(usize, St), isize> = s.thresholds.iter().map(|(d, x, th)| ((*d, *x), *th)).collect();
    let own = |v: i128, down: i128| if v + down < lb as i128 { lb as i128 - down } else { v };
    // longest path down, threshold
    let mut below: HashMap<St, (Option<i128>, i128)> = HashMap::new();
    for d in (d0..=n).rev() {
        let mut here = HashMap::new();
        for (x, k) in &g.nodes[d] {
            let (mut down, mut theta) = (None, INF);
            let mut in_cutset = cut == Cut::Lel && g.gave_up && g.lel == Some(d);
            if d == n {
                down = Some(0);
                in_cutset = if cut == Cut::Lel { !g.gave_up } else { k.exact };
            }
            match k.fate {
                Fate::Left(th) => theta = th as i128,
                Fate::Cut => theta = lb as i128 - m.est(*x) as i128,
                Fate::Expanded if d < n => {
                    for (_, _, to, cost) in g.arcs[d].iter().filter(|a| a.0 == *x) {
                        let Some(&(b, th)) = below.get(to) else { continue };
                        theta = theta.min(if th >= INF / 2 { INF } else { th - *cost as i128 });
                        if let Some(b) = b {
                            down = down.max(Some(b + *cost as i128));
                            in_cutset |= cut == Cut::Frontier && k.exact && !g.nodes[d + 1][to].exact;
                        }
                    }
                }
                Fate::Expanded => (),
            }
            if in_cutset {
                match down {
                    Some(b) => theta = theta.min(own(k.value, b)),
                    None if lb == isize::MIN => theta = theta.min(k.value),
                    None => (),
                }
            }
            here.insert(*x, (down, theta));
            let hidden = cut == Cut::Lel && g.gave_up && g.lel.map_or(true, |l| d > l);
            if hidden || !k.exact || matches!(k.fate, Fate::Left(_)) {
                continue;
            }
            let least = theta.min(isize::MAX as i128 / 2);
            let got = found.get(&(d, *x)).copied();
            o.class_if(theta < INF / 2 && theta > k.value, "a threshold above the value");
            if got.map_or(true, |th| (th as i128) < least) {
                return Err(format!("weak: the threshold of {:?} (layer {}, value {}) is {:?}, the diagram justifies {} (lower bound {})", x, d, k.value, got, theta, lb));
            }
            if !in_cutset && got.map(|x| x as i128) == Some(theta) && s.prior.get(x).map_or(true, |p| (*p as i128) < theta) && !s.settled.contains(x) {
                return Err(format!("open: {:?} (layer {}, value {}, threshold {}) is not in the cutset but not stored as dealt with either", x, d, k.value, theta));
            }
        }
        below = here;
    }
    Ok(())
}

/// What a diagram says about itself.
fn report(t: &Tab, precise: bool, j: &Job, s: &Seen, g: &Graph, o: &mut Obs) -> Result<(), String> {
    let n = t.n();
    let m = Model::new(t);
    let d0 = s.sub.path.len();
    o.nontrivial = s.best.is_some() && (g.gave_up || (0..n).any(|d| g.arcs[d].iter().any(|a| d + 1 < n && !g.arcs[d + 1].iter().any(|b| b.0 == a.2))));
    let longest = g.around.max(g.through);
    if longest != s.best.map(|b| b as i128) {
        return Err(format!("value: the longest paths are worth {:?} and {:?} (merged), the diagram says {:?}", g.around, g.through, s.best));
    }
    if !g.gave_up && !s.exact {
        return Err("exact: nothing was given up, but the diagram does not call itself exact".into());
    }
    let Some(best) = s.best else { return Ok(()) };
    if let (true, Comp::Relaxed) = (g.gave_up, j.comp) {
        o.class_if(g.around > g.through, "merged, but the best paths avoid it");
        o.class_if(g.through > g.around, "merged, and the best paths need it");
        // (the plain diagram calls a node inexact when any path to it meets a merged node)
        let plain = g.end.values().all(|x| x.0 != best || !x.1);
        o.class_if(plain, "merged, but the best node is not below");
        if g.around > g.through && (precise || plain) && !s.exact {
            return Err("exact: the best paths meet no merged node, but the diagram does not call itself exact".into());
        }
        // (of several best nodes any may be looked at)
        o.class_if(g.around == g.through && g.avoidable, "merged, some of the best paths avoid it");
        if precise && g.avoidable && !s.exact {
            return Err("exact: a best path meets no merged node, but the diagram does not call itself exact".into());
        }
        if g.through > g.around && s.exact {
            return Err("exact: all best paths meet a merged node, but the diagram calls itself exact".into());
        }
    }
    // the solution is a longest path
    if let Some(sol) = &s.sol {
        let mut at: HashMap<St, i128> = HashMap::from([(s.sub.st, s.sub.value as i128)]);
        for d in d0..n {
            let Some(dec) = sol.iter().find(|x| x.var.0 == t.order[d]) else {
                return Err(format!("solution: no decision on the variable of layer {}", d));
            };
            let mut next = HashMap::new();
            for (from, val, to, cost) in &g.arcs[d] {
                if let (Some(v), true) = (at.get(from), *val == dec.value) {
                    let e = next.entry(*to).or_insert(i128::MIN);
                    *e = (*e).max(v + *cost as i128);
                }
            }
            at = next;
        }
        if at.values().max() != Some(&(best as i128)) {
            return Err(format!("solution: worth {:?} in the diagram, the best value is {}", at.values().max(), best));
        }
    }
    // the bounds of the cutset
    if s.cutset.is_empty() {
        return Ok(());
    }
    let mut below: Vec<HashMap<St, i128>> = vec![HashMap::new(); n + 1];
    below[n] = g.end.keys().map(|x| (*x, 0)).collect();
    for d in (d0..n).rev() {
        for (from, _, to, cost) in &g.arcs[d] {
            if let Some(b) = below[d + 1].get(to).copied() {
                let e = below[d].entry(*from).or_insert(i128::MIN);
                *e = (*e).max(b + *cost as i128);
            }
        }
    }
    for x in &s.cutset {
        let d = x.path.len();
        let Some(b) = below[d].get(&*x.state) else {
            return Err(format!("cutset: no path leads from {:?} to the end of the diagram", x.state));
        };
        let local = (x.value as i128) + b;
        let rough = if d < n { x.value.saturating_add(m.est(*x.state)) } else { isize::MAX };
        o.class_if(local < best.min(rough) as i128, "a local bound is the tightest");
        if x.ub as i128 > local.min(best as i128).min(rough as i128) {
            return Err(format!("bound: {:?} is bounded by {}, local bound {}, estimate {}, diagram {}", x.state, x.ub, local, rough, best));
        }
    }
    Ok(())
}

/// Which nodes a diagram gave up: rebuilds its layers from what the model saw
/// (expanded states, merges) and demands that a node is
/// - left out exactly if its value is within the stored threshold of its state
///   (nodes that may descend from a merge are exempt),
/// - dropped or merged only if the layer is too wide, and only if enough nodes are at least as promising (value, then rank),
/// - not expanded exactly if it was left out, dropped, merged, or its estimate cannot beat the lower bound.
fn rebuild(t: &Tab, j: &Job, s: &Seen, o: &mut Obs) -> Result<Option<Graph>, String> {
    let n = t.n();
    let m = Model::new(t);
    let rank = Rank::new(t);
    let d0 = s.sub.path.len();
    let barrier = s.stored;
    let mut by: Vec<Vec<St>> = vec![vec![]; n + 1];
    for e in &s.expanded {
        if by[e.depth as usize].contains(e) {
            return Err(format!("twice: {:?} is expanded twice", e));
        }
        by[e.depth as usize].push(*e);
    }
    // values of the nodes expanded in the layer before
    let mut prev: HashMap<St, isize> = HashMap::new();
    // value and taint (below a merge) of the nodes of the current layer
    let mut cur: HashMap<St, (isize, bool)> = HashMap::from([(s.sub.st, (s.sub.value, false))]);
    // values of the best paths that avoid merged nodes, and of those that do not
    const NONE: i128 = i128::MIN / 4;
    let mut ways: HashMap<St, (i128, i128)> = HashMap::from([(s.sub.st, (s.sub.value as i128, NONE))]);
    let (mut sure, mut gave_up) = (true, false);
    let mut arcs: Vec<Vec<(St, isize, St, isize)>> = vec![vec![]; n];
    let mut nodes: Vec<HashMap<St, Kept>> = (0..=n).map(|_| HashMap::new()).collect();
    let (mut lel, mut blurred) = (None, false);
    for d in d0..n {
        let merge = s.merges.iter().find(|l| l.merged.unwrap().depth as usize == d);
        // what is left of the layer after thresholds and width
        let mut clear = true; // nothing ambiguous
        let mut set: Vec<(St, isize, bool)> = vec![];
        for (x, (v, taint)) in &cur {
            let out = d > d0 && barrier && s.prior.get(x).map_or(false, |th| *v <= *th);
            if out && !*taint {
                if by[d].contains(x) && merge.map_or(true, |l| l.merged != Some(*x)) {
                    return Err(format!("threshold: {:?} is expanded with value {}, the threshold is {}", x, v, s.prior[x]));
                }
                let (a, b) = ways[x];
                nodes[d].insert(*x, Kept { value: a.max(b), exact: a >= b, fate: Fate::Left(s.prior[x]) });
                continue;
            }
            clear &= !out;
            set.push((*x, *v, *taint));
        }
        sure &= clear;
        gave_up |= merge.is_some() || j.comp == Comp::Restricted && set.len() > j.width;
        let better = |a: &(St, isize, bool), b: &(St, isize, bool)| a.1.cmp(&b.1).then_with(|| rank.compare(&a.0, &b.0));
        let mut after = set.clone();
        if clear {
            let w = match (j.comp, merge) {
                (Comp::Restricted, _) => Some(j.width),
                (Comp::Relaxed, Some(_)) => Some(j.width - 1),
                _ => None,
            };
            if j.comp == Comp::Relaxed && merge.is_some() != (set.len() > j.width && d > d0 + 1) {
                return Err(format!("merge: {} nodes at relative depth {}, width {}, merged: {}", set.len(), d - d0, j.width, merge.is_some()));
            }
            if let Some(w) = w {
                for x in &set {
                    let ahead = set.iter().filter(|y| better(y, x).is_gt()).count();
                    let level = set.iter().filter(|y| better(y, x).is_ge()).count() - 1;
                    let beats = x.1.saturating_add(m.est(x.0)) > s.given;
                    let given_up = match (j.comp, merge) {
                        (Comp::Relaxed, Some(l)) => l.states.contains(&x.0),
                        _ => beats && !by[d].contains(&x.0),
                    };
                    let kept = if j.comp == Comp::Relaxed { !given_up } else { by[d].contains(&x.0) };
                    if given_up {
                        o.nontrivial |= set.len() > w && w > 0;
                        if level < w {
                            return Err(format!("choice: {:?} of value {} is given up, only {} nodes of {} are as promising (room for {})", x.0, x.1, level, set.len(), w));
                        }
                    }
                    if kept && ahead >= w {
                        return Err(format!("choice: {:?} of value {} is kept, {} nodes are more promising (room for {})", x.0, x.1, ahead, w));
                    }
                }
            }
        }
        if let Some(l) = merge {
            let merged = l.merged.unwrap();
            lel = lel.or(Some(d - 1));
            // if the merged state is one of those kept, there is room for one more
            let room = set.iter().any(|x| x.0 == merged && !l.states.contains(&x.0));
            let best: Vec<St> = after.iter().filter(|x| l.states.contains(&x.0) && by[d].contains(&x.0)).map(|x| x.0).collect();
            // (nor when a node left out has the state of the merged one)
            blurred |= room && best.is_empty() || nodes[d].contains_key(&merged);
            if room && best.len() > 1 {
                return Err(format!("choice: {:?} are expanded although they were merged", best));
            }
            if room && clear {
                for b in best.iter().map(|b| set.iter().find(|x| x.0 == *b).unwrap()) {
                    if set.iter().any(|x| l.states.contains(&x.0) && better(x, b).is_gt()) {
                        return Err(format!("choice: {:?} is saved from the merge, others are more promising", b.0));
                    }
                }
            }
            after.retain(|x| !l.states.contains(&x.0) || room && best.contains(&x.0));
            let mut v = isize::MIN;
            for (src, _, _, dec, cost) in &l.edges {
                let from = prev.get(src).copied();
                v = v.max(from.ok_or("merge: an edge from nowhere")?.saturating_add(cost + t.extra(*src, *dec)));
            }
            match after.iter_mut().find(|x| x.0 == merged) {
                Some(x) => {
                    x.1 = x.1.max(v);
                    x.2 = true;
                }
                None => after.push((merged, v, true)),
            }
            arcs[d - 1].retain(|a| !l.states.contains(&a.2) || room && best.contains(&a.2));
            for (src, _, _, dec, cost) in &l.edges {
                arcs[d - 1].push((*src, dec.value, merged, cost + t.extra(*src, *dec)));
            }
            let w = ways.get(&merged).filter(|_| room).copied().unwrap_or((NONE, NONE));
            ways.insert(merged, (NONE, w.0.max(w.1).max(v as i128)));
        }
        let mut next: HashMap<St, (isize, bool)> = HashMap::new();
        let mut vals = HashMap::new();
        let mut lead: HashMap<St, (i128, i128)> = HashMap::new();
        for (x, v, taint) in &after {
            let beats = v.saturating_add(m.est(*x)) > s.given;
            let did = by[d].contains(x);
            let (a, b) = ways[x];
            nodes[d].insert(*x, Kept { value: a.max(b), exact: a >= b, fate: if did { Fate::Expanded } else { Fate::Cut } });
            if did && !beats {
                return Err(format!("estimate: {:?} of value {} and estimate {} is expanded, the lower bound is {}", x, v, m.est(*x), s.given));
            }
            if !did {
                if beats && clear && j.comp != Comp::Restricted {
                    return Err(format!("missing: {:?} of value {} is not expanded, the lower bound is {}", x, v, s.given));
                }
                continue;
            }
            vals.insert(*x, *v);
            for val in &t.vals[d] {
                if let Some((nx, k)) = t.step(*x, *val) {
                    let e = next.entry(nx).or_insert((isize::MIN, false));
                    e.0 = e.0.max(v.saturating_add(k));
                    e.1 |= taint;
                    arcs[d].push((*x, *val, nx, k));
                    let (a, b) = ways[x];
                    let e = lead.entry(nx).or_insert((NONE, NONE));
                    e.0 = e.0.max(a + k as i128);
                    e.1 = e.1.max(b + k as i128);
                }
            }
        }
        if let Some(x) = by[d].iter().find(|x| !vals.contains_key(x)) {
            return Err(format!("ghost: {:?} is expanded but no expanded node leads to it, or it was merged", x));
        }
        prev = vals;
        cur = next;
        ways = lead;
    }
    if !sure {
        return Ok(None);
    }
    let around = ways.values().filter(|w| w.0 > NONE / 2).map(|w| w.0).max();
    let through = ways.values().filter(|w| w.1 > NONE / 2).map(|w| w.1).max();
    let avoidable = around >= through && ways.values().all(|w| w.0 >= w.1 || w.1 < through.unwrap_or(NONE));
    for (x, (a, b)) in &ways {
        nodes[n].insert(*x, Kept { value: *a.max(b), exact: a >= b, fate: Fate::Expanded });
    }
    Ok(Some(Graph { arcs, end: cur, around, through, avoidable, gave_up, nodes, lel, blurred }))
}

/* ----------------------------------------- branch and bound in any node order */

/// A branch and bound written here, over either kind of diagram, which picks
/// the open node to process next in a generated order, may refine the incumbent
/// late, and keeps the invariant max(incumbent, best of open) == optimum.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct AnyOrderCase {
    pub t: Tab,
    pub barrier: bool,
    pub cut: Cut,
    pub width: Width,
    /// which open node is next, and whether the restricted diagram is skipped
    pub picks: Vec<(u32, bool)>,
    /// number of diagram objects used in turn
    pub objects: usize,
}
pub struct AnyOrder {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
}
impl Prop for AnyOrder {
    type Case = AnyOrderCase;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        "case = a layered decision process and a branch-and-bound history over decision diagrams that share thresholds: which open subproblem is processed next (any order, not best first), with or without a restricted diagram first, over 1-3 diagram objects; after every step the incumbent or some open subproblem must still reach the optimum (memoised recursion). Non-trivial: at least 4 subproblems were processed and the instance is feasible.".into()
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        (if tier == Tier::Quick { self.quick } else { self.thorough }, 760)
    }
    fn gen(&self, s: &mut Src, tier: Tier) -> AnyOrderCase {
        let barrier = s.chance(3, 4);
        let cut = Cut::gen(s);
        let objects = s.range(1, 3);
        let style = s.below(3);
        let picks = (0..60)
            .map(|_| {
                let p = s.raw();
                (if style == 0 { p } else if style == 1 { 0 } else { u32::MAX - p / 4 }, s.chance(1, 3))
            })
            .collect();
        let t = Tab::draw(s, tier == Tier::Thorough, 150, false);
        let width = Width::gen(s, &t);
        AnyOrderCase { t, barrier, cut, width, picks, objects }
    }
    fn run(&self, c: &AnyOrderCase, o: &mut Obs) -> Result<(), String> {
        let t = &c.t;
        let mut or = Oracle::new(t);
        let opt = or.opt();
        let m = Model::new(t);
        let relax = Relax::new(t);
        let rank = Rank::new(t);
        let bars = fresh_barriers(t.n());
        let mut dds: Vec<Dd> = (0..c.objects)
            .map(|_| if c.barrier { Dd::Bar(Barrier::new(bars.clone(), c.cut.get()), bars.clone()) } else { Dd::All(All::new(c.cut.get())) })
            .collect();
        let mut open = vec![SubProblem { state: Arc::new(t.root_state()), value: t.init_value, path: vec![], ub: isize::MAX }];
        let mut lb = isize::MIN;
        let mut done = 0usize;
        let mut skipped = 0usize;
        while !open.is_empty() {
            let (p, skip) = c.picks.get(done + skipped).copied().unwrap_or((0, false));
            let i = ((p as u64 * open.len() as u64) >> 32) as usize;
            let node = open.remove(i);
            let take = node.ub > lb
                && (!c.barrier || {
                    let l = bars[node.path.len()].read();
                    l.get(&node.state).map_or(true, |i| node.value > i.theta || (node.value == i.theta && !i.explored))
                });
            if take {
                if c.barrier {
                    bars[node.path.len()].write().insert(node.state.clone(), BarrierInfo { theta: node.value, explored: true });
                }
                let dd = &mut dds[done % c.objects];
                done += 1;
                if done > 20_000 && c.t.n() > 8 {
                    // the effort may be exponential in the number of layers
                    o.class("given up: too long a search, more than 8 layers");
                    o.nontrivial = false;
                    return Ok(());
                }
                if done > 20_000 {
                    return Err("termination: more than 20000 subproblems".into());
                }
                let ub = node.ub;
                let mut input = CompilationInput {
                    comp_type: CompilationType::Restricted,
                    max_width: c.width.of(t, &node.state),
                    problem: &m,
                    relaxation: &relax,
                    ranking: &rank,
                    residual: node,
                    best_lb: lb,
                };
                let mut finished = false;
                if !skip {
                    dd.compile(&input);
                    lb = lb.max(dd.best_value().unwrap_or(isize::MIN));
                    finished = dd.is_exact();
                }
                if !finished {
                    input.comp_type = CompilationType::Relaxed;
                    input.best_lb = lb;
                    dd.compile(&input);
                    if dd.is_exact() {
                        lb = lb.max(dd.best_value().unwrap_or(isize::MIN));
                    } else {
                        for mut n in dd.cutset() {
                            n.ub = n.ub.min(ub);
                            if n.ub > lb {
                                open.push(n);
                            }
                        }
                    }
                }
            } else {
                skipped += 1;
            }
            let left = open.iter().filter_map(|n| or.best(*n.state).map(|b| (b + n.value).min(n.ub))).max().unwrap_or(isize::MIN);
            let want = opt.unwrap_or(isize::MIN);
            if lb > want {
                return Err(format!("incumbent: {} above the optimum {:?}", lb, opt));
            }
            if lb.max(left) < want {
                return Err(format!("lost: after {} subproblems the optimum {:?} is out of reach (incumbent {}, open reach {})", done, opt, lb, left));
            }
        }
        o.class(if c.barrier { "diagram: barrier" } else { "diagram: all" });
        o.class(if c.cut == Cut::Lel { "cutset: lel" } else { "cutset: frontier" });
        o.class_if(skipped > 0, "an open subproblem was discarded");
        o.count("subproblems processed", done as u64);
        o.nontrivial = opt.is_some() && done >= 4;
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the driving loop written in the harness follows the protocol of the solver for the shared thresholds (discard at most the threshold, mark what is explored)".into()]
    }
}
