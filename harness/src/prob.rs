//! Generated problems: layered decision processes over sets of "atoms".
//!
//! A state is a depth and a non-empty set of atoms of that layer. A decision
//! moves each atom of the set to the successors listed in the table (or
//! nowhere, if the table forbids it); the next state is the union and the cost
//! is the best cost over the atoms that could move. The process is an ordinary
//! dynamic program on set-states, and it is monotone: a superset has at least
//! the completions of its subsets, at no smaller cost. Replacing states by any
//! superset of their union is therefore a valid relaxation, and the true
//! optimum is a plain memoised recursion (see [`Oracle`]).
use engineering::*;
use kit::{mix, Src};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed as Rlx};

pub const NEG: isize = isize::MIN;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Tab {
    /// variable assigned at each depth (a permutation of 0..n)
    pub order: Vec<usize>,
    /// number of atoms in each of the n+1 layers
    pub atoms: Vec<u8>,
    /// domain size at each depth; value i of the domain is vals[depth][i]
    pub vals: Vec<Vec<isize>>,
    /// trans[depth][atom][value index] = (successor mask, cost); mask 0 = forbidden
    pub trans: Vec<Vec<Vec<(u16, isize)>>>,
    pub root: u16,
    pub init_value: isize,
    pub est: Est,
    pub merge: Merge,
    /// the relaxed cost of an edge is cost + something in 0..=bonus
    pub bonus: isize,
    pub salt: u64,
    /// number of distinct ranking keys
    pub rank_keys: u64,
    /// what next_variable answers on an empty layer
    pub empty_some: bool,
    /// for_each_in_domain enumerates in reverse
    pub rev: bool,
    /// variables that are never branched on
    #[serde(default, skip_serializing_if = "is_zero")]
    pub spare: usize,
}
fn is_zero(k: &usize) -> bool {
    *k == 0
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Est {
    /// no estimate (isize::MAX)
    None,
    /// the exact completion value plus a pseudo-random slack in 0..=s
    Slack(isize),
    /// as Slack, but isize::MAX for about half of the states
    Mixed(isize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Merge {
    Union,
    /// all the atoms of the layer
    Top,
    /// the smallest prefix {0..k} that contains the union
    Prefix,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct St {
    pub depth: u8,
    pub set: u16,
}

#[derive(Clone, Copy, Debug)]
pub struct GenCfg {
    pub nmax: usize,
    pub amax: usize,
    pub dmax: usize,
}
pub const SMALL: GenCfg = GenCfg { nmax: 6, amax: 5, dmax: 3 };
pub const LARGE: GenCfg = GenCfg { nmax: 8, amax: 7, dmax: 4 };

impl Tab {
    /// A problem of the usual size or, one time in `long`, one of many layers and
    /// states, whose table comes from a seed.
    pub fn draw(s: &mut Src, thorough: bool, long: usize, towers: bool) -> Tab {
        if s.chance(1, long) {
            // a few of them are towers: very many layers of few states
            let tower = towers && s.chance(1, 3);
            let (nmax, amax, dmax) = if tower {
                (s.range(15, 70), s.range(1, 3), 2)
            } else if s.chance(1, 4) {
                // many decisions
                (s.range(3, 5), s.range(2, 9), s.range(5, 40))
            } else {
                (s.range(3, 14), s.range(2, 9), s.range(2, 3))
            };
            let g = GenCfg { nmax, amax, dmax };
            let mut x = s.raw() as u64;
            let v: Vec<u32> = (0..9000)
                .map(|_| {
                    x = kit::mix(x.wrapping_add(1));
                    (x >> 32) as u32
                })
                .collect();
            return Tab::gen(&mut Src::new(&v), g);
        }
        let g = if thorough || s.chance(1, 3) { LARGE } else { SMALL };
        Tab::gen(s, g)
    }
    pub fn n(&self) -> usize {
        self.order.len()
    }
    pub fn gen(s: &mut Src, g: GenCfg) -> Tab {
        let n = if s.chance(1, 30) { s.range(0, 2) } else { s.range(4.min(g.nmax), g.nmax) };
        let order = if s.chance(1, 2) { s.shuffled(n) } else { (0..n).collect() };
        let salt = s.raw() as u64;
        // costs
        let (lo, hi): (isize, isize) = match s.below(13) {
            0..=2 => (0, 2),
            3..=5 => (-3, 3),
            6..=7 => (-20, 20),
            8 => (-9, 0),
            9 => (0, 0),
            10 => (-100_000, 100_000),
            // beyond what a double holds, as long as no sum gets too large
            11 if n <= 8 => (-(1 << 56), 1 << 56),
            _ => (-(1 << 41), 1 << 41),
        };
        let wide = hi > 1 << 30;
        let forbid = s.pick(&[0usize, 0, 1, 1, 2, 3]); // out of 8
        let nd = s.pick(&[0usize, 1, 2, 2]); // 0: deterministic atoms, 1: some, 2: many multi-successor entries
        let prefix = s.chance(1, 4); // nested sets: merged states often coincide with exact ones
        let mut atoms = vec![1 + s.below(2) as u8];
        for d in 1..=n {
            let a = if d == n { s.range(1, g.amax) } else { s.range(1 + g.amax / 2, g.amax) };
            atoms.push(a as u8);
        }
        if s.chance(1, 2) {
            atoms[n] = 1; // a single terminal state, as most models have
        }
        let root = if atoms[0] == 1 { 1 } else { s.pick(&[1u16, 3]) };
        // what looks good early need not be good: later layers may weigh more
        let late = s.chance(2, 3);
        let mut vals = vec![];
        let mut trans = vec![];
        for d in 0..n {
            let weight: isize = if late && !wide && hi < 1000 { s.pick(&[1, 2, 4, 8]) } else { 1 };
            let k = if s.chance(1, 10) { 1 } else { s.range(2, g.dmax) };
            let base = s.pick(&[0isize, 0, 1, -1, 7, -(1 << 40), isize::MAX - 100]);
            vals.push((0..k as isize).map(|i| base + i).collect::<Vec<_>>());
            let m = atoms[d + 1] as usize;
            let full = ((1u32 << m) - 1) as u16;
            let mut layer = vec![];
            for _ in 0..atoms[d] {
                let mut row = vec![];
                for _ in 0..k {
                    let f = s.below(8);
                    let mask = if f >= 8 - forbid {
                        0
                    } else if prefix {
                        ((1u32 << (1 + s.below(m))) - 1) as u16
                    } else {
                        let mut x = 1u16 << s.below(m);
                        if nd > 0 && s.chance(nd, 4) {
                            x |= 1 << s.below(m);
                        }
                        x & full
                    };
                    let mut c = s.near0(lo.max(-1000), hi.min(1000));
                    if wide || hi > 1000 {
                        c = c * (hi / 1000) + if s.chance(1, 2) { 1 } else { 0 };
                    }
                    row.push((mask, c * weight));
                }
                layer.push(row);
            }
            trans.push(layer);
        }
        let init_value = if s.chance(1, 3) { s.near0(-50, 50) * if wide { 1 << 36 } else { 1 } } else { 0 };
        let scale = if hi > 1000 { hi / 1000 } else { 1 };
        let est = match s.below(9) {
            0..=3 => Est::None,
            4 => Est::Slack(0),
            5 => Est::Slack(scale),
            6 => Est::Slack(4 * scale),
            7 => Est::Mixed(scale),
            _ => Est::Slack(30 * scale),
        };
        let merge = match s.below(6) {
            0..=2 => Merge::Union,
            3 => Merge::Prefix,
            _ => Merge::Top,
        };
        let bonus = if s.chance(1, 4) { s.pick(&[2, 2, 10]) } else { 0 };
        let rank_keys = s.pick(&[1u64, 2, 3, 1000]);
        let empty_some = s.chance(1, 2);
        let rev = s.chance(1, 4);
        let spare = if s.chance(1, 10) { s.range(1, 3) } else { 0 };
        let mut t = Tab { order, atoms, vals, trans, root, init_value, est, merge, bonus, salt, rank_keys, empty_some, rev, spare };
        if s.chance(2, 3) {
            t.trap(1 + s.below(2), 1 + (hi - lo) / 4 * s.below(4) as isize);
        }
        t
    }
    /// Makes greedy choices lead astray: as long as a narrow beam finds the optimum,
    /// the last move of what it finds gets worse.
    fn trap(&mut self, width: usize, by: isize) {
        for _ in 0..6 {
            let mut beam = vec![(0isize, self.root_state(), None)];
            for d in 0..self.n() {
                let mut next: Vec<(isize, St, Option<(St, usize)>)> = vec![];
                for (v, st, _) in &beam {
                    for (i, x) in self.vals[d].iter().enumerate() {
                        let Some((nx, c)) = self.step(*st, *x) else { continue };
                        match next.iter_mut().find(|n| n.1 == nx) {
                            Some(n) if n.0 >= v + c => {}
                            Some(n) => *n = (v + c, nx, Some((*st, i))),
                            None => next.push((v + c, nx, Some((*st, i)))),
                        }
                    }
                }
                next.sort_by_key(|n| (std::cmp::Reverse(n.0), n.1));
                if d + 1 < self.n() {
                    next.truncate(width);
                }
                beam = next;
            }
            let Some((v, _, Some((st, i)))) = beam.first().copied() else { return };
            if Oracle::new(self).opt() != Some(v + self.init_value) {
                return;
            }
            for a in 0..self.atoms[self.n() - 1] as usize {
                if st.set >> a & 1 == 1 {
                    self.trans[st.depth as usize][a][i].1 -= by;
                }
            }
        }
    }

    pub fn full(&self, depth: usize) -> u16 {
        ((1u32 << self.atoms[depth]) - 1) as u16
    }
    pub fn root_state(&self) -> St {
        St { depth: 0, set: self.root }
    }
    pub fn step(&self, st: St, val: isize) -> Option<(St, isize)> {
        let d = st.depth as usize;
        let vi = self.vals[d].iter().position(|v| *v == val)?;
        let mut set = 0u16;
        let mut cost = NEG;
        for a in 0..self.atoms[d] as usize {
            if st.set >> a & 1 == 1 {
                let (m, c) = self.trans[d][a][vi];
                if m != 0 {
                    set |= m;
                    cost = cost.max(c);
                }
            }
        }
        (set != 0).then_some((St { depth: st.depth + 1, set }, cost))
    }
    pub fn h(&self, st: St, what: u64) -> u64 {
        mix(self.salt ^ mix((st.depth as u64) << 32 | st.set as u64) ^ what.wrapping_mul(0x9E37))
    }
}

/* ------------------------------------------------------------------- oracle */

/// The reference: completion values by memoised recursion over the table.
pub struct Oracle<'a> {
    pub t: &'a Tab,
    memo: HashMap<St, Option<isize>>,
}
impl<'a> Oracle<'a> {
    pub fn new(t: &'a Tab) -> Self {
        Oracle { t, memo: HashMap::new() }
    }
    /// the best completion of the given state, None if it has none
    pub fn best(&mut self, st: St) -> Option<isize> {
        if st.depth as usize == self.t.n() {
            return Some(0);
        }
        if let Some(r) = self.memo.get(&st) {
            return *r;
        }
        let mut r: Option<isize> = None;
        for v in self.t.vals[st.depth as usize].iter() {
            if let Some((nx, c)) = self.t.step(st, *v) {
                if let Some(b) = self.best(nx) {
                    r = Some(r.map_or(b + c, |x| x.max(b + c)));
                }
            }
        }
        self.memo.insert(st, r);
        r
    }
    /// value of the best full assignment of the problem
    pub fn opt(&mut self) -> Option<isize> {
        let r = self.t.root_state();
        self.best(r).map(|v| v + self.t.init_value)
    }
    /// number of reachable states per layer
    pub fn layers(&self) -> Vec<usize> {
        self.layers_from(self.t.root_state())
    }
    pub fn layers_from(&self, st: St) -> Vec<usize> {
        let mut cur = vec![st];
        let mut out = vec![1];
        for d in st.depth as usize..self.t.n() {
            let mut nx: Vec<St> = vec![];
            for s in &cur {
                for v in &self.t.vals[d] {
                    if let Some((x, _)) = self.t.step(*s, *v) {
                        nx.push(x);
                    }
                }
            }
            nx.sort();
            nx.dedup();
            out.push(nx.len());
            cur = nx;
        }
        out
    }
}

/// follows a set of decisions (in any order) from `from`; Err tells what is wrong
pub fn replay(t: &Tab, from: St, decisions: &[Decision]) -> Result<(St, isize), String> {
    let mut by_var: HashMap<usize, isize> = HashMap::new();
    for d in decisions {
        if by_var.insert(d.var.id(), d.value).is_some() {
            return Err(format!("variable {} is assigned twice", d.var.id()));
        }
    }
    let mut st = from;
    let mut total = 0isize;
    for _ in 0..decisions.len() {
        let d = st.depth as usize;
        if d >= t.n() {
            return Err("more decisions than variables".into());
        }
        let var = t.order[d];
        let val = by_var.remove(&var).ok_or_else(|| format!("variable {} (depth {}) is not assigned", var, d))?;
        let (nx, c) = t.step(st, val).ok_or_else(|| format!("value {} of variable {} is not allowed in {:?}", val, var, st))?;
        st = nx;
        total += c;
    }
    Ok((st, total))
}

/* --------------------------------------------------- the problem as ddo sees */

/// Callback budget: a search that does not end burns it and panics, which
/// turns non-termination into a deterministic observation.
pub struct Fuel(AtomicU64);
impl Fuel {
    pub fn new(n: u64) -> Self {
        Fuel(AtomicU64::new(n))
    }
    pub fn burn(&self) {
        let x = self.0.load(Rlx);
        if x == 0 {
            panic!("no termination within the callback budget");
        }
        self.0.store(x - 1, Rlx);
    }
}

pub struct Model<'a> {
    pub t: &'a Tab,
    est: HashMap<St, isize>,
    pub fuel: Fuel,
    pub yields: bool,
    /// transitions taken / estimates asked
    pub transitions: AtomicU64,
    /// states whose domain was enumerated
    pub expanded: AtomicU64,
    /// when recording: the states expanded, in order
    pub log: Option<std::sync::Mutex<Vec<St>>>,
}
impl<'a> Model<'a> {
    pub fn new(t: &'a Tab) -> Self {
        // estimates for every set-state (merged ones too)
        let mut est = HashMap::new();
        if t.est != Est::None {
            let mut o = Oracle::new(t);
            for d in 0..=t.n() {
                for set in 1..=t.full(d) {
                    let st = St { depth: d as u8, set };
                    let ex = o.best(st);
                    let e = match (t.est, ex) {
                        (Est::None, _) => isize::MAX,
                        (Est::Mixed(_), _) if t.h(st, 7) & 1 == 0 => isize::MAX,
                        (Est::Slack(s), Some(x)) | (Est::Mixed(s), Some(x)) => x + (t.h(st, 3) % (s as u64 + 1)) as isize,
                        // nothing can be completed from here: anything is a bound
                        (_, None) => match t.h(st, 5) % 3 {
                            0 => isize::MIN,
                            1 => isize::MAX,
                            _ => (t.h(st, 6) % 16) as isize - 8,
                        },
                    };
                    est.insert(st, e);
                }
            }
        }
        Model { t, est, fuel: Fuel::new(30_000_000), yields: false, transitions: AtomicU64::new(0), expanded: AtomicU64::new(0), log: None }
    }
    pub fn est(&self, st: St) -> isize {
        if self.t.est == Est::None {
            isize::MAX
        } else {
            self.est[&st]
        }
    }
    /// some estimate is isize::MIN
    pub fn says_impossible(&self) -> bool {
        self.est.values().any(|e| *e == isize::MIN)
    }
    fn tick(&self) {
        self.fuel.burn();
        if self.yields {
            parking_lot::sched::yield_now();
        }
    }
}
impl Problem for Model<'_> {
    type State = St;
    fn nb_variables(&self) -> usize {
        self.t.n() + self.t.spare
    }
    fn initial_state(&self) -> St {
        self.t.root_state()
    }
    fn initial_value(&self) -> isize {
        self.t.init_value
    }
    fn next_variable(&self, l: &mut dyn Iterator<Item = &St>) -> Option<Variable> {
        self.tick();
        match l.next() {
            Some(s) if (s.depth as usize) < self.t.n() => Some(Variable(self.t.order[s.depth as usize])),
            Some(_) => None,
            None if self.t.empty_some && self.t.n() > 0 => Some(Variable(self.t.order[0])),
            None => None,
        }
    }
    fn for_each_in_domain<F>(&self, var: Variable, s: &St, mut f: F)
    where
        F: FnMut(Decision),
    {
        self.tick();
        self.expanded.fetch_add(1, Rlx);
        if let Some(l) = &self.log {
            l.lock().unwrap().push(*s);
        }
        let d = s.depth as usize;
        assert!(d < self.t.n(), "the domain of a variable is asked in a terminal state");
        assert_eq!(var.id(), self.t.order[d], "the domain of the wrong variable is asked");
        let k = self.t.vals[d].len();
        for i in 0..k {
            let value = self.t.vals[d][if self.t.rev { k - 1 - i } else { i }];
            if self.t.step(*s, value).is_some() {
                f(Decision { var, value })
            }
        }
    }
    fn transition(&self, s: &St, d: Decision) -> St {
        self.tick();
        self.transitions.fetch_add(1, Rlx);
        assert_eq!(d.var.id(), self.t.order[s.depth as usize], "transition on the wrong variable");
        self.t.step(*s, d.value).expect("transition on a decision outside of the domain").0
    }
    fn transition_cost(&self, s: &St, d: Decision) -> isize {
        self.t.step(*s, d.value).expect("transition_cost on a decision outside of the domain").1
    }
    fn estimate(&self, s: &St) -> isize {
        if self.t.est == Est::None {
            return Bare(std::marker::PhantomData).estimate(s);
        }
        self.est(*s)
    }
}

/// A model that gives no estimate: the one of the library is used.
pub struct Bare<S>(pub std::marker::PhantomData<S>);
impl<S> Problem for Bare<S> {
    type State = S;
    fn nb_variables(&self) -> usize {
        0
    }
    fn initial_state(&self) -> S {
        unreachable!()
    }
    fn initial_value(&self) -> isize {
        0
    }
    fn next_variable(&self, _: &mut dyn Iterator<Item = &S>) -> Option<Variable> {
        None
    }
    fn for_each_in_domain<F: FnMut(Decision)>(&self, _: Variable, _: &S, _: F) {}
    fn transition(&self, _: &S, _: Decision) -> S {
        unreachable!()
    }
    fn transition_cost(&self, _: &S, _: Decision) -> isize {
        0
    }
}

/// One call of the relaxation: the states that were merged and the result, then
/// each edge that was redirected.
#[derive(Clone, Debug, Default)]
pub struct MergeLog {
    pub states: Vec<St>,
    pub merged: Option<St>,
    /// (source, dest, decision, cost given)
    pub edges: Vec<(St, St, St, Decision, isize)>,
}
pub struct Relax<'a> {
    pub t: &'a Tab,
    pub log: Option<std::sync::Mutex<Vec<MergeLog>>>,
}
impl<'a> Relax<'a> {
    pub fn new(t: &'a Tab) -> Self {
        Relax { t, log: None }
    }
}
impl Tab {
    pub fn merged(&self, depth: usize, union: u16) -> u16 {
        match self.merge {
            Merge::Union => union,
            Merge::Top => self.full(depth),
            Merge::Prefix => ((1u32 << (16 - union.leading_zeros())) - 1) as u16,
        }
    }
    pub fn extra(&self, src: St, d: Decision) -> isize {
        if self.bonus == 0 {
            0
        } else {
            (self.h(src, 11 ^ d.value as u64) % (self.bonus as u64 + 1)) as isize
        }
    }
}
impl Relaxation for Relax<'_> {
    type State = St;
    fn merge(&self, states: &mut dyn Iterator<Item = &St>) -> St {
        let mut set = 0;
        let mut depth = None;
        let mut all = vec![];
        for s in states {
            if self.log.is_some() {
                all.push(*s);
            }
            set |= s.set;
            assert!(depth.is_none() || depth == Some(s.depth), "states of different layers are merged");
            depth = Some(s.depth);
        }
        let depth = depth.expect("merge of no state at all");
        let merged = St { depth, set: self.t.merged(depth as usize, set) };
        if let Some(l) = &self.log {
            l.lock().unwrap().push(MergeLog { states: all, merged: Some(merged), edges: vec![] });
        }
        merged
    }
    fn relax(&self, source: &St, dest: &St, new: &St, d: Decision, cost: isize) -> isize {
        assert!(source.depth + 1 == dest.depth && dest.depth == new.depth, "relax is called across layers");
        assert!(dest.set & !new.set == 0, "relax is called with a merged state that does not cover the original");
        if let Some(l) = &self.log {
            let mut l = l.lock().unwrap();
            l.last_mut().expect("relax is called before any merge").edges.push((*source, *dest, *new, d, cost));
        }
        cost + self.t.extra(*source, d)
    }
}
pub struct Rank<'a> {
    pub t: &'a Tab,
    pub fuel: Cell<u64>,
}
unsafe impl Sync for Rank<'_> {}
impl<'a> Rank<'a> {
    pub fn new(t: &'a Tab) -> Self {
        Rank { t, fuel: Cell::new(200_000_000) }
    }
}
impl StateRanking for Rank<'_> {
    type State = St;
    fn compare(&self, a: &St, b: &St) -> Ordering {
        let f = self.fuel.get();
        if f == 0 {
            panic!("no termination within the comparison budget");
        }
        self.fuel.set(f - 1);
        let key = |s: &St| self.t.h(*s, 23) % self.t.rank_keys;
        key(a).cmp(&key(b))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Width {
    pub w: usize,
    /// if > 0 the width of a state is 1 + hash % (w + vary)
    pub vary: usize,
}
impl Width {
    /// mostly below the width of the exact diagram, so that it matters
    pub fn gen(s: &mut Src, t: &Tab) -> Width {
        let full = Oracle::new(t).layers().into_iter().max().unwrap_or(1);
        if s.chance(1, 60) {
            return Width { w: usize::MAX, vary: 0 };
        }
        let max = match s.below(10) {
            0 => full + 1,
            1 => full / 2 + 1,
            _ => (full / 2).clamp(1, 5),
        };
        Width { w: s.range(1, max), vary: if s.chance(1, 5) { 2 } else { 0 } }
    }
    pub fn of(&self, t: &Tab, st: &St) -> usize {
        if self.vary == 0 {
            self.w
        } else {
            1 + (t.h(*st, 31) as usize) % (self.w + self.vary)
        }
    }
}
/// What is seen of a search from its callbacks, in order.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    /// the interruption callback is called, and its answer
    Poll(std::thread::ThreadId, bool),
    /// a subproblem is started
    Start(std::thread::ThreadId, St),
}
pub type Events = std::sync::Arc<std::sync::Mutex<Vec<Ev>>>;
pub struct WidthHeu<'a> {
    pub t: &'a Tab,
    pub w: Width,
    pub calls: AtomicU64,
    pub ev: Events,
    /// the k-th call takes this long
    pub nap: (u64, std::time::Duration),
}
impl<'a> WidthHeu<'a> {
    pub fn new(t: &'a Tab, w: Width) -> Self {
        WidthHeu { t, w, calls: AtomicU64::new(0), ev: Default::default(), nap: (0, std::time::Duration::ZERO) }
    }
}
impl WidthHeuristic<St> for WidthHeu<'_> {
    fn max_width(&self, s: &St) -> usize {
        if self.calls.fetch_add(1, Rlx) + 1 == self.nap.0 {
            std::thread::sleep(self.nap.1);
        }
        self.ev.lock().unwrap().push(Ev::Start(std::thread::current().id(), *s));
        self.w.of(self.t, s)
    }
}
