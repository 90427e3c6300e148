//! Properties of the data structures: the two frontiers (model-based histories),
//! the bitset helpers and the matrix.
use bitset_fixed::BitSet;
use engineering::*;
use kit::{guarded, mix, Obs, Prop, Src, Tier};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

/* ---------------------------------------------------------------- frontiers */

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    /// state, value, upper bound
    Push(u32, isize, isize),
    Pop,
    Clear,
    /// pop everything
    Drain,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Hist {
    pub ops: Vec<Op>,
    /// number of distinct ranking keys
    pub keys: u64,
    pub salt: u64,
    /// 0: a good hash function of the states; 1, 2: one with collisions
    #[serde(default)]
    pub coarse: u8,
}
pub struct FrontierProp {
    pub id: &'static str,
    pub nodup: bool,
    pub quick: u64,
    pub thorough: u64,
}
/// A state: `note` differs between equal ones, and the hash may have collisions.
#[derive(Clone, Copy, Debug)]
struct Named {
    id: u32,
    note: usize,
    coarse: u8,
}
impl PartialEq for Named {
    fn eq(&self, o: &Named) -> bool {
        self.id == o.id
    }
}
impl Eq for Named {}
impl Hash for Named {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self.coarse {
            0 => self.id.hash(h),
            1 => (self.id % 3).hash(h),
            _ => 0u32.hash(h),
        }
    }
}
struct ByKey {
    keys: u64,
    salt: u64,
    fuel: Cell<u64>,
}
impl ByKey {
    fn key(&self, s: u32) -> u64 {
        mix(self.salt ^ s as u64) % self.keys
    }
}
impl StateRanking for ByKey {
    type State = Named;
    fn compare(&self, a: &Named, b: &Named) -> Ordering {
        let f = self.fuel.get();
        assert!(f > 0, "no termination within the comparison budget");
        self.fuel.set(f - 1);
        self.key(a.id).cmp(&self.key(b.id))
    }
}
fn tag(i: usize) -> Vec<Decision> {
    // the path identifies the push it came from
    vec![Decision { var: Variable(i), value: -(i as isize) }, Decision { var: Variable(i + 1), value: 0 }]
}
fn tag_of(p: &[Decision]) -> Option<usize> {
    let i = p.first()?.var.id();
    (p == tag(i).as_slice()).then_some(i)
}
#[derive(Clone, Debug)]
struct Entry {
    value: isize,
    ub: isize,
    /// the pushes whose value and path may be delivered
    from: Vec<usize>,
}

impl FrontierProp {
    /// the pop delivered `n`, whose bound and rank must be greatest among `all`
    fn best(n: &SubProblem<Named>, rk: &ByKey, all: &mut dyn Iterator<Item = (u32, isize)>) -> Result<(), String> {
        for (s, ub) in all {
            if ub > n.ub {
                return Err(format!("order: popped ub={} while state {} with ub={} is there", n.ub, s, ub));
            }
            if ub == n.ub && rk.key(s) > rk.key(n.state.id) {
                return Err(format!("order: popped state {} while state {} with the same ub={} ranks better", n.state.id, s, ub));
            }
        }
        Ok(())
    }
    fn simple(h: &Hist, rk: &ByKey, o: &mut Obs) -> Result<(), String> {
        let mut f = SimpleFrontier::new(rk);
        let mut model: BTreeMap<usize, (u32, isize, isize)> = BTreeMap::new();
        let mut pops = 0;
        let mut deep = 0;
        for (i, op) in h.ops.iter().chain([Op::Drain].iter()).enumerate() {
            match op {
                Op::Push(s, v, ub) => {
                    f.push(SubProblem { state: Arc::new(Named { id: *s, note: i, coarse: h.coarse }), value: *v, path: tag(i), ub: *ub });
                    model.insert(i, (*s, *v, *ub));
                }
                Op::Clear => {
                    f.clear();
                    model.clear();
                }
                Op::Pop | Op::Drain => loop {
                    deep = deep.max(model.len());
                    match f.pop() {
                        None => {
                            if !model.is_empty() {
                                return Err(format!("lost: pop returned nothing but {} elements are in there", model.len()));
                            }
                            break;
                        }
                        Some(n) => {
                            pops += 1;
                            let k = tag_of(&n.path).ok_or("altered: unknown path")?;
                            Self::best(&n, rk, &mut model.values().map(|(s, _, u)| (*s, *u)))?;
                            match model.remove(&k) {
                                None => return Err(format!("invented: the node of push #{} is popped twice or after a clear", k)),
                                Some((s, v, u)) => {
                                    if s != n.state.id || k != n.state.note || v != n.value || u != n.ub {
                                        return Err(format!("altered: pushed {:?}, popped {:?}", (s, v, u), (n.state.id, n.value, n.ub)));
                                    }
                                }
                            }
                        }
                    }
                    if *op == Op::Pop {
                        break;
                    }
                },
            }
            if f.len() != model.len() || f.is_empty() != model.is_empty() {
                return Err(format!("length: {} reported, {} expected", f.len(), model.len()));
            }
        }
        o.nontrivial = pops >= 3 && deep >= 4;
        o.class_if(deep >= 16, "16+ nodes at once");
        o.class_if(deep >= 300, "300+ nodes at once");
        o.count("pops", pops);
        Ok(())
    }
    fn nodup(h: &Hist, rk: &ByKey, o: &mut Obs) -> Result<(), String> {
        let mut f = NoDupFrontier::new(rk);
        let mut model: BTreeMap<u32, Entry> = BTreeMap::new();
        let (mut pops, mut deep, mut dups, mut raised, mut replaced) = (0, 0, 0u64, 0u64, 0u64);
        for (i, op) in h.ops.iter().chain([Op::Drain].iter()).enumerate() {
            match op {
                Op::Push(s, v, ub) => {
                    f.push(SubProblem { state: Arc::new(Named { id: *s, note: i, coarse: h.coarse }), value: *v, path: tag(i), ub: *ub });
                    match model.get_mut(s) {
                        None => {
                            model.insert(*s, Entry { value: *v, ub: *ub, from: vec![i] });
                        }
                        Some(e) => {
                            dups += 1;
                            raised += (*ub > e.ub) as u64;
                            replaced += (*v > e.value) as u64;
                            if *v > e.value {
                                e.value = *v;
                                e.from = vec![i];
                            } else if *v == e.value {
                                e.from.push(i);
                            }
                            e.ub = e.ub.max(*ub);
                        }
                    }
                }
                Op::Clear => {
                    f.clear();
                    model.clear();
                }
                Op::Pop | Op::Drain => loop {
                    deep = deep.max(model.len());
                    match f.pop() {
                        None => {
                            if !model.is_empty() {
                                return Err(format!("lost: pop returned nothing but {} states are in there", model.len()));
                            }
                            break;
                        }
                        Some(n) => {
                            pops += 1;
                            let k = tag_of(&n.path).ok_or("altered: unknown path")?;
                            Self::best(&n, rk, &mut model.iter().map(|(s, e)| (*s, e.ub)))?;
                            match model.remove(&n.state.id) {
                                None => return Err(format!("invented: state {} is popped twice or after a clear", n.state.id)),
                                Some(e) => {
                                    if e.value != n.value || e.ub != n.ub {
                                        return Err(format!("altered: state {} expected {:?}, popped value={} ub={}", n.state.id, e, n.value, n.ub));
                                    }
                                    if !e.from.contains(&k) {
                                        return Err(format!("path: state {} comes with the path of push #{}, expected one of {:?}", n.state.id, k, e.from));
                                    }
                                }
                            }
                        }
                    }
                    if *op == Op::Pop {
                        break;
                    }
                },
            }
            if Frontier::len(&f) != model.len() || f.is_empty() != model.is_empty() || Frontier::is_empty(&f) != model.is_empty() {
                return Err(format!("length: {} reported, {} expected", Frontier::len(&f), model.len()));
            }
        }
        o.nontrivial = pops >= 3 && deep >= 4 && dups >= 2;
        o.class_if(deep >= 16, "16+ states at once");
        o.class_if(deep >= 300, "300+ states at once");
        o.class_if(h.coarse > 0, "hash function with collisions");
        o.class_if(raised > 0, "a bound was raised in place");
        o.class_if(replaced > 0, "a better path replaced a worse one");
        o.count("duplicate pushes", dups);
        o.count("pops", pops);
        Ok(())
    }
}
impl Prop for FrontierProp {
    type Case = Hist;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        format!(
            "case = a history of up to 120 (thorough 600; one in 500: 3000) pushes, pops, clears and drains over 1-40 (4000) states, with few or many distinct bounds (the extreme integers included) and ranking keys, hash functions with and without collisions, run against a reference map; after the history everything is popped. Non-trivial: at least 3 pops and 4 nodes at once{}.",
            if self.nodup { ", and at least 2 pushes of a state that was already there" } else { "" }
        )
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        if tier == Tier::Quick {
            (self.quick, 500)
        } else {
            (self.thorough, 2500)
        }
    }
    fn gen(&self, s: &mut Src, tier: Tier) -> Hist {
        // now and then a long history, which comes from a seed
        let long = s.chance(1, 500);
        let n = if long { s.range(4, 3000) } else { s.range(4, if tier == Tier::Quick { 120 } else { 600 }) };
        let states = s.pick(&[1usize, 3, 6, 12, 40]) * if long { 100 } else { 1 };
        let ubs = s.pick(&[1isize, 4, 20, 1000]);
        let keys = s.pick(&[1u64, 2, 5, 1000]);
        let popw = s.pick(&[1usize, 3, 6]);
        let salt = s.raw() as u64;
        let clears = s.chance(1, 4);
        let mut x = salt;
        let v: Vec<u32> = (0..if long { 5 * n } else { 0 })
            .map(|_| {
                x = mix(x.wrapping_add(1));
                (x >> 32) as u32
            })
            .collect();
        let gen_ops = |s: &mut Src| -> Vec<Op> {
            (0..n)
            .map(|_| {
                let k = s.below(10);
                if k >= popw {
                    let st = s.below(states) as u32;
                    let ub = match s.below(24) {
                        0 => isize::MAX,
                        1 => isize::MIN,
                        _ => s.near0(-ubs, ubs),
                    };
                    let v = match s.below(24) {
                        0 => isize::MIN,
                        1 => isize::MAX,
                        _ => s.near0(-6, 6),
                    };
                    Op::Push(st, v, ub)
                } else if clears && s.chance(1, if long { 1000 } else { 12 }) {
                    Op::Clear
                } else if s.chance(1, if long { 1000 } else { 30 }) {
                    Op::Drain
                } else {
                    Op::Pop
                }
            })
            .collect()
        };
        let ops = if long { gen_ops(&mut Src::new(&v)) } else { gen_ops(s) };
        Hist { ops, keys, salt, coarse: s.pick(&[0, 0, 1, 2]) }
    }
    fn run(&self, h: &Hist, o: &mut Obs) -> Result<(), String> {
        let rk = ByKey { keys: h.keys.max(1), salt: h.salt, fuel: Cell::new(5_000_000) };
        let r = guarded(|| if self.nodup { Self::nodup(h, &rk, o) } else { Self::simple(h, &rk, o) });
        match r {
            Ok(r) => r,
            Err(m) => Err(format!("panic: {}", m)),
        }
    }
}

/* ------------------------------------------------------- bitsets and matrix */

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Sets {
    /// (capacity, elements)
    pub sets: Vec<(usize, Vec<usize>)>,
    /// complement the i-th set first
    pub not: u8,
    pub rows: usize,
    pub cols: usize,
    /// writes (row, column, value)
    pub writes: Vec<(usize, usize, i32)>,
}
pub struct UtilsProp {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
}
impl UtilsProp {
    fn decide(c: &Sets, o: &mut Obs) -> Result<(), String> {
        let mut bs = vec![];
        let mut model: Vec<Vec<bool>> = vec![];
        for (i, (cap, els)) in c.sets.iter().enumerate() {
            let mut b = BitSet::new(*cap);
            let mut m = vec![false; *cap];
            for e in els {
                if e < cap {
                    b.set(*e, true);
                    m[*e] = true;
                }
            }
            if c.not >> i & 1 == 1 {
                b = !b;
                m.iter_mut().for_each(|x| *x = !*x);
            }
            bs.push(b);
            model.push(m);
        }
        // iteration: exactly the members, in increasing order, and it ends
        for (b, m) in bs.iter().zip(&model) {
            let mut it = BitSetIter::new(b);
            let got: Vec<usize> = it.by_ref().take(m.len() + 2).collect();
            let want: Vec<usize> = (0..m.len()).filter(|i| m[*i]).collect();
            if got != want {
                return Err(format!("iteration: {:?} expected {:?}", got, want));
            }
            if it.next().is_some() || it.next().is_some() {
                return Err("iteration: goes on after its end".into());
            }
            o.count("members", want.len() as u64);
        }
        // the order on bitsets is the lexicographic order of the bits
        let lex = |a: &Vec<bool>, b: &Vec<bool>| {
            for i in 0..a.len().max(b.len()) {
                let x = a.get(i).copied().unwrap_or(false);
                let y = b.get(i).copied().unwrap_or(false);
                if x != y {
                    return x.cmp(&y);
                }
            }
            Ordering::Equal
        };
        let mut differ_late = false;
        for i in 0..bs.len() {
            for j in 0..bs.len() {
                let want = lex(&model[i], &model[j]);
                let (a, b) = (LexBitSet(&bs[i]), LexBitSet(&bs[j]));
                if a.cmp(&b) != want {
                    return Err(format!("lexical order: {:?} expected {:?} for sets {} and {}", a.cmp(&b), want, i, j));
                }
                if a.partial_cmp(&b) != Some(want) || (a == b) != (want == Ordering::Equal) {
                    return Err(format!("lexical order: cmp, partial_cmp and == disagree on sets {} and {}", i, j));
                }
                let first = (0..model[i].len().min(model[j].len())).find(|k| model[i][*k] != model[j][*k]);
                differ_late |= first.map_or(false, |k| k >= 64);
            }
        }
        o.class_if(differ_late, "two sets differ first after the first word");
        o.class_if(c.sets.iter().any(|(n, _)| n % 64 == 0), "capacity is a multiple of the word size");
        o.class_if(c.sets.iter().any(|(n, _)| *n > 64), "more than one word");
        // matrix: n rows, m columns, every cell on its own
        let mut a: Matrix<i32> = Matrix::new(c.cols, c.rows);
        let mut b = Matrix::new_default(c.cols, c.rows, 7i32);
        let mut m: BTreeMap<(usize, usize), i32> = BTreeMap::new();
        for (i, j, v) in &c.writes {
            a[(*i, *j)] = *v;
            b[(*i, *j)] = *v;
            m.insert((*i, *j), *v);
        }
        for i in 0..c.rows {
            for j in 0..c.cols {
                let (x, y) = (a[(i, j)], b[(i, j)]);
                let w = m.get(&(i, j));
                if x != w.copied().unwrap_or(0) || y != w.copied().unwrap_or(7) {
                    return Err(format!("matrix {}x{}: cell {:?} holds {} / {}, expected {:?}", c.rows, c.cols, (i, j), x, y, w));
                }
            }
        }
        o.class_if(c.rows != c.cols, "rectangular matrix");
        o.nontrivial = model.iter().filter(|m| m.iter().any(|x| *x)).count() >= 2 || c.writes.len() >= 4;
        Ok(())
    }
}
impl Prop for UtilsProp {
    type Case = Sets;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        "case = 2-5 bitsets of capacity 0-200, sometimes 2500 (around the word boundaries, sparse, dense, complemented, nearly equal) and a sequence of writes in a matrix of up to 7x7, sometimes 70x70; oracle = vectors of booleans and a map. Non-trivial: at least two non-empty sets, or 4 matrix writes.".into()
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        (if tier == Tier::Quick { self.quick } else { self.thorough }, 300)
    }
    fn gen(&self, s: &mut Src, _: Tier) -> Sets {
        let cap = |s: &mut Src| match s.below(4) {
            0 => s.below(20),
            1 => s.pick(&[0usize, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193]),
            2 if s.chance(1, 20) => s.below(2500),
            _ => s.below(201),
        };
        let n0 = cap(s);
        let mut sets: Vec<(usize, Vec<usize>)> = vec![];
        let k = s.range(2, 5);
        for i in 0..k {
            let n = if s.chance(2, 3) { n0 } else { cap(s) };
            let els: Vec<usize> = if i > 0 && s.chance(1, 2) {
                // a copy of another one but for a few bits
                let mut e = s.pick(&sets).1;
                if n > 0 {
                    for _ in 0..s.below(3) {
                        let x = s.below(n);
                        match e.iter().position(|y| *y == x) {
                            Some(p) => {
                                e.remove(p);
                            }
                            None => e.push(x),
                        }
                    }
                }
                e.into_iter().filter(|x| *x < n).collect()
            } else {
                let c = s.pick(&[0usize, 1, 2, 5, 12]);
                (0..if n == 0 { 0 } else { c }).map(|_| s.below(n)).collect()
            };
            sets.push((n, els));
        }
        let not = if s.chance(1, 3) { s.below(32) as u8 } else { 0 };
        let (rows, cols) = if s.chance(1, 60) { (s.range(1, 70), s.range(1, 70)) } else { (s.range(1, 7), s.range(1, 7)) };
        let w = s.below(12);
        let writes = (0..w).map(|_| (s.below(rows), s.below(cols), s.int(-9, 99) as i32)).collect();
        Sets { sets, not, rows, cols, writes }
    }
    fn run(&self, c: &Sets, o: &mut Obs) -> Result<(), String> {
        match guarded(|| Self::decide(c, o)) {
            Ok(r) => r,
            Err(m) => Err(format!("panic: {}", m)),
        }
    }
}
