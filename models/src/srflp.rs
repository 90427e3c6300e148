use crate::fam::*;
use engineering::*;
use kit::Src;
use serde::{Deserialize, Serialize};
use std::io::BufReader;

use ex_srflp::{heuristics::*, instance::*, model::*, relax::*, state::*};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Inst {
    pub len: Vec<i64>,
    /// flow[i][j], i < j
    pub flow: Vec<Vec<i64>>,
    /// the file holds the upper triangle only
    pub half: bool,
    pub sep: u8,
}
impl Inst {
    fn f(&self, a: usize, b: usize) -> i64 {
        self.flow[a.min(b)][a.max(b)]
    }
    /// numbers so small that single precision tells their ratios apart
    pub fn small(mut self) -> Inst {
        self.len.iter_mut().for_each(|x| *x %= 50);
        self.flow.iter_mut().flatten().for_each(|x| *x %= 50);
        self
    }
}
pub struct S;
/// The estimate, with the ratios of cut and length compared exactly or in single precision.
fn estimate_of(x: &Patched<S>, s: &State, exact: bool) -> isize {
    let inst = &x.raw.instance;
    let n = x.nb_variables();
    let left = n - s.depth;
    let must: Vec<usize> = BitSetIter::new(&s.must_place).collect();
    let maybe: Vec<usize> = s.maybe_place.iter().flat_map(|m| BitSetIter::new(m).collect::<Vec<_>>()).collect();
    let more = left - must.len();
    let sorted = |mut v: Vec<isize>| {
        v.sort_unstable();
        v
    };
    // the departments still to place: the optional ones are the shortest of them
    let opt_len: Vec<isize> = sorted(maybe.iter().map(|i| inst.lengths[*i]).collect()).into_iter().take(more).collect();
    let lengths = sorted(must.iter().map(|i| inst.lengths[*i]).chain(opt_len.iter().copied()).collect());
    // their flows, the smallest ones where there is a choice
    let pairs = |a: &[usize], b: &[usize]| -> Vec<isize> {
        let mut v = vec![];
        for i in a {
            for j in b {
                if a.as_ptr() != b.as_ptr() || i < j {
                    v.push(inst.flows[(*i.min(j), *i.max(j))]);
                }
            }
        }
        sorted(v)
    };
    let mut flows = pairs(&must, &must);
    flows.extend(pairs(&must, &maybe).into_iter().take(must.len() * more));
    flows.extend(pairs(&maybe, &maybe).into_iter().take(more * more.saturating_sub(1) / 2));
    let flows = sorted(flows);
    let opt_cut: Vec<isize> = sorted(maybe.iter().map(|i| s.cut[*i]).collect()).into_iter().take(more).collect();
    let mut items: Vec<(isize, isize)> = must.iter().map(|i| (inst.lengths[*i], s.cut[*i])).collect();
    items.extend(opt_len.iter().copied().zip(opt_cut.into_iter().rev()));
    if exact {
        items.retain(|(_, c)| *c != 0);
        items.sort_by(|(la, ca), (lb, cb)| (cb * la).cmp(&(ca * lb)));
    } else {
        items.sort_by_key(|(l, c)| std::cmp::Reverse((ordered_float::OrderedFloat(*c as f32 / *l as f32), *l, *c)));
    }
    let (mut total, mut at) = (0, 0);
    for (l, c) in items {
        total += at * c;
        at += l;
    }
    let (mut it, mut at) = (flows.iter().rev(), 0);
    for i in 0..left.saturating_sub(1) {
        for _ in i + 1..left {
            total += at * it.next().copied().unwrap_or(0);
        }
        at += lengths[i];
    }
    -total
}
fn gen_n(s: &mut Src, n: usize) -> Inst {
    let lm = s.pick(&[1isize, 4, 15, 15, 3000]);
    let fm = s.pick(&[1isize, 5, 5, 30, 30_000]);
    let zero = s.chance(1, 3);
    let mut flow = vec![vec![0; n]; n];
    if n >= 2 && s.chance(1, 10) {
        // ratios of cut and length that almost tie, with large numbers
        let len: Vec<i64> = (0..n).map(|_| s.int(1, 100_000) as i64).collect();
        let hub = s.below(n);
        let r = s.int(1, 100_000) as i64;
        for i in 0..n {
            if i != hub {
                flow[i.min(hub)][i.max(hub)] = len[i] * r + s.int(0, 2) as i64;
            }
        }
        return Inst { len, flow, half: false, sep: 0 };
    }
    let lo = if s.chance(1, 10) { 0 } else { 1 };
    let len = (0..n).map(|_| s.int(lo, lm) as i64).collect();
    for i in 0..n {
        for j in i + 1..n {
            flow[i][j] = if zero && s.chance(1, 2) { 0 } else { s.int(0, fm) as i64 };
        }
    }
    Inst { len, flow, half: s.chance(1, 5), sep: s.below(3) as u8 }
}
impl Fam for S {
    type Inst = Inst;
    type P = Srflp;
    const NAME: &'static str = "SRFLP";
    const WHAT: &'static str = "lengths and flows are not negative; the value of an arrangement is minus the sum over pairs of their flow times the lengths strictly between them (the constant part of the distance is left out)";
    fn gen(s: &mut Src, big: bool) -> Inst {
        let n = if s.chance(1, 20) { s.range(1, 2) } else { s.range(3, if big { 7 } else { 6 }) };
        gen_n(s, n)
    }
    fn gen_hard(s: &mut Src, big: bool) -> Inst {
        let n = s.range(7, if big { 9 } else { 8 });
        gen_n(s, n)
    }
    fn key(_: &Inst, prefix: &[isize]) -> Vec<i64> {
        let mut k: Vec<i64> = prefix.iter().map(|x| *x as i64).collect();
        k.sort();
        k
    }
    fn text(i: &Inst) -> String {
        let sep = [" ", ",", "\t"][i.sep as usize % 3];
        let n = i.len.len();
        let join = |v: Vec<i64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep) + "\n";
        let mut t = format!("{}\n", n);
        t += &join(i.len.clone());
        for a in 0..n {
            t += &join((0..n).map(|b| if a == b || (i.half && b < a) { 0 } else { i.f(a, b) }).collect());
        }
        t
    }
    fn parse(text: &str) -> Result<Srflp, String> {
        let i = SrflpInstance::try_from(BufReader::new(text.as_bytes())).map_err(|_| "refused".to_string())?;
        Ok(Srflp::new(i))
    }
    fn vars(i: &Inst) -> usize {
        i.len.len()
    }
    fn position(_: &Inst, var: usize) -> usize {
        var
    }
    fn values(i: &Inst) -> Vec<isize> {
        (0..i.len.len() as isize).collect()
    }
    fn step(i: &Inst, prefix: &[isize], v: isize) -> Option<isize> {
        if prefix.contains(&v) {
            return None;
        }
        // the department separates those on its left from those still to come
        let mut f = 0;
        for a in prefix {
            for b in 0..i.len.len() as isize {
                if b != v && !prefix.contains(&b) {
                    f += i.f(*a as usize, b as usize);
                }
            }
        }
        Some(-(f * i.len[v as usize]) as isize)
    }
    fn gen_large(s: &mut Src) -> Inst {
        let n = if s.chance(1, 4) { s.range(62, 67) } else { s.range(2, 14) };
        let len = (0..n).map(|_| s.int(1, 60) as i64).collect();
        let fm = s.pick(&[9isize, 300]);
        let mut flow = vec![vec![0; n]; n];
        for i in 0..n {
            for j in i + 1..n {
                flow[i][j] = s.int(0, fm) as i64;
            }
        }
        Inst { len, flow, half: false, sep: 0 }
    }
    fn layout(i: &Inst, s: &mut Src) -> String {
        let n = i.len.len();
        let eol = s.pick(&["\n", "\n", "\r\n"]);
        let mut t = String::new();
        let mut line = |s: &mut Src, words: Vec<i64>| {
            while s.chance(1, 8) {
                t += s.pick(&["", "  ", "\t"]);
                t += eol;
            }
            t += s.pick(&["", "", " ", "\t"]);
            for (k, w) in words.iter().enumerate() {
                if k > 0 {
                    t += s.pick(&[" ", ",", "\t", ", ", "  ", " ,\t"]);
                }
                t += &w.to_string();
            }
            t += s.pick(&["", "", " ", ",", " \t"]);
            t += eol;
        };
        line(s, vec![n as i64]);
        line(s, i.len.clone());
        // the full matrix, one half of it, or flows that differ by direction
        let mode = s.below(4);
        let mut m = vec![vec![0i64; n]; n];
        for a in 0..n {
            for b in a + 1..n {
                let f = i.flow[a][b];
                let (u, l) = match mode {
                    0 => (f, f),
                    1 => (f, 0),
                    2 => (0, f),
                    _ => {
                        let u = s.int(0, f as isize) as i64;
                        // equal flows in both directions are one symmetric flow
                        if 2 * u == f { (f, f) } else { (u, f - u) }
                    }
                };
                m[a][b] = u;
                m[b][a] = l;
            }
        }
        for r in m {
            line(s, r);
        }
        t
    }
    fn rank(a: &<Srflp as Problem>::State, b: &<Srflp as Problem>::State) -> std::cmp::Ordering {
        SrflpRanking.compare(a, b)
    }
    fn width(p: &Srflp, factor: usize, s: &<Srflp as Problem>::State) -> usize {
        SrflpWidth::new(p.nb_variables(), factor).max_width(s)
    }
    fn solve(p: &Patched<S>, c: &Cfg) -> Result<Out, String> {
        let r = SrflpRelax::new(p.raw);
        let w = SrflpWidth::new(p.nb_variables(), c.width.clone().err().unwrap_or(1));
        solve(p, &r, &SrflpRanking, &w, c)
    }
    const FINDINGS: &'static [&'static str] = &["srflp-ratios"];
    type Ctx = ();
    fn ctx(_: &Srflp) {}
    fn estimate(x: &Patched<S>, s: &State) -> isize {
        let e = x.raw.estimate(s);
        if x.has(0) && e == estimate_of(x, s, false) {
            estimate_of(x, s, true)
        } else {
            e
        }
    }
    fn merge(p: &Srflp, states: &[&<Srflp as Problem>::State]) -> <Srflp as Problem>::State {
        SrflpRelax::new(p).merge(&mut states.iter().copied())
    }
    fn relax(p: &Srflp, a: &<Srflp as Problem>::State, b: &<Srflp as Problem>::State, n: &<Srflp as Problem>::State, d: Decision, cost: isize) -> isize {
        SrflpRelax::new(p).relax(a, b, n, d, cost)
    }
}
/// the value of a whole arrangement, from the distances between departments
pub fn arrangement(i: &Inst, order: &[usize]) -> i64 {
    let mut t = 0;
    for a in 0..order.len() {
        let mut between = 0;
        for b in a + 1..order.len() {
            t += i.f(order[a], order[b]) * between;
            between += i.len[order[b]];
        }
    }
    -t
}
