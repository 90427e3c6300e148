use crate::fam::*;
use engineering::*;
use kit::Src;
use serde::{Deserialize, Serialize};
use std::io::BufReader;

use ex_tsptw::{heuristics::*, instance::*, model::*, relax::*, state::*};

/// distances and windows, in units of the last decimal that is printed
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Inst {
    pub dist: Vec<Vec<i64>>,
    pub tw: Vec<(i64, i64)>,
    pub decimals: u8,
}
impl Inst {
    /// travel times closed under shortest paths
    pub fn closed(mut self) -> Inst {
        let (n, d) = (self.dist.len(), &mut self.dist);
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        d[i][j] = d[i][j].min(d[i][k] + d[k][j]);
                    }
                }
            }
        }
        self
    }
}
pub struct T;
fn num(x: i64, decimals: u8) -> String {
    let unit = 10i64.pow(decimals as u32);
    match decimals {
        0 => format!("{}", x),
        _ => format!("{}.{:0w$}", x / unit, x % unit, w = decimals as usize),
    }
}
pub struct Ctx {
    short: Vec<Vec<usize>>,
    triangle: bool,
    cheapest: Vec<usize>,
}
fn from(s: &State) -> Vec<usize> {
    match &s.position {
        Position::Node(x) => vec![*x as usize],
        Position::Virtual(xs) => BitSetIter::new(xs).collect(),
    }
}
/// The estimate of a merged state: as it should be, or with the return to the
/// depot counted as one more city to visit. None: the count of cities underflows.
fn estimate_of(x: &Patched<T>, s: &State, maybe: &bitset_fixed::BitSet, right: bool) -> Option<isize> {
    let i = &x.raw.instance;
    let never = isize::MIN;
    let must: Vec<usize> = BitSetIter::new(&s.must_visit).collect();
    let maybe: Vec<usize> = BitSetIter::new(maybe).collect();
    let at = s.elapsed.earliest();
    let late = |j: &usize| at + x.ctx.cheapest[*j] > i.timewindows[*j].latest;
    let n = x.nb_variables();
    let left = if right { (n - 1).saturating_sub(s.depth as usize) } else { n - s.depth as usize };
    if must.len() > left {
        // the first late city ends the loop before the count underflows
        if right || must.iter().take(left).any(late) {
            return Some(never);
        }
        return None;
    }
    if must.iter().any(late) {
        return Some(never);
    }
    let more = left - must.len();
    if maybe.iter().filter(|j| !late(j)).count() < more {
        return Some(never);
    }
    let mut total: usize = must.iter().map(|j| x.ctx.cheapest[*j]).sum();
    let mut opt: Vec<usize> = maybe.iter().map(|j| x.ctx.cheapest[*j]).collect();
    opt.sort_unstable();
    total += opt.iter().take(more).sum::<usize>();
    let home = |j: &usize| i.distances[(*j, 0)];
    let mut back = must.iter().chain(&maybe).map(home).min().unwrap_or(usize::MAX);
    if total == 0 {
        back = back.min(from(s).iter().map(home).min().unwrap());
    }
    total += back;
    Some(if at + total > i.timewindows[0].latest { never } else { -(total as isize) })
}
fn gen_n(s: &mut Src, n: usize) -> Inst {
    let max = s.pick(&[5i64, 20, 2, 1, 20, 200]);
    let sym = s.chance(1, 2);
    let mut d = vec![vec![0i64; n]; n];
    for i in 0..n {
        for j in 0..n {
            if i != j {
                d[i][j] = if sym && j < i { d[j][i] } else { s.int(0, max as isize) as i64 };
            }
        }
    }
    // travel times that satisfy the triangle inequality, or not (as in part of resources/tsptw)
    if s.chance(1, 2) {
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        d[i][j] = d[i][j].min(d[i][k] + d[k][j]);
                    }
                }
            }
        }
    }
    // windows around a tour, some of them wide, some of them anywhere
    let style = s.below(4);
    let tour = {
        let mut t: Vec<usize> = s.shuffled(n.saturating_sub(1)).into_iter().map(|x| x + 1).collect();
        t.push(0);
        t
    };
    let mut tw = vec![(0i64, 0i64); n];
    let (mut at, mut t) = (0usize, 0i64);
    for x in tour {
        t += d[at][x];
        at = x;
        if s.chance(1, 4) {
            t += s.int(0, max as isize) as i64; // some waiting
        }
        let w = s.int(0, 2 * max as isize) as i64;
        let v = s.int(0, 2 * max as isize) as i64;
        tw[x] = match style {
            0 => (0, 100 * max),
            1 => ((t - w).max(0), t + v),
            2 if s.chance(1, 2) => (0, t + v),
            2 => ((t - w).max(0), 100 * max),
            _ => {
                let a = s.int(0, 6 * max as isize) as i64;
                (a, a + v + w)
            }
        };
    }
    if style != 3 || s.chance(1, 2) {
        tw[0].0 = 0;
    }
    Inst { dist: d, tw, decimals: 0 }
}
impl Fam for T {
    type Inst = Inst;
    type P = Tsptw;
    const NAME: &'static str = "TSPTW";
    const WHAT: &'static str = "travel times satisfy the triangle inequality (generated matrices are closed under shortest paths); the value of a tour is minus the time at which it is back at the depot, waiting included";
    fn gen(s: &mut Src, big: bool) -> Inst {
        let n = if s.chance(1, 20) { s.range(1, 2) } else { s.range(3, if big { 7 } else { 6 }) };
        gen_n(s, n)
    }
    fn gen_hard(s: &mut Src, big: bool) -> Inst {
        let n = s.range(7, if big { 10 } else { 9 });
        gen_n(s, n)
    }
    fn key(i: &Inst, prefix: &[isize]) -> Vec<i64> {
        let (mut at, mut t) = (0usize, 0i64);
        for x in prefix {
            let x = *x as usize;
            t = (t + i.dist[at][x]).max(i.tw[x].0);
            at = x;
        }
        let mut k: Vec<i64> = prefix.iter().map(|x| *x as i64).collect();
        k.sort();
        k.extend([at as i64, t]);
        k
    }
    fn text(i: &Inst) -> String {
        let n = i.dist.len();
        let mut t = format!("{}\n", n);
        for r in &i.dist {
            t += &r.iter().map(|x| num(*x, i.decimals)).collect::<Vec<_>>().join(" ");
            t += "\n";
        }
        for (a, b) in &i.tw {
            t += &format!("{}\t{}   \n", num(*a, i.decimals), num(*b, i.decimals));
        }
        t + "# comment\n"
    }
    fn parse(text: &str) -> Result<Tsptw, String> {
        let i = TsptwInstance::try_from(BufReader::new(text.as_bytes())).map_err(|_| "refused".to_string())?;
        Ok(Tsptw::new(i))
    }
    fn vars(i: &Inst) -> usize {
        i.dist.len()
    }
    fn position(_: &Inst, var: usize) -> usize {
        var
    }
    fn values(i: &Inst) -> Vec<isize> {
        (0..i.dist.len() as isize).collect()
    }
    fn step(i: &Inst, prefix: &[isize], v: isize) -> Option<isize> {
        let n = i.dist.len();
        let unit: i64 = 10i64.pow(4 - i.decimals as u32);
        // the depot comes last, and only then
        if (v == 0) != (prefix.len() == n - 1) || prefix.contains(&v) {
            return None;
        }
        let (mut at, mut t) = (0usize, 0i64);
        for x in prefix {
            let x = *x as usize;
            t = (t + i.dist[at][x]).max(i.tw[x].0);
            at = x;
        }
        let x = v as usize;
        let arrive = t + i.dist[at][x];
        if arrive > i.tw[x].1 {
            return None;
        }
        Some(-((arrive.max(i.tw[x].0) - t) * unit) as isize)
    }
    fn gen_large(s: &mut Src) -> Inst {
        let n = if s.chance(1, 4) { s.range(62, 67) } else { s.range(2, 14) };
        let decimals = s.range(0, 4) as u8;
        let max = s.pick(&[20, 1000, 10_000_000]);
        // distances between max and 2 max satisfy the triangle inequality
        let dist = (0..n).map(|i| (0..n).map(|j| if i == j { 0 } else { s.int(max, 2 * max) as i64 }).collect()).collect();
        let far = 3 * max as i64 * (n as i64 + 1);
        let tw = (0..n)
            .map(|_| {
                let a = if s.chance(1, 2) { 0 } else { s.int(0, max * n as isize) as i64 };
                (a, a + far + s.int(0, max) as i64)
            })
            .collect();
        Inst { dist, tw, decimals }
    }
    fn layout(i: &Inst, s: &mut Src) -> String {
        let n = i.dist.len();
        let eol = s.pick(&["\n", "\n", "\r\n"]);
        let mut t = String::new();
        let mut line = |s: &mut Src, words: Vec<String>| {
            while s.chance(1, 8) {
                t += s.pick(&["", "# comment", "  # 12 3", "   ", "#", "\t"]);
                t += eol;
            }
            t += s.pick(&["", "", " ", "\t"]);
            for (k, w) in words.iter().enumerate() {
                if k > 0 {
                    t += s.pick(&[" ", " ", "\t", "   "]);
                }
                t += w;
            }
            t += s.pick(&["", "", " ", "   \t"]);
            t += eol;
        };
        line(s, vec![n.to_string()]);
        for r in &i.dist {
            let w = r.iter().map(|x| num(*x, i.decimals)).collect();
            line(s, w);
        }
        for (a, b) in &i.tw {
            line(s, vec![num(*a, i.decimals), num(*b, i.decimals)]);
        }
        if s.chance(1, 4) {
            t += "# the end";
        }
        t
    }
    fn rank(a: &<Tsptw as Problem>::State, b: &<Tsptw as Problem>::State) -> std::cmp::Ordering {
        TsptwRanking.compare(a, b)
    }
    fn width(p: &Tsptw, factor: usize, s: &<Tsptw as Problem>::State) -> usize {
        TsptwWidth::new(p.nb_variables(), factor).max_width(s)
    }
    fn solve(p: &Patched<T>, c: &Cfg) -> Result<Out, String> {
        let r = TsptwRelax::new(p.raw);
        let w = TsptwWidth::new(p.nb_variables(), c.width.clone().err().unwrap_or(1));
        solve(p, &r, &TsptwRanking, &w, c)
    }
    fn reread(i: &Inst, p: &Tsptw) -> Option<(&'static str, Tsptw)> {
        let (n, raw) = (i.dist.len(), &p.instance);
        let unit = 10usize.pow(4 - i.decimals as u32);
        let exact = |x: i64| x as usize * unit;
        let single = |x: i64| (num(x, i.decimals).parse::<f32>().unwrap() * 10000.0) as usize;
        if raw.nb_nodes as usize != n || raw.timewindows.len() != n {
            return None;
        }
        let mut fixed = raw.clone();
        for a in 0..n {
            for b in 0..n {
                if raw.distances[(a, b)] != single(i.dist[a][b]) {
                    return None;
                }
                fixed.distances[(a, b)] = exact(i.dist[a][b]);
            }
            let (e, l) = i.tw[a];
            if raw.timewindows[a].earliest != single(e) || raw.timewindows[a].latest != single(l) {
                return None;
            }
            fixed.timewindows[a] = TimeWindow::new(exact(e), exact(l));
        }
        Some(("tsptw-reader", Tsptw::new(fixed)))
    }
    const FINDINGS: &'static [&'static str] = &["tsptw-estimate", "tsptw-waiting", "tsptw-triangle"];
    type Ctx = Ctx;
    fn ctx(p: &Tsptw) -> Ctx {
        let n = p.nb_variables();
        let d = &p.instance.distances;
        let mut short: Vec<Vec<usize>> = (0..n).map(|i| (0..n).map(|j| d[(i, j)]).collect()).collect();
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    short[i][j] = short[i][j].min(short[i][k] + short[k][j]);
                }
            }
        }
        let triangle = (0..n).all(|i| (0..n).all(|j| short[i][j] == d[(i, j)]));
        let cheapest = (0..n).map(|i| (0..n).filter(|j| *j != i).map(|j| d[(j, i)]).min().unwrap_or(usize::MAX)).collect();
        Ctx { short, triangle, cheapest }
    }
    fn estimate(x: &Patched<T>, s: &State) -> isize {
        match &s.maybe_visit {
            Some(maybe) if x.has(0) => {
                let bad = estimate_of(x, s, maybe, false);
                match (kit::guarded(|| x.raw.estimate(s)), bad) {
                    (Ok(e), Some(b)) if e == b => estimate_of(x, s, maybe, true).unwrap(),
                    (Ok(e), _) => e,
                    (Err(_), None) => estimate_of(x, s, maybe, true).unwrap(),
                    (Err(m), _) => panic!("{}", m),
                }
            }
            _ => x.raw.estimate(s),
        }
    }
    fn cost(x: &Patched<T>, s: &State, d: Decision) -> isize {
        let e = x.raw.transition_cost(s, d);
        match s.elapsed {
            ElapsedTime::FuzzyAmount { earliest, latest } if x.has(1) => {
                let j = d.value as usize;
                let travel = from(s).into_iter().map(|i| x.raw.instance.distances[(i, j)]).min().unwrap();
                let open = x.raw.instance.timewindows[j].earliest;
                let cost = |t: usize| -((travel + open.saturating_sub(t + travel)) as isize);
                if e == cost(earliest) {
                    cost(latest)
                } else {
                    e
                }
            }
            _ => e,
        }
    }
    fn transition(x: &Patched<T>, s: &State, d: Decision) -> State {
        let mut t = x.raw.transition(s, d);
        let open = x.raw.instance.timewindows[d.value as usize].earliest;
        if let (true, ElapsedTime::FuzzyAmount { earliest, latest }) = (x.has(1), t.elapsed) {
            if latest < open {
                t.elapsed = if earliest == open { ElapsedTime::FixedAmount { duration: open } } else { ElapsedTime::FuzzyAmount { earliest, latest: open } };
            }
        }
        t
    }
    fn domain(x: &Patched<T>, var: Variable, s: &State) -> Vec<Decision> {
        let mut ds = vec![];
        x.raw.for_each_in_domain(var, s, |d| ds.push(d));
        if x.has(2) && !x.ctx.triangle && ds.is_empty() && s.depth as usize + 1 < x.nb_variables() {
            let limit = |j: usize| x.raw.instance.timewindows[j].latest;
            let at = s.elapsed.earliest();
            let must: Vec<usize> = BitSetIter::new(&s.must_visit).collect();
            let reach = |j: usize| from(s).into_iter().map(|i| x.raw.instance.distances[(i, j)]).min().unwrap() + at <= limit(j);
            let late = must.iter().any(|j| from(s).into_iter().all(|i| x.ctx.short[i][*j] + at > limit(*j)));
            if !late && must.iter().any(|j| !reach(*j)) {
                let maybe: Vec<usize> = s.maybe_visit.iter().flat_map(|m| BitSetIter::new(m).collect::<Vec<_>>()).collect();
                ds.extend(must.into_iter().chain(maybe).filter(|j| reach(*j)).map(|j| Decision { var, value: j as isize }));
            }
        }
        ds
    }
    fn merge(p: &Tsptw, states: &[&<Tsptw as Problem>::State]) -> <Tsptw as Problem>::State {
        TsptwRelax::new(p).merge(&mut states.iter().copied())
    }
    fn relax(p: &Tsptw, a: &<Tsptw as Problem>::State, b: &<Tsptw as Problem>::State, n: &<Tsptw as Problem>::State, d: Decision, cost: isize) -> isize {
        TsptwRelax::new(p).relax(a, b, n, d, cost)
    }
}
