use crate::fam::*;
use engineering::*;
use kit::Src;
use serde::{Deserialize, Serialize};
use std::io::BufReader;

use ex_psp::psp::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Inst {
    pub periods: usize,
    pub change: Vec<Vec<i64>>,
    pub stock: Vec<i64>,
    /// demand[item][period] is 0 or 1
    pub demand: Vec<Vec<u8>>,
    /// the value that the file states as its optimum
    pub optimum: Option<u32>,
}
pub struct Q;
impl Inst {
    /// deadlines of an item, last first
    fn deadlines(&self, item: usize) -> Vec<usize> {
        (0..self.periods).rev().filter(|t| self.demand[item][*t] > 0).collect()
    }
}
fn gen_n(s: &mut Src, periods: usize, items: usize, dens: usize) -> Inst {
    let cm = s.pick(&[1isize, 10, 10, 100]);
    let sm = s.pick(&[0isize, 1, 10, 10]);
    let mut change = vec![vec![0i64; items]; items];
    for i in 0..items {
        for j in 0..items {
            if i != j {
                change[i][j] = s.int(0, cm) as i64;
            }
        }
    }
    for k in 0..items {
        for i in 0..items {
            for j in 0..items {
                change[i][j] = change[i][j].min(change[i][k] + change[k][j]);
            }
        }
    }
    let stock = (0..items).map(|_| s.int(0, sm) as i64).collect();
    let mut demand = vec![vec![0u8; periods]; items];
    let overload = s.chance(1, 12); // possibly infeasible
    // from when on there are demands: the later, the more ways to meet them
    let first = if s.chance(1, 2) { s.below(periods) } else { 0 };
    let mut open: isize = 0;
    for t in 0..periods {
        open += 1;
        for d in demand.iter_mut() {
            if t >= first && (open > 0 || overload) && s.chance(dens, 8) {
                d[t] = 1;
                open -= 1;
            }
        }
    }
    Inst { periods, change, stock, demand, optimum: None }
}
impl Fam for Q {
    type Inst = Inst;
    type P = Psp;
    const NAME: &'static str = "PSP";
    const WHAT: &'static str = "changeover costs satisfy the triangle inequality and are zero from an item to itself (as in all of resources/psp); a plan produces at most one unit per period, each demand is met by a unit produced no later, and its cost is stocking plus changeovers between consecutive productions";
    fn gen(s: &mut Src, big: bool) -> Inst {
        let periods = if s.chance(1, 20) { s.range(1, 2) } else { s.range(3, if big { 8 } else { 7 }) };
        let items = if s.chance(1, 8) { 1 } else { s.range(2, if periods <= 5 { 4 } else { 3 }) };
        let dens = s.range(1, 6);
        gen_n(s, periods, items, dens)
    }
    fn gen_hard(s: &mut Src, big: bool) -> Inst {
        let (periods, items) = (s.range(8, if big { 14 } else { 11 }), s.range(3, if big { 6 } else { 5 }));
        let dens = s.range(3, 7);
        gen_n(s, periods, items, dens)
    }
    fn key(_: &Inst, prefix: &[isize]) -> Vec<i64> {
        let mut k: Vec<i64> = prefix.iter().map(|x| *x as i64).collect();
        k.sort();
        k.push(prefix.iter().rev().find(|x| **x >= 0).map_or(-1, |x| *x as i64));
        k
    }
    fn text(i: &Inst) -> String {
        let join = |v: Vec<String>| v.join(" ") + "\n";
        let orders: usize = i.demand.iter().map(|d| d.iter().filter(|x| **x > 0).count()).sum();
        let mut t = format!("{}\n{}\n{}\n\n", i.periods, i.stock.len(), orders);
        for r in &i.change {
            t += &join(r.iter().map(|x| x.to_string()).collect());
        }
        t += "\n";
        t += &join(i.stock.iter().map(|x| x.to_string()).collect());
        t += "\n";
        for r in &i.demand {
            t += &join(r.iter().map(|x| x.to_string()).collect());
        }
        t
    }
    fn parse(text: &str) -> Result<Psp, String> {
        Psp::try_from(BufReader::new(text.as_bytes())).map_err(|e| format!("refused: {}", e))
    }
    fn vars(i: &Inst) -> usize {
        i.periods
    }
    fn position(i: &Inst, var: usize) -> usize {
        i.periods - 1 - var.min(i.periods - 1)
    }
    fn values(i: &Inst) -> Vec<isize> {
        (-1..i.stock.len() as isize).collect()
    }
    /// the plan is decided from the last period to the first
    fn step(i: &Inst, prefix: &[isize], v: isize) -> Option<isize> {
        let t = i.periods - 1 - prefix.len();
        let mut c = 0;
        if v >= 0 {
            let it = v as usize;
            let done = prefix.iter().filter(|x| **x == v).count();
            let dl = *i.deadlines(it).get(done)?;
            if dl < t {
                return None;
            }
            c += i.stock[it] * (dl - t) as i64;
            if let Some(next) = prefix.iter().rev().find(|x| **x >= 0) {
                c += i.change[it][*next as usize];
            }
        }
        // what is left must fit in the periods before t
        let left: usize = (0..i.stock.len())
            .map(|it| i.deadlines(it).len() - prefix.iter().chain([&v]).filter(|x| **x == it as isize).count())
            .sum();
        if left > t {
            return None;
        }
        Some(-(c as isize))
    }
    fn gen_large(s: &mut Src) -> Inst {
        let periods = if s.chance(1, 4) { s.range(60, 100) } else { s.range(2, 20) };
        let items = s.range(1, 6);
        let change = (0..items).map(|i| (0..items).map(|j| if i == j { 0 } else { s.int(0, 300) as i64 }).collect()).collect();
        let stock = (0..items).map(|_| s.int(0, 100) as i64).collect();
        let mut demand = vec![vec![0u8; periods]; items];
        let dens = s.range(1, 7);
        let mut open: isize = 0;
        for t in 0..periods {
            open += 1;
            for d in demand.iter_mut() {
                if open > 0 && s.chance(dens, 8) {
                    d[t] = 1;
                    open -= 1;
                }
            }
        }
        let optimum = if s.chance(1, 2) { Some(s.range(0, 100_000) as u32) } else { None };
        Inst { periods, change, stock, demand, optimum }
    }
    fn layout(i: &Inst, s: &mut Src) -> String {
        let eol = s.pick(&["\n", "\n", "\r\n"]);
        let mut t = String::new();
        let orders: usize = i.demand.iter().map(|d| d.iter().filter(|x| **x > 0).count()).sum();
        for x in [i.periods, i.stock.len(), orders] {
            t += &x.to_string();
            t += eol;
        }
        t += eol;
        let line = |s: &mut Src, t: &mut String, words: Vec<i64>| {
            *t += s.pick(&["", "", " ", "\t"]);
            for (k, w) in words.iter().enumerate() {
                if k > 0 {
                    *t += s.pick(&[" ", " ", "\t", "   "]);
                }
                *t += &w.to_string();
            }
            *t += s.pick(&["", "", " ", "   \t"]);
            *t += eol;
        };
        let blank = |s: &mut Src, t: &mut String| {
            *t += s.pick(&["", "", " ", "\t "]);
            *t += eol;
        };
        for r in &i.change {
            line(s, &mut t, r.clone());
        }
        blank(s, &mut t);
        line(s, &mut t, i.stock.clone());
        blank(s, &mut t);
        for r in &i.demand {
            line(s, &mut t, r.iter().map(|x| *x as i64).collect());
        }
        match i.optimum {
            Some(o) => {
                blank(s, &mut t);
                blank(s, &mut t);
                line(s, &mut t, vec![o as i64]);
            }
            None if s.chance(1, 2) => blank(s, &mut t),
            None => {}
        }
        t
    }
    fn header(i: &Inst, p: &Psp) -> Result<(), String> {
        let want = i.optimum.map(|o| o as usize);
        if p.optimum != want {
            return Err(format!("reader: the optimum {:?} is read as {:?}", want, p.optimum));
        }
        Ok(())
    }
    fn rank(a: &<Psp as Problem>::State, b: &<Psp as Problem>::State) -> std::cmp::Ordering {
        PspRanking.compare(a, b)
    }
    fn width(p: &Psp, factor: usize, s: &<Psp as Problem>::State) -> usize {
        PspWidth::new(p.nb_variables(), factor).max_width(s)
    }
    type Ctx = ();
    fn ctx(_: &Psp) {}
    fn solve(p: &Patched<Q>, c: &Cfg) -> Result<Out, String> {
        let w = PspWidth::new(p.nb_variables(), c.width.clone().err().unwrap_or(1));
        solve(p, &PspRelax, &PspRanking, &w, c)
    }
    fn merge(_: &Psp, states: &[&<Psp as Problem>::State]) -> <Psp as Problem>::State {
        PspRelax.merge(&mut states.iter().copied())
    }
    fn relax(_: &Psp, a: &<Psp as Problem>::State, b: &<Psp as Problem>::State, n: &<Psp as Problem>::State, d: Decision, cost: isize) -> isize {
        PspRelax.relax(a, b, n, d, cost)
    }
}
