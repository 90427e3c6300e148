//! Reading instance files; widths and rankings of the example models.
use crate::fam::*;
use crate::{psp, srflp, tsptw};
use engineering::*;
use kit::{guarded, Obs, Prop, Src, Tier};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::fmt::Debug;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct One<I> {
    pub inst: I,
    pub text: String,
    pub walk: Vec<u32>,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Case {
    Tsptw(One<tsptw::Inst>),
    Srflp(One<srflp::Inst>),
    Psp(One<psp::Inst>),
}
fn one<F: Fam>(s: &mut Src) -> One<F::Inst> {
    let walk = (0..8).map(|_| s.raw()).collect();
    let inst = F::gen_large(s);
    let text = F::layout(&inst, s);
    One { inst, text, walk }
}

pub struct Reader;
fn read<F: Fam>(c: &One<F::Inst>) -> Result<(), String> {
    let p = F::parse(&c.text).map_err(|m| format!("reader: {}", m))?;
    F::header(&c.inst, &p)?;
    follow::<F>(c, &p).map_err(|m| match F::reread(&c.inst, &p) {
        Some((name, p)) if follow::<F>(c, &p).is_ok() => format!("finding {}: {}", name, m),
        _ => m,
    })
}
fn follow<F: Fam>(c: &One<F::Inst>, p: &F::P) -> Result<(), String> {
    let i = &c.inst;
    let n = F::vars(i);
    if p.nb_variables() != n || p.initial_value() != 0 {
        return Err(format!("model: {} variables, {} expected", p.nb_variables(), n));
    }
    let mut h = c.walk.iter().fold(1u64, |h, w| kit::mix(h ^ *w as u64));
    let mut prefix: Vec<isize> = vec![];
    let mut state = p.initial_state();
    while prefix.len() < n {
        let var = p.next_variable(&mut std::iter::once(&state)).ok_or("model: no variable although the assignment is partial")?;
        if F::position(i, var.id()) != prefix.len() {
            return Err(format!("model: variable {} after {:?}", var.id(), prefix));
        }
        let mut ds = vec![];
        p.for_each_in_domain(var, &state, |d| ds.push(d));
        let mut allowed = vec![];
        let values = F::values(i);
        // every value when there are few of them, some of them otherwise
        let every = values.len() <= 16;
        for v in values {
            h = kit::mix(h);
            if !every && h % 9 != 0 && v != 0 {
                continue;
            }
            let step = F::step(i, &prefix, v);
            let d = ds.iter().filter(|d| d.value == v).count();
            match step {
                None if d > 0 => return Err(format!("reader: {} is offered after {:?}", v, prefix)),
                Some(_) if d != 1 => return Err(format!("reader: {} is offered {} times after {:?}", v, d, prefix)),
                None => {}
                Some(c) => {
                    let d = *ds.iter().find(|d| d.value == v).unwrap();
                    if d.var != var {
                        return Err(format!("model: a decision on {} for the variable {}", d.var.id(), var.id()));
                    }
                    let got = p.transition_cost(&state, d);
                    if got != c {
                        return Err(format!("reader: {} after {:?} costs {}, the file says {}", v, prefix, got, c));
                    }
                    allowed.push(d);
                }
            }
        }
        let d = match allowed.len() {
            0 if ds.is_empty() => return Err(format!("reader: nothing is offered after {:?}", prefix)),
            0 => ds[(h >> 20) as usize % ds.len()],
            k => allowed[(h >> 20) as usize % k],
        };
        state = p.transition(&state, d);
        prefix.push(d.value);
    }
    match p.next_variable(&mut std::iter::once(&state)) {
        None => Ok(()),
        Some(v) => Err(format!("model: variable {} after a complete assignment", v.id())),
    }
}
impl Prop for Reader {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> String {
        "case = an instance of one of the three problems (up to 67 cities or departments, 100 periods), its file in one of the layouts that the format allows, and a walk; the domains and costs which the model shows along the walk are compared to those of the instance. Non-trivial: at least 3 variables.".into()
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        (if tier == Tier::Quick { 80_000 } else { 2_000_000 }, 1500)
    }
    fn gen(&self, s: &mut Src, _: Tier) -> Case {
        match s.below(3) {
            0 => Case::Tsptw(one::<tsptw::T>(s)),
            1 => Case::Srflp(one::<srflp::S>(s)),
            _ => Case::Psp(one::<psp::Q>(s)),
        }
    }
    fn run(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        guarded(|| match c {
            Case::Tsptw(c) => {
                o.class("tsptw");
                o.class_if(c.inst.decimals > 0, "tsptw: decimals");
                o.class_if(c.text.contains('#'), "tsptw: comments");
                o.class_if(c.inst.dist.len() >= 62, "more than one word of cities, or nearly");
                o.nontrivial = c.inst.dist.len() >= 3;
                read::<tsptw::T>(c)
            }
            Case::Srflp(c) => {
                o.class("srflp");
                o.class_if(c.inst.len.len() >= 62, "more than one word of departments, or nearly");
                o.nontrivial = c.inst.len.len() >= 3;
                read::<srflp::S>(c)
            }
            Case::Psp(c) => {
                o.class("psp");
                o.class_if(c.inst.optimum.is_some(), "psp: the optimum is stated");
                o.nontrivial = c.inst.periods >= 3;
                read::<psp::Q>(c)
            }
        })
        .map_err(|m| format!("panic: {}", m))?
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["files follow the layouts of resources/: numbers with at most four decimals for TSPTW, comment lines starting with #, blank lines only where the format has them for PSP".into()]
    }
}

/* ------------------------------------------------------- widths and rankings */

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum HCase {
    Tsptw(tsptw::Inst, Vec<u32>, usize),
    Srflp(srflp::Inst, Vec<u32>, usize),
    Psp(psp::Inst, Vec<u32>, usize),
}
pub struct Heuristics;
fn heur<F: Fam>(i: &F::Inst, walk: &[u32], factor: usize, o: &mut Obs) -> Result<(), String>
where
    <F::P as Problem>::State: Clone + Debug,
{
    let p = F::parse(&F::text(i)).map_err(|m| format!("reader: {}", m))?;
    let n = F::vars(i);
    // states of several layers and merges of states of one layer
    let mut states = vec![];
    let mut layer = vec![p.initial_state()];
    let mut h = walk.iter().fold(1u64, |h, w| kit::mix(h ^ *w as u64));
    for _ in 0..=n {
        states.extend(layer.iter().cloned());
        let mut next = vec![];
        for s in &layer {
            if let Some(var) = p.next_variable(&mut std::iter::once(s)) {
                p.for_each_in_domain(var, s, |d| next.push(p.transition(s, d)));
            }
        }
        if next.is_empty() {
            break;
        }
        while next.len() > 3 {
            h = kit::mix(h);
            let k = h as usize % next.len();
            next.swap_remove(k);
        }
        if next.len() >= 2 && h % 3 == 0 {
            let m = F::merge(&p, &[&next[0], &next[1]]);
            next.push(m);
            o.class("with a merged state");
        }
        layer = next;
    }
    for s in &states {
        let w = F::width(&p, 1, s);
        if w == 0 {
            return Err(format!("width: 0 for {:?}", s));
        }
        let f = F::width(&p, factor, s);
        if f != factor * w {
            return Err(format!("width: {} with factor {}, {} without, for {:?}", f, factor, w, s));
        }
        let fix = Fixed(factor).max_width(s);
        if fix != factor {
            return Err(format!("width: Fixed({}) allows {}", factor, fix));
        }
    }
    states.truncate(14);
    for a in &states {
        if F::rank(a, a) != Ordering::Equal {
            return Err(format!("ranking: {:?} is not equal to itself", a));
        }
        for b in &states {
            let ab = F::rank(a, b);
            if ab != F::rank(b, a).reverse() {
                return Err(format!("ranking: {:?} and {:?} compare as {:?} and {:?}", a, b, ab, F::rank(b, a)));
            }
            for c in &states {
                if ab != Ordering::Greater && F::rank(b, c) != Ordering::Greater {
                    let ac = F::rank(a, c);
                    let strict = ab == Ordering::Less || F::rank(b, c) == Ordering::Less;
                    if ac == Ordering::Greater || (strict && ac != Ordering::Less) {
                        return Err(format!("ranking: not transitive on {:?}, {:?}, {:?}", a, b, c));
                    }
                }
            }
        }
    }
    o.nontrivial = states.len() >= 3;
    Ok(())
}
impl Prop for Heuristics {
    type Case = HCase;
    fn id(&self) -> &'static str {
        "C33"
    }
    fn rule(&self) -> String {
        "case = an instance of one of the three problems, a width factor and up to 14 of its states, some of them merged. Non-trivial: at least 3 states.".into()
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        (if tier == Tier::Quick { 600_000 } else { 10_000_000 }, 250)
    }
    fn gen(&self, s: &mut Src, _: Tier) -> HCase {
        let k = s.below(3);
        let max = s.pick(&[5, 5, 5, 1000]);
        let f = s.range(1, max);
        let w = (0..4).map(|_| s.raw()).collect();
        match k {
            0 => HCase::Tsptw(tsptw::T::gen(s, true), w, f),
            1 => HCase::Srflp(srflp::S::gen(s, true), w, f),
            _ => HCase::Psp(psp::Q::gen(s, true), w, f),
        }
    }
    fn run(&self, c: &HCase, o: &mut Obs) -> Result<(), String> {
        guarded(|| match c {
            HCase::Tsptw(i, w, f) => heur::<tsptw::T>(i, w, *f, o),
            HCase::Srflp(i, w, f) => heur::<srflp::S>(i, w, *f, o),
            HCase::Psp(i, w, f) => heur::<psp::Q>(i, w, *f, o),
        })
        .map_err(|m| format!("panic: {}", m))?
    }
}
