//! `solve_timeout`: the line it prints and the bound it returns.
use crate::prob::*;
use crate::solve::*;
use engineering::xputils::{solve_timeout, SolverType};
use kit::{guarded, Obs, Prop, Src, Tier};
use parking_lot::sched;
use serde::{Deserialize, Serialize};
use std::io::{Read, Seek, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;

extern "C" {
    fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}
/// runs f and yields what was written to standard output meanwhile
fn captured<T>(f: impl FnOnce() -> T) -> (T, String) {
    unsafe {
        let _ = std::io::stdout().flush();
        let m = memfd_create(c"out".as_ptr(), 0);
        assert!(m >= 0, "memfd");
        let saved = dup(1);
        assert!(saved >= 0 && dup2(m, 1) == 1, "dup");
        let r = f();
        let _ = std::io::stdout().flush();
        dup2(saved, 1);
        close(saved);
        let mut file = std::fs::File::from_raw_fd(m);
        file.rewind().expect("rewind");
        let mut s = String::new();
        file.read_to_string(&mut s).expect("text on standard output");
        (r, s)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Limit {
    None,
    Zero,
    /// runs out while the k-th subproblem is explored
    During(u64),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    t: Tab,
    barrier: bool,
    cut: Cut,
    width: Width,
    /// None: the default
    threads: Option<usize>,
    limit: Limit,
    name: usize,
    pol: Pol,
    seed: u64,
}
const NAMES: [&str; 5] = ["x", "n40_3", "an instance", "a-name-of-more-than-thirty-characters.in", "é|"];
const SHORT: Duration = Duration::from_millis(3);

pub struct Report {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
}
impl Prop for Report {
    type Case = Case;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        "case = a layered decision process and the arguments of solve_timeout (solver, cutset type, width, number of threads or none, no time, ample time, or time that runs out during a chosen subproblem), run in process under a generated schedule with standard output captured; oracle = memoised recursion and counts of the callbacks. Non-trivial: at least 2 subproblems explored, or stopped by the time limit after one.".into()
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        (if tier == Tier::Quick { self.quick } else { self.thorough }, 700)
    }
    fn gen(&self, s: &mut Src, tier: Tier) -> Case {
        let barrier = s.chance(1, 2);
        let cut = Cut::gen(s);
        let threads = match s.below(8) {
            0 => None,
            // asking for none gets one
            1..=4 => Some(s.chance(29, 30) as usize),
            _ => Some(s.range(2, 4)),
        };
        let limit = match s.below(8) {
            0 => Limit::Zero,
            1..=3 => Limit::During(if s.chance(1, 2) { 1 } else { s.range(1, 8) as u64 }),
            _ => Limit::None,
        };
        let name = s.below(NAMES.len());
        let pol = gen_pol(s);
        let seed = s.raw() as u64;
        let t = Tab::draw(s, tier == Tier::Thorough, 1000000, false);
        let width = Width::gen(s, &t);
        Case { t, barrier, cut, width, threads, limit, name, pol, seed }
    }
    fn run(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let t = &c.t;
        let opt = Oracle::new(t).opt();
        let m = Model::new(t);
        let (relax, rank) = (Relax::new(t), Rank::new(t));
        let mut wh = WidthHeu::new(t, c.width);
        let (to, slow) = match c.limit {
            Limit::None => (Duration::from_secs(100_000), 0),
            Limit::Zero => (Duration::ZERO, 0),
            Limit::During(k) => (SHORT, k),
        };
        wh.nap = (slow, SHORT + Duration::from_millis(1));
        let expected = c.threads.unwrap_or_else(num_cpus::get).max(1);
        sched::begin(sched::Config { expected, seed: c.seed, policy: policy(&c.pol), max_steps: 600_000 });
        let st = if c.barrier { SolverType::Barrier } else { SolverType::Parallel };
        let (res, text) = captured(|| guarded(|| solve_timeout(NAMES[c.name], to, &wh, &m, &relax, &rank, c.threads, st, c.cut.get())));
        let rep = sched::end();
        let ub_returned = match res {
            Ok(u) => u,
            Err(m) => return Err(format!("panic: {}{}", m, rep.aborted.map(|w| format!(" ({})", w)).unwrap_or_default())),
        };
        let bad = |what: &str| Err(format!("{} in {:?}, the optimum is {:?}", what, text, opt));
        if !text.ends_with('\n') || text.lines().count() != 1 {
            return bad("line: not exactly one line");
        }
        let line = &text[..text.len() - 1];
        let rest = match line.trim_start().strip_prefix(NAMES[c.name].trim_start()) {
            Some(r) => r,
            None => return bad("name: the wrong one"),
        };
        let col: Vec<&str> = rest.split(" | ").map(|c| c.trim()).collect();
        if col.len() != 11 {
            return bad("line: not eleven columns");
        }
        if col[1] != if c.barrier { "barrier" } else { "parallel" } {
            return bad("solver: the wrong one");
        }
        let int = |k: usize| col[k].parse::<isize>().map_err(|_| format!("column: {} is not an integer in {:?}", col[k], text));
        let float = |k: usize| col[k].parse::<f64>().map_err(|_| format!("column: {} is not a number in {:?}", col[k], text));
        if float(3)? < 0.0 || float(4)? < 0.0 {
            return bad("column: negative duration or memory");
        }
        let found = if col[5] == "not found" { None } else { Some(int(5)?) };
        let (lb, ub, gap) = (int(6)?, int(7)?, float(8)?);
        if ub != ub_returned {
            return Err(format!("returned: {} is returned, {} is the bound printed in {:?}", ub_returned, ub, text));
        }
        let low = opt.unwrap_or(isize::MIN);
        if found.unwrap_or(isize::MIN) != lb {
            return bad("bounds: the lower bound is not the best value");
        }
        if lb > low || ub < low {
            return bad("bounds: they do not enclose the optimum");
        }
        let interrupted = match col[2] {
            "Proved" => {
                if found != opt || lb != ub {
                    return bad("proved: not the optimum");
                }
                false
            }
            "Timeout" => {
                if c.limit == Limit::None {
                    return bad("timeout: it did not use the time it had");
                }
                true
            }
            _ => return bad("status: unknown"),
        };
        if lb == ub {
            if gap != 0.0 {
                return bad("gap: not zero for equal bounds");
            }
        } else {
            let (a, b) = ((lb as f64).abs(), (ub as f64).abs());
            let same_side = (lb < 0) == (ub < 0) || lb == 0 || ub == 0;
            let ok = if same_side {
                (gap - (a - b).abs() / a.max(b)).abs() <= 2e-4
            } else {
                (gap > 0.0 && gap <= 2.0) || ub as f64 - lb as f64 <= 1e-4 * a.max(b)
            };
            if !ok {
                return bad("gap: wrong");
            }
        }
        let (nodes, dd) = (int(9)?, int(10)?);
        let (started, expanded) = (wh.calls.load(SeqCst) as isize, m.expanded.load(SeqCst) as isize);
        if dd != expanded {
            return Err(format!("counts: {} nodes were expanded, {:?}", expanded, text));
        }
        if nodes < started || (expected == 1 && nodes != started) {
            return Err(format!("counts: {} subproblems were explored, {:?}", started, text));
        }
        if rep.registered != expected {
            return Err(format!("threads: {} workers ran instead of {}", rep.registered, expected));
        }
        if expected == 1 && c.limit == Limit::None {
            // the options are those of the search
            let which = if c.barrier { Which::Barrier } else { Which::Parallel(Fr::NoDup) };
            let r = Run { which, cut: c.cut, width: c.width, threads: 1, build: Build::Custom, pol: c.pol.clone(), seed: c.seed, stop: Stop::Never, fine: false, maxsteps: 600_000 };
            let x = run_solver(t, &r)?;
            if (nodes as usize, dd as usize) != (x.explored, x.explored_dd) {
                return Err(format!("options: {} subproblems and {} nodes, where the solver with these options explores {} and {}", nodes, dd, x.explored, x.explored_dd));
            }
            o.class("same counts as the solver itself");
        }
        o.class(if c.barrier { "solver: barrier" } else { "solver: parallel" });
        o.class_if(c.threads.is_none(), "default number of threads");
        o.class_if(interrupted, "out of time");
        o.class_if(interrupted && lb > isize::MIN && ub < isize::MAX && lb < ub, "out of time with a finite gap");
        o.class_if(opt.is_none(), "infeasible");
        o.nontrivial = started >= 2 || (interrupted && started >= 1);
        Ok(())
    }
    fn shrink_iters(&self) -> u32 {
        1500
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["time runs out when a subproblem is made to last longer than the limit, so that the moment does not depend on the machine; whatever the moment is, the oracle accepts only what is true of the problem".into()]
    }
}
