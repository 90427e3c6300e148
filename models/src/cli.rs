//! The command line: options, whole runs of the example programs, the time guard.
use crate::fam::*;
use crate::{psp, srflp, tsptw};
use engineering::xputils::{Args, SolverType};
use engineering::*;
use kit::{guarded, Obs, Prop, Src, Tier};
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::time::{Duration, Instant};
use structopt::StructOpt;

/* ------------------------------------------------------------------ options */

#[derive(Clone, Debug, Hash, Serialize, Deserialize, PartialEq, Eq)]
pub struct Opts {
    pub file: String,
    pub width: Option<usize>,
    pub timeout: Option<usize>,
    pub threads: Option<usize>,
    pub barrier: Option<bool>,
    pub frontier: Option<bool>,
}
/// the words of a command line for these options
fn words(o: &Opts, s: &mut Src) -> Vec<String> {
    let mut parts: Vec<(&str, &str, String)> = vec![("-f", "--file", o.file.clone())];
    if let Some(w) = o.width {
        parts.push(("-w", "--width", w.to_string()));
    }
    if let Some(t) = o.timeout {
        parts.push(("-t", "--timeout", t.to_string()));
    }
    if let Some(t) = o.threads {
        parts.push(("-T", "--threads", t.to_string()));
    }
    if let Some(b) = o.barrier {
        parts.push(("-s", "--solver", if b { "barrier" } else { "parallel" }.into()));
    }
    if let Some(f) = o.frontier {
        parts.push(("-c", "--cutset", if f { "frontier" } else { "lel" }.into()));
    }
    let mut out = vec!["solve".to_string()];
    for k in s.shuffled(parts.len()) {
        let (short, long, v) = &parts[k];
        match s.below(4) {
            0 => out.extend([long.to_string(), v.clone()]),
            1 => out.extend([short.to_string(), v.clone()]),
            2 => out.push(format!("{}={}", long, v)),
            _ => out.push(format!("{}{}", short, v)),
        }
    }
    out
}
fn maybe<T>(s: &mut Src, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
    if s.chance(1, 2) {
        Some(f(s))
    } else {
        None
    }
}
fn number(s: &mut Src) -> usize {
    match s.below(4) {
        0 => s.below(3),
        1 => s.below(100),
        2 => s.raw() as usize,
        _ => s.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, 60, 61]),
    }
}
fn word(s: &mut Src) -> String {
    let n = s.range(1, 9);
    let letters: Vec<char> = "abelprfnoticurPBLF019_./ ".chars().collect();
    (0..n).map(|_| s.pick(&letters)).collect::<String>()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum ArgCase {
    Good { opts: Opts, argv: Vec<String> },
    Header,
    /// what is wrong, and the command line
    Bad { why: String, argv: Vec<String> },
    Name(String),
}
pub struct Options;
fn spoil(s: &mut Src, mut argv: Vec<String>) -> ArgCase {
    let names = ["parallel", "barrier", "lel", "frontier"];
    let why = match s.below(9) {
        0 => {
            argv.retain(|_| true);
            argv = vec!["solve".into(), "--solver".into(), "barrier".into()];
            "no file"
        }
        1 => {
            argv.push("--nosuchflag".into());
            "unknown flag"
        }
        2 => {
            argv = vec!["resolve".into(), "--file".into(), "x".into()];
            "unknown command"
        }
        3 => {
            argv = vec![];
            "nothing"
        }
        k => {
            let opt = ["--solver", "--cutset", "--width", "--timeout", "--threads"][k - 4];
            let v = match k {
                4 => {
                    let w = word(s);
                    let w = s.pick(&["lel".into(), "frontier".into(), "Parallel".into(), "BARRIER".into(), "barriers".into(), "parallel ".into(), "paralel".to_string(), w]);
                    if names[..2].contains(&w.as_str()) { "x".into() } else { w }
                }
                5 => {
                    let w = word(s);
                    let w = s.pick(&["parallel".into(), "barrier".into(), "LEL".into(), "Frontier".into(), "frontier2".into(), " lel".into(), "le".to_string(), w]);
                    if names[2..].contains(&w.as_str()) { "x".into() } else { w }
                }
                _ => s.pick(&["-1", "1.5", "x", "1e3", "99999999999999999999", "", "0x10", "1 "]).to_string(),
            };
            argv = vec!["solve".into(), "-f".into(), "x".into(), format!("{}={}", opt, v)];
            "bad value"
        }
    };
    ArgCase::Bad { why: why.into(), argv }
}
fn opts(s: &mut Src, file: String) -> Opts {
    Opts {
        file,
        width: maybe(s, number),
        timeout: maybe(s, number),
        threads: maybe(s, number),
        barrier: maybe(s, |s| s.chance(1, 2)),
        frontier: maybe(s, |s| s.chance(1, 2)),
    }
}
impl Prop for Options {
    type Case = ArgCase;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> String {
        "case = a command line built from a choice of options in any order and in any of the four spellings, or a wrong command line, or a name of a solver or cutset type. Non-trivial: at least one option besides the file, or a wrong command line.".into()
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        (if tier == Tier::Quick { 600_000 } else { 6_000_000 }, 80)
    }
    fn gen(&self, s: &mut Src, _: Tier) -> ArgCase {
        match s.below(8) {
            0 | 1 => {
                let o = opts(s, "x".into());
                let argv = words(&o, s);
                spoil(s, argv)
            }
            2 => {
                let w = word(s);
                ArgCase::Name(s.pick(&["parallel".into(), "barrier".into(), "lel".into(), "frontier".into(), "exact".into(), "relaxed".into(), "restricted".into(), "Lel".into(), "".into(), w]))
            }
            3 if s.chance(1, 8) => ArgCase::Header,
            _ => {
                let mut f = word(s).replace(' ', "_");
                if f.starts_with('=') || f.starts_with('-') {
                    f = "x".into();
                }
                let o = opts(s, f);
                let argv = words(&o, s);
                ArgCase::Good { opts: o, argv }
            }
        }
    }
    fn run(&self, c: &ArgCase, o: &mut Obs) -> Result<(), String> {
        let parse = |argv: &[String]| guarded(|| Args::from_iter_safe(std::iter::once("program".to_string()).chain(argv.iter().cloned())).map_err(|e| e.to_string())).map_err(|m| format!("panic: {}", m));
        match c {
            ArgCase::Good { opts, argv } => {
                o.class("good");
                o.nontrivial = opts.width.is_some() || opts.timeout.is_some() || opts.threads.is_some() || opts.barrier.is_some() || opts.frontier.is_some();
                match parse(argv)? {
                    Ok(Args::Solve { file, width, timeout, threads, solver, cutset }) => {
                        let got = Opts {
                            file,
                            width,
                            timeout: Some(timeout),
                            threads,
                            barrier: Some(solver == SolverType::Barrier),
                            frontier: Some(cutset == CutsetType::Frontier),
                        };
                        let mut want = opts.clone();
                        want.timeout = want.timeout.or(Some(60));
                        want.barrier = want.barrier.or(Some(false));
                        want.frontier = want.frontier.or(Some(false));
                        if got != want {
                            return Err(format!("options: {:?} is read as {:?}", argv, got));
                        }
                        Ok(())
                    }
                    Ok(Args::PrintHeader) => Err(format!("options: {:?} is read as a request for the header", argv)),
                    Err(e) => Err(format!("options: {:?} is refused: {}", argv, e.lines().next().unwrap_or(""))),
                }
            }
            ArgCase::Header => {
                o.class("header");
                match parse(&["print-header".to_string()])? {
                    Ok(Args::PrintHeader) => Ok(()),
                    _ => Err("options: print-header is not understood".into()),
                }
            }
            ArgCase::Bad { why, argv } => {
                o.class("wrong");
                o.nontrivial = true;
                match parse(argv)? {
                    Err(_) => Ok(()),
                    Ok(a) => Err(format!("options: {:?} ({}) is read as {:?}", argv, why, a)),
                }
            }
            ArgCase::Name(n) => {
                o.class("name");
                let s = SolverType::from_str(n);
                let want = match n.as_str() {
                    "parallel" => Some(SolverType::Parallel),
                    "barrier" => Some(SolverType::Barrier),
                    _ => None,
                };
                if s.as_ref().ok() != want.as_ref() {
                    return Err(format!("name: {:?} is the solver {:?}", n, s));
                }
                let c = CutsetType::from_str(n);
                let want = match n.as_str() {
                    "lel" => Some(CutsetType::LastExactLayer),
                    "frontier" => Some(CutsetType::Frontier),
                    _ => None,
                };
                if c.as_ref().ok() != want.as_ref() {
                    return Err(format!("name: {:?} is the cutset {:?}", n, c));
                }
                let k = CompilationType::from_str(n);
                let want = match n.as_str() {
                    "exact" => Some(CompilationType::Exact),
                    "relaxed" => Some(CompilationType::Relaxed),
                    "restricted" => Some(CompilationType::Restricted),
                    _ => None,
                };
                if k.as_ref().ok() != want.as_ref() {
                    return Err(format!("name: {:?} is the compilation {:?}", n, k));
                }
                let shown = s.map(|s| s.to_string()).or(c.map(|c| c.to_string())).or(k.map(|k| k.to_string()));
                match shown {
                    Ok(t) if t != *n => Err(format!("name: {:?} is shown as {:?}", n, t)),
                    _ => Ok(()),
                }
            }
        }
    }
}

/* --------------------------------------------------------------------- runs */

/// what a run of a program did
struct Ran {
    code: Option<i32>,
    out: String,
}
fn bin_dir() -> PathBuf {
    // .../target/debug/models -> .../target/cli/release/examples
    let exe = std::env::current_exe().unwrap();
    exe.parent().unwrap().parent().unwrap().join("cli/release/examples")
}
fn spawn(cmd: &mut Command, limit: Duration) -> Result<Ran, String> {
    let mut ch = cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| panic!("cannot run {:?}: {}", cmd, e)).unwrap();
    let mut so = ch.stdout.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = std::io::Read::read_to_end(&mut so, &mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let end = Instant::now() + limit;
    let mut nap = 200;
    let code = loop {
        match ch.try_wait().expect("wait") {
            Some(s) => break s.code(),
            None if Instant::now() > end => {
                let _ = ch.kill();
                let _ = ch.wait();
                let _ = t.join();
                return Err(format!("termination: no end after {:?}", limit));
            }
            None => {
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 3 / 2).min(20_000);
            }
        }
    };
    Ok(Ran { code, out: t.join().unwrap_or_default() })
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum AnyInst {
    Tsptw(tsptw::Inst),
    Srflp(srflp::Inst),
    Psp(psp::Inst),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum RunCase {
    Solve { inst: AnyInst, text: String, name: String, opts: Opts, argv: Vec<String> },
    Header(usize),
    Wrong { program: usize, argv: Vec<String> },
}
pub struct Runs;
const PROGRAMS: [&str; 3] = ["tsptw", "srflp", "psp"];
const FILE: &str = "@FILE@";

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let d = std::env::temp_dir().join(format!("verif-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&d).expect("scratch directory");
    Scratch(d)
}
fn run(program: &str, argv: &[String]) -> Result<Ran, String> {
    let b = bin_dir().join(program);
    spawn(Command::new(b).args(argv), Duration::from_secs(100))
}
const COLUMNS: [&str; 11] = ["NAME", "SOLVER", "STATUS", "DURATION", "RAM_(MB)", "BEST-VAL", "LB", "UB", "GAP", "NODES B&B", "NODES DD"];

fn solved<F: Fam>(i: &F::Inst, program: &str, text: &str, name: &str, opts: &Opts, argv: &[String], o: &mut Obs) -> Result<(), String> {
    let opt = best::<F>(i, &mut vec![]);
    let dir = scratch();
    let path = dir.0.join(name);
    std::fs::write(&path, text).expect("instance file");
    let argv: Vec<String> = argv.iter().map(|a| a.replace(FILE, path.to_str().unwrap())).collect();
    let r = run(program, &argv)?;
    drop(dir);
    if r.code != Some(0) {
        return Err(format!("run: {} {:?} ended with {:?}", program, argv, r.code));
    }
    let lines: Vec<&str> = r.out.lines().collect();
    if lines.len() != 1 {
        return Err(format!("line: {} lines of output: {:?}", lines.len(), r.out));
    }
    let col: Vec<&str> = lines[0].split(" | ").map(|c| c.trim()).collect();
    if col.len() != COLUMNS.len() {
        return Err(format!("line: {} columns in {:?}", col.len(), lines[0]));
    }
    let bad = |what: &str| Err(format!("{} in {:?}, the optimum is {:?}", what, lines[0], opt));
    let stem = std::path::Path::new(name).file_stem().unwrap().to_str().unwrap();
    if col[0] != stem {
        return bad("name: the wrong one");
    }
    let barrier = opts.barrier.unwrap_or(false);
    if col[1] != if barrier { "barrier" } else { "parallel" } {
        return bad("solver: the wrong one");
    }
    let int = |k: usize| col[k].parse::<isize>().map_err(|_| format!("column: {} is not a number in {:?}", COLUMNS[k], lines[0]));
    let float = |k: usize| col[k].parse::<f64>().map_err(|_| format!("column: {} is not a number in {:?}", COLUMNS[k], lines[0]));
    if float(3)? < 0.0 || float(4)? < 0.0 {
        return bad("column: negative duration or memory");
    }
    let found = if col[5] == "not found" { None } else { Some(int(5)?) };
    let (lb, ub, gap) = (int(6)?, int(7)?, float(8)?);
    let (nodes, dd) = (int(9)?, int(10)?);
    if nodes < 0 || dd < 0 {
        return bad("column: negative counts");
    }
    let low = opt.unwrap_or(isize::MIN);
    match found {
        Some(v) if v != lb => return bad("bounds: the best value is not the lower bound"),
        None if lb != isize::MIN => return bad("bounds: a lower bound without a solution"),
        _ => {}
    }
    if lb > low || ub < low {
        return bad("bounds: they do not enclose the optimum");
    }
    match col[2] {
        "Proved" => {
            o.class("proved");
            if found != opt {
                return bad("proved: the best value is not the optimum");
            }
            if lb != ub {
                return bad("proved: the bounds differ");
            }
            if gap != 0.0 {
                return bad("gap: not zero for a proved optimum");
            }
        }
        "Timeout" => {
            o.class("timeout");
            if opts.timeout.unwrap_or(60) > 50 {
                return bad("timeout: it did not have the time it was given");
            }
            if lb == ub && gap != 0.0 {
                return bad("gap: not zero for equal bounds");
            }
            if lb != ub {
                let (a, b) = ((lb as f64).abs(), (ub as f64).abs());
                let one = (a - b).abs() / a.max(b);
                let ok = if (lb < 0) == (ub < 0) || lb == 0 || ub == 0 {
                    (gap - one).abs() <= 2e-4
                } else {
                    gap > 0.0 && gap <= 2.0 || ub as f64 - lb as f64 <= 1e-4 * a.max(b)
                };
                if !ok {
                    return bad("gap: wrong");
                }
            }
        }
        _ => return bad("status: unknown"),
    }
    o.class_if(opt.is_none(), "infeasible");
    o.class_if(found.is_none(), "no solution found");
    o.class_if(barrier, "barrier");
    o.class_if(opts.threads.is_none(), "default number of threads");
    o.nontrivial = true;
    Ok(())
}
impl Prop for Runs {
    type Case = RunCase;
    fn id(&self) -> &'static str {
        "C31"
    }
    fn rule(&self) -> String {
        "case = an example program, an instance file with a generated name, a combination of options in any order and spelling (timeouts of zero included), or a request for the header, or a wrong command line; the program itself is run and what it prints is compared to the brute-force optimum. Non-trivial: a run that solves an instance.".into()
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        (if tier == Tier::Quick { 8_000 } else { 200_000 }, 250)
    }
    fn shrink_iters(&self) -> u32 {
        600
    }
    fn gen(&self, s: &mut Src, _: Tier) -> RunCase {
        match s.below(40) {
            0 => RunCase::Header(s.below(3)),
            1 => RunCase::Wrong { program: s.below(3), argv: vec!["solve".into(), "-f".into(), "/nonexistent/instance".into()] },
            2 => {
                let program = s.below(3);
                match spoil(s, vec!["solve".into(), "-f".into(), "/nonexistent/instance".into()]) {
                    ArgCase::Bad { argv, .. } => RunCase::Wrong { program, argv },
                    _ => unreachable!(),
                }
            }
            _ => {
                let name = s.pick(&["a", "inst.txt", "rbg010a.tw", "n20w20.001.txt", "with space.x", "psp_15_5_90_10_0", ".hidden", "a.b.c.d", "a-name-that-is-longer-than-thirty-characters.dat", "été"]).to_string();
                // instances out of the reach of the defects on record of the models
                let inst = match s.below(3) {
                    0 => AnyInst::Tsptw(tsptw::T::gen(s, false).closed()),
                    1 => AnyInst::Srflp(srflp::S::gen(s, false).small()),
                    _ => AnyInst::Psp(psp::Q::gen(s, false)),
                };
                let mut o = Opts {
                    file: FILE.into(),
                    width: maybe(s, |s| s.range(1, 3)),
                    timeout: match s.below(6) {
                        0 => Some(0),
                        1 => Some(1000),
                        2 => Some(60),
                        _ => None,
                    },
                    threads: if s.chance(1, 10) { None } else { Some(s.range(1, 4)) },
                    barrier: maybe(s, |s| s.chance(3, 4)),
                    frontier: maybe(s, |s| s.chance(3, 4)),
                };
                if let AnyInst::Tsptw(i) = &inst {
                    // wide enough for every state: nothing is merged
                    let least = [1, 1, 1, 1, 2, 5, 20][i.dist.len()];
                    if o.width.unwrap_or(1) < least {
                        o.width = Some(least);
                    }
                }
                let argv = words(&o, s);
                let text = match &inst {
                    AnyInst::Tsptw(i) => tsptw::T::text(i),
                    AnyInst::Srflp(i) => srflp::S::text(i),
                    AnyInst::Psp(i) => psp::Q::text(i),
                };
                RunCase::Solve { inst, text, name, opts: o, argv }
            }
        }
    }
    fn run(&self, c: &RunCase, o: &mut Obs) -> Result<(), String> {
        match c {
            RunCase::Header(k) => {
                o.class("header");
                let r = run(PROGRAMS[*k % 3], &["print-header".into()])?;
                let col: Vec<&str> = r.out.trim_end().split(" | ").map(|c| c.trim()).collect();
                if r.code != Some(0) || col.len() != COLUMNS.len() || r.out.lines().count() != 1 {
                    return Err(format!("header: {:?}", r.out));
                }
                Ok(())
            }
            RunCase::Wrong { program, argv } => {
                o.class("wrong command line");
                let r = run(PROGRAMS[*program % 3], argv)?;
                if r.code == Some(0) || r.out.contains(" | ") {
                    return Err(format!("wrong: {:?} ends with {:?} and {:?}", argv, r.code, r.out));
                }
                Ok(())
            }
            RunCase::Solve { inst, text, name, opts, argv } => match inst {
                AnyInst::Tsptw(i) => solved::<tsptw::T>(i, "tsptw", text, name, opts, argv, o),
                AnyInst::Srflp(i) => solved::<srflp::S>(i, "srflp", text, name, opts, argv, o),
                AnyInst::Psp(i) => solved::<psp::Q>(i, "psp", text, name, opts, argv, o),
            },
        }
    }
    /// the programs it runs have their own limit
    fn case_limit(&self) -> Duration {
        Duration::from_secs(300)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a tiny instance is solved within 50 seconds; release builds of the programs are run, as README.md has it".into()]
    }
}

/* --------------------------------------------------------------- time guard */

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct GuardCase {
    /// milliseconds: the time allowed, what the action takes, what the exit handler takes
    pub allowed: u64,
    pub action: u64,
    pub handler: u64,
    /// what the action does with the time: sleep or compute
    pub busy: bool,
}
pub struct Guard;
/// the child: `models guard allowed action handler busy`
pub fn guard_child(a: &[String]) -> ! {
    use std::io::Write;
    let n: Vec<u64> = a.iter().map(|x| x.parse().unwrap()).collect();
    let say = |s: &str| {
        let mut o = std::io::stdout();
        let _ = o.write_all(s.as_bytes());
        let _ = o.flush();
    };
    let (action, handler, busy) = (n[1], n[2], n[3] != 0);
    engineering::xputils::timeout(
        Duration::from_millis(n[0]),
        || {
            if busy {
                let t = Instant::now();
                while t.elapsed() < Duration::from_millis(action) {
                    std::hint::black_box(0);
                }
            } else {
                std::thread::sleep(Duration::from_millis(action));
            }
            say("done\n");
        },
        move || {
            say("late ");
            std::thread::sleep(Duration::from_millis(handler));
            say("end\n");
        },
    );
    say("returned\n");
    std::process::exit(77)
}
const LONG: u64 = 60_000;
impl Prop for Guard {
    type Case = GuardCase;
    fn id(&self) -> &'static str {
        "C32"
    }
    fn rule(&self) -> String {
        "case = the time allowed, the time that the action takes and the time that the exit handler takes, many of them within a few milliseconds of each other; the guard runs in a process of its own. Non-trivial: action, allowance and handler overlap, or the handler ran.".into()
    }
    fn budget(&self, tier: Tier) -> (u64, usize) {
        (if tier == Tier::Quick { 2_000 } else { 40_000 }, 12)
    }
    fn shrink_iters(&self) -> u32 {
        60
    }
    fn gen(&self, s: &mut Src, _: Tier) -> GuardCase {
        let busy = s.chance(1, 4);
        let handler = s.pick(&[0, 0, 5, 20, 40]);
        let (allowed, action) = match s.below(8) {
            0 => (LONG, s.below(20) as u64),
            1 => (s.below(20) as u64, LONG),
            _ => {
                let a = s.below(15) as u64;
                let lead = s.below(handler as usize + 6) as u64;
                (a, (a + lead).saturating_sub(2))
            }
        };
        GuardCase { allowed, action, handler, busy: busy && action < LONG }
    }
    fn run(&self, c: &GuardCase, o: &mut Obs) -> Result<(), String> {
        let exe = std::env::current_exe().unwrap();
        let args = ["guard".to_string(), c.allowed.to_string(), c.action.to_string(), c.handler.to_string(), (c.busy as u8).to_string()];
        let r = spawn(Command::new(exe).args(args), Duration::from_millis(LONG / 2))?;
        let late = r.out.contains("late ");
        let end = r.out.matches("end\n").count();
        let done = r.out.contains("done\n");
        let bad = |w: &str| Err(format!("{} (exit {:?}, output {:?})", w, r.code, r.out));
        o.class_if(late, "the handler ran");
        o.class_if(late && done, "the action ended although it was too late");
        o.nontrivial = late || c.action < LONG && c.allowed < LONG;
        match r.code {
            Some(0) if late => return bad("guard: success is reported after the exit handler started"),
            Some(0) if !done => return bad("guard: success is reported although the action did not end"),
            Some(0) if c.action == LONG => return bad("guard: success is reported for an endless action"),
            Some(1) if end != 1 => return bad("guard: failure is reported without one complete run of the exit handler"),
            Some(1) if c.allowed == LONG => return bad("guard: an action is cut short that was in time"),
            Some(0) | Some(1) => {}
            _ => return bad("guard: neither success nor failure"),
        }
        if r.out.matches("late ").count() > 1 || r.out.matches("done\n").count() > 1 {
            return bad("guard: something ran twice");
        }
        Ok(())
    }
    /// the programs it runs have their own limit
    fn case_limit(&self) -> Duration {
        Duration::from_secs(300)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the machine does not stall for 30 seconds; schedules are those of the operating system, steered by sleeping times".into()]
    }
}
