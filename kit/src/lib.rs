//! The runner shared by all checks: proptest drives a choice sequence, a
//! property decodes the choices into a case and decides it against its oracle.
//!
//! A check is a parent process that runs the saved corpus and then a fixed
//! number of generated cases, split over shard processes.  A failing case is
//! shrunk by proptest and written out as the replay file.
use proptest::collection::vec;
use proptest::prelude::any;
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/* ------------------------------------------------------------ choice source */

/// Decodes a sequence of 32-bit choices. An exhausted source yields zeros and
/// smaller choices decode to smaller values, so shrinking the sequence shrinks
/// the case.
pub struct Src<'a> {
    v: &'a [u32],
    i: usize,
}
impl<'a> Src<'a> {
    pub fn new(v: &'a [u32]) -> Self {
        Src { v, i: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let r = self.v.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        r
    }
    /// uniform in 0..n (0 when n is 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn int(&mut self, lo: isize, hi: isize) -> isize {
        lo + self.below((hi - lo + 1) as usize) as isize
    }
    /// an integer in lo..=hi which shrinks towards zero
    pub fn near0(&mut self, lo: isize, hi: isize) -> isize {
        let r = self.below((hi - lo + 1) as usize) as isize;
        // 0, 1, .., hi, -1, -2, .., lo
        if r <= hi {
            r.max(0)
        } else {
            -(r - hi)
        }
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    pub fn u64(&mut self) -> u64 {
        ((self.raw() as u64) << 32) | self.raw() as u64
    }
    pub fn used(&self) -> usize {
        self.i
    }
    pub fn shuffled(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below(n - i);
            v.swap(i, j);
        }
        v
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    #[derive(Default)]
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            mix(self.0)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

/* -------------------------------------------------------------- observation */

/// What one evaluation of a property saw: feeds the coverage counts.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub counts: Vec<(&'static str, u64)>,
}
impl Obs {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c)
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.classes.push(c)
        }
    }
    pub fn count(&mut self, c: &'static str, n: u64) {
        self.counts.push((c, n))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned + Clone + Debug + Hash;
    fn id(&self) -> &'static str;
    /// how cases are made and what makes one non-trivial
    fn rule(&self) -> String;
    /// (number of cases over all shards, longest choice sequence)
    fn budget(&self, tier: Tier) -> (u64, usize);
    fn gen(&self, s: &mut Src, tier: Tier) -> Self::Case;
    fn run(&self, c: &Self::Case, o: &mut Obs) -> Result<(), String>;
    /// signature of a failure, for the known-findings list
    fn signature(&self, _c: &Self::Case, msg: &str) -> String {
        msg.split(':').next().unwrap_or("").to_owned()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    /// processes to run in parallel
    fn shards(&self) -> usize {
        8
    }
    fn shrink_iters(&self) -> u32 {
        6000
    }
    /// A case that takes longer than this hangs (all of them take milliseconds).
    fn case_limit(&self) -> Duration {
        Duration::from_secs(60)
    }
}

#[derive(Serialize, Deserialize, Default, Debug)]
pub struct ShardOut {
    pub evaluations: u64,
    pub hashes: Vec<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<Failure>,
    pub known: BTreeMap<String, u64>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Failure {
    pub property: String,
    pub message: String,
    pub signature: String,
    pub case: serde_json::Value,
    pub seed: u64,
    pub shard: usize,
}

#[derive(Deserialize, Debug, Clone, Default)]
pub struct Finding {
    pub property: String,
    #[serde(default)]
    pub status: String,
    /// the only case that the finding excuses; any case with the signature if there is none
    #[serde(default)]
    pub case: Option<serde_json::Value>,
    /// a case that shows the finding
    #[serde(default)]
    pub example: Option<serde_json::Value>,
    #[serde(default)]
    pub what: String,
    #[serde(default)]
    pub signature: Option<String>,
}

/* ------------------------------------------------------------------- panics */

static FIRST_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = payload_str(info.payload());
        let m = match info.location() {
            Some(l) => format!("{} at {}:{}", m, l.file(), l.line()),
            None => m,
        };
        if let Ok(mut g) = FIRST_PANIC.lock() {
            if g.is_none() {
                *g = Some(m);
            }
        }
    }));
}
pub fn take_panic() -> Option<String> {
    FIRST_PANIC.lock().ok().and_then(|mut g| g.take())
}
pub fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_owned()
    }
}
/// runs f; a panic (of this or of a thread it joined) becomes Err
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    take_panic();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => {
            take_panic();
            Ok(x)
        }
        Err(p) => Err(take_panic().unwrap_or_else(|| payload_str(&*p))),
    }
}

fn eval<P: Prop>(p: &P, c: &P::Case, o: &mut Obs) -> Result<(), String> {
    match guarded(|| p.run(c, o)) {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {}", m)),
    }
}

/* -------------------------------------------------------------------- limits */

extern "C" {
    fn dup(fd: i32) -> i32;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}
const RLIMIT_DATA: i32 = 2;
/// Bounds the memory of this process, so that code that allocates for ever fails
/// here rather than take the machine with it.
fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(RLIMIT_DATA, &[bytes, bytes]);
    }
}

/// the case being evaluated and when it was started
static CURRENT: Mutex<Option<(Instant, Vec<u32>)>> = Mutex::new(None);
fn started(v: &[u32]) {
    let mut c = CURRENT.lock().unwrap();
    match &mut *c {
        Some((t, w)) => {
            *t = Instant::now();
            w.clear();
            w.extend_from_slice(v);
        }
        None => *c = Some((Instant::now(), v.to_vec())),
    }
}
/// runs f; calls `late` (which must not return) if it takes longer than `limit`
fn watched<T>(limit: Duration, late: impl FnOnce() + Send + 'static, f: impl FnOnce() -> T) -> T {
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    std::thread::spawn(move || {
        if let Err(std::sync::mpsc::RecvTimeoutError::Timeout) = rx.recv_timeout(limit) {
            late()
        }
    });
    let r = f();
    drop(tx);
    r
}

/* ------------------------------------------------------------------- shards */

struct Shard<'p, P: Prop> {
    p: &'p P,
    out: ShardOut,
    seen: HashSet<u64>,
    frozen: bool,
    tier: Tier,
    trace: Option<PathBuf>,
    findings: Vec<Finding>,
}

fn case_hash(s: u64, p: &str, shard: usize) -> u64 {
    mix(hash_of(&(s, p, shard as u64)))
}

fn run_shard<P: Prop>(p: &P, shard: usize, of: usize, seed: u64, tier: Tier, cases: u64, trace: Option<PathBuf>, findings: Vec<Finding>) -> ShardOut {
    let (_, maxlen) = p.budget(tier);
    let n = cases / of as u64 + u64::from((cases % of as u64) > shard as u64);
    let cfg = Config {
        cases: n as u32,
        max_local_rejects: 0,
        max_global_rejects: 0,
        failure_persistence: None,
        max_shrink_iters: p.shrink_iters(),
        max_shrink_time: 60_000,
        rng_algorithm: RngAlgorithm::ChaCha,
        rng_seed: RngSeed::Fixed(case_hash(seed, p.id(), shard)),
        ..Config::default()
    };
    let mut runner = TestRunner::new(cfg);
    // mostly long sequences; some short ones, whose tail decodes to minimal choices
    let strat = proptest::strategy::Union::new_weighted(vec![
        (1, vec(any::<u32>(), 0..=maxlen / 8)),
        (6, vec(any::<u32>(), maxlen / 2..=maxlen)),
    ]);
    let st = RefCell::new(Shard { p, out: ShardOut::default(), seen: HashSet::new(), frozen: false, tier, trace, findings });
    let res = runner.run(&strat, |v| {
        let mut sh = st.borrow_mut();
        let sh = &mut *sh;
        let case = sh.p.gen(&mut Src::new(&v), sh.tier);
        if let Some(t) = &sh.trace {
            let _ = std::fs::write(t, serde_json::to_string(&case).unwrap());
        }
        let mut o = Obs::default();
        started(&v);
        let r = eval(sh.p, &case, &mut o);
        if !sh.frozen {
            sh.out.evaluations += 1;
            for c in &o.classes {
                *sh.out.classes.entry(c.to_string()).or_default() += 1;
            }
            for (c, n) in &o.counts {
                *sh.out.classes.entry(c.to_string()).or_default() += n;
            }
            if o.nontrivial && sh.seen.insert(hash_of(&case)) && sh.out.samples.len() < 1 && sh.out.evaluations > 20 {
                sh.out.samples.push(serde_json::to_value(&case).unwrap());
            }
        }
        match r {
            Ok(()) => Ok(()),
            Err(m) => {
                let sig = sh.p.signature(&case, &m);
                let cj = serde_json::to_value(&case).unwrap();
                if let Some(f) = sh.findings.iter().find(|f| {
                    f.status == "open" && f.property == sh.p.id() && f.signature.as_deref() == Some(sig.as_str()) && f.case.as_ref().map_or(true, |c| *c == cj)
                }) {
                    *sh.out.known.entry(f.what.clone()).or_default() += 1;
                    return Ok(());
                }
                sh.frozen = true;
                Err(TestCaseError::fail(m))
            }
        }
    });
    let mut sh = st.into_inner();
    match res {
        Ok(()) => {}
        Err(TestError::Fail(reason, v)) => {
            let case = p.gen(&mut Src::new(&v), tier);
            let msg = reason.message().to_owned();
            sh.out.failure = Some(Failure {
                property: p.id().to_owned(),
                signature: p.signature(&case, &msg),
                message: msg,
                case: serde_json::to_value(&case).unwrap(),
                seed,
                shard,
            });
        }
        Err(TestError::Abort(r)) => {
            eprintln!("proptest aborted: {}", r);
            std::process::exit(3);
        }
    }
    sh.out.hashes = sh.seen.into_iter().collect();
    sh.out
}

/* -------------------------------------------------------------------- entry */

pub struct Env {
    pub verif: PathBuf,
    pub seed: u64,
    pub tier: Tier,
}
pub fn env() -> Env {
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    Env { verif, seed, tier }
}

fn load_findings(e: &Env) -> Vec<Finding> {
    match std::fs::read_to_string(e.verif.join("known_findings.json")) {
        Ok(s) => serde_json::from_str(&s).expect("known_findings.json"),
        Err(_) => vec![],
    }
}

/// what `main` calls for the property it was asked for; returns the exit code
pub fn drive<P: Prop>(p: &P, args: &[String]) -> i32 {
    install_panic_hook();
    let e = env();
    match args.get(0).map(|s| s.as_str()) {
        Some("check") => check(p, &e),
        Some("shard") => {
            // shard ID k of cases [trace]
            let k: usize = args[2].parse().unwrap();
            let of: usize = args[3].parse().unwrap();
            let cases: u64 = args[4].parse().unwrap();
            let trace = args.get(5).map(PathBuf::from);
            limit_memory(2_800_000_000);
            // standard output as it is now, whatever a case does with it
            use std::os::fd::FromRawFd;
            let mut answer = unsafe { std::fs::File::from_raw_fd(dup(1)) };
            let done = std::sync::atomic::AtomicBool::new(false);
            let mut second = answer.try_clone().unwrap();
            std::thread::scope(|sc| {
                sc.spawn(|| {
                    while !done.load(std::sync::atomic::Ordering::SeqCst) {
                        std::thread::sleep(Duration::from_millis(20));
                        let v = match &*CURRENT.lock().unwrap() {
                            Some((t, v)) if t.elapsed() > p.case_limit() => v.clone(),
                            _ => continue,
                        };
                        let case = p.gen(&mut Src::new(&v), e.tier);
                        let msg = format!("termination: one case takes more than {:?}", p.case_limit());
                        let f = Failure { property: p.id().into(), signature: "termination".into(), message: msg, case: serde_json::to_value(&case).unwrap(), seed: e.seed, shard: k };
                        let out = ShardOut { evaluations: 1, failure: Some(f), ..Default::default() };
                        let _ = second.write_all(serde_json::to_string(&out).unwrap().as_bytes());
                        std::process::exit(0);
                    }
                });
                let out = run_shard(p, k, of, e.seed, e.tier, cases, trace, load_findings(&e));
                done.store(true, std::sync::atomic::Ordering::SeqCst);
                let s = serde_json::to_string(&out).unwrap();
                let _ = answer.write_all(s.as_bytes());
            });
            0
        }
        Some("replay") => {
            let s = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("json");
            let case: P::Case = serde_json::from_value(v.get("case").cloned().unwrap_or(v)).expect("case");
            let mut o = Obs::default();
            let (id, f, lim) = (p.id(), args[2].clone(), p.case_limit());
            limit_memory(2_800_000_000);
            let late = move || {
                println!("FAIL property={} termination: takes more than {:?}", id, lim);
                println!("VIOLATION property={} replay={}", id, f);
                std::process::exit(1);
            };
            match watched(lim, late, || eval(p, &case, &mut o)) {
                Ok(()) => {
                    println!("OK property={} classes={:?} nontrivial={}", p.id(), o.classes, o.nontrivial);
                    0
                }
                Err(m) => {
                    println!("FAIL property={} {}", p.id(), m);
                    println!("VIOLATION property={} replay={}", p.id(), args[2]);
                    1
                }
            }
        }
        // stats on what the generator makes
        Some("stats") => {
            let n: u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(2000);
            let t = Instant::now();
            let out = run_shard(p, 0, 1, e.seed, e.tier, n, None, vec![]);
            println!("{} evaluations, {} distinct non-trivial, {:.2}s", out.evaluations, out.hashes.len(), t.elapsed().as_secs_f64());
            for (c, n) in &out.classes {
                println!("  {:>9}  {}", n, c);
            }
            if let Some(f) = out.failure {
                println!("FAIL {}\n{}", f.message, serde_json::to_string(&f.case).unwrap());
            }
            0
        }
        _ => {
            eprintln!("usage: check|shard|replay|stats ID ..");
            2
        }
    }
}

/// runs `cmd`, feeding back its output; None when it had to be killed
fn spawn_shard(id: &str, k: usize, of: usize, cases: u64, trace: Option<&Path>) -> std::process::Child {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("shard").arg(id).arg(k.to_string()).arg(of.to_string()).arg(cases.to_string());
    if let Some(t) = trace {
        c.arg(t);
    }
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.spawn().expect("spawn shard")
}

enum End {
    Ok(ShardOut),
    Crash(String),
    Timeout,
    Bad(String),
}
fn wait_shard(mut ch: std::process::Child, deadline: Instant) -> End {
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t2 = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let status = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {
                if Instant::now() > deadline {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return End::Timeout;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            Err(e) => return End::Bad(e.to_string()),
        }
    };
    let out = t1.join().unwrap_or_default();
    let err = t2.join().unwrap_or_default();
    use std::os::unix::process::ExitStatusExt;
    if let Some(sig) = status.signal() {
        if sig == 9 {
            return End::Bad(format!("killed by signal {} {}", sig, err));
        }
        let last = err.lines().filter(|l| !l.trim().is_empty()).last().unwrap_or("").to_owned();
        return End::Crash(format!("signal {} {}", sig, last));
    }
    if !status.success() {
        return End::Bad(format!("{} {}", status, err));
    }
    match serde_json::from_str(&out) {
        Ok(o) => End::Ok(o),
        Err(e) => End::Bad(format!("unreadable shard output: {}", e)),
    }
}

fn check<P: Prop>(p: &P, e: &Env) -> i32 {
    let t0 = Instant::now();
    let findings = load_findings(e);
    let tier = e.tier;
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cases = (p.budget(tier).0 as f64 * scale) as u64;
    let limit = match tier {
        Tier::Quick => 780,
        Tier::Thorough => 6 * 3600,
    };
    let deadline = t0 + Duration::from_secs(limit);
    let mut failure: Option<Failure> = None;
    let mut known: BTreeMap<String, u64> = BTreeMap::new();

    // 1. the saved inputs
    let mut corpus = 0u64;
    let dir = e.verif.join("corpus").join(p.id());
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|f| f.path()).collect()).unwrap_or_default();
    files.retain(|f| f.extension().map_or(false, |x| x == "json"));
    files.sort();
    for f in files {
        corpus += 1;
        let mut c = Command::new(std::env::current_exe().unwrap());
        let ch = c.arg("replay").arg(p.id()).arg(&f).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
        let pid = ch.id();
        // a saved input takes milliseconds: a minute means a hang
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let _ = tx.send(ch.wait_with_output());
        });
        let out = match rx.recv_timeout(p.case_limit() * 3) {
            Ok(Ok(o)) => o,
            _ => {
                // (the replay itself gives up before that)
                let _ = Command::new("kill").arg("-9").arg(pid.to_string()).status();
                eprintln!("ERROR property={} replay of {} hangs", p.id(), f.display());
                return 2;
            }
        };
        let txt = String::from_utf8_lossy(&out.stdout).into_owned();
        if out.status.success() {
            continue;
        }
        let msg = txt.lines().find(|l| l.starts_with("FAIL ")).map(|l| l.splitn(3, ' ').nth(2).unwrap_or("").to_owned());
        let msg = match msg {
            Some(m) => m,
            None => {
                use std::os::unix::process::ExitStatusExt;
                match out.status.signal() {
                    Some(s) if s != 9 => format!("crash: signal {}", s),
                    _ => {
                        eprintln!("ERROR property={} replay of {} ended with {}: {}", p.id(), f.display(), out.status, txt);
                        return 2;
                    }
                }
            }
        };
        if failure.is_none() {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
            let v = v.get("case").cloned().unwrap_or(v);
            failure = Some(Failure { property: p.id().into(), message: format!("{} (saved input {})", msg, f.display()), signature: String::new(), case: v, seed: e.seed, shard: 0 });
        }
    }

    // 2. the open findings
    for f in findings.iter().filter(|f| f.property == p.id() && f.status == "open") {
        if let Some(c) = f.example.as_ref().or(f.case.as_ref()) {
            let case: P::Case = serde_json::from_value(c.clone()).expect("case of a known finding");
            let mut o = Obs::default();
            let (id, w) = (p.id(), e.verif.join("known_findings.json"));
            let late = move || {
                println!("{}: termination: the example of a known finding does not end", id);
                println!("VIOLATION property={} replay={}", id, w.display());
                std::process::exit(1);
            };
            match watched(p.case_limit(), late, || eval(p, &case, &mut o)) {
                Ok(()) => println!("NOTE property={} no longer seen: {}", p.id(), f.what),
                Err(m) if f.signature.as_deref() == Some(p.signature(&case, &m).as_str()) => *known.entry(f.what.clone()).or_default() += 1,
                // not this finding: a violation
                Err(m) if failure.is_none() => {
                    failure = Some(Failure { property: p.id().into(), signature: p.signature(&case, &m), message: m, case: c.clone(), seed: e.seed, shard: 0 })
                }
                Err(_) => {}
            }
        }
    }

    // 3. the search
    let of = p.shards();
    let mut tot = ShardOut::default();
    let mut seen: HashSet<u64> = HashSet::new();
    if failure.is_none() {
        let kids: Vec<_> = (0..of).map(|k| std::thread::spawn({
            let id = p.id();
            move || {
                let ch = spawn_shard(id, k, of, cases, None);
                wait_shard(ch, deadline)
            }
        })).collect();
        let ends: Vec<End> = kids.into_iter().map(|k| k.join().unwrap()).collect();
        let mut trouble: Option<String> = None;
        for (k, end) in ends.into_iter().enumerate() {
            match end {
                End::Ok(o) => {
                    tot.evaluations += o.evaluations;
                    seen.extend(o.hashes);
                    for (c, n) in o.classes {
                        *tot.classes.entry(c).or_default() += n;
                    }
                    for (c, n) in o.known {
                        *known.entry(c).or_default() += n;
                    }
                    if tot.samples.len() < 3 {
                        tot.samples.extend(o.samples);
                    }
                    if failure.is_none() {
                        failure = o.failure;
                    }
                }
                End::Crash(what) => {
                    // the shard is deterministic: run it again, keeping the case at hand
                    let t = std::env::temp_dir().join(format!("kit-{}-{}-{}", p.id(), k, std::process::id()));
                    match wait_shard(spawn_shard(p.id(), k, of, cases, Some(&t)), deadline) {
                        End::Crash(_) => {
                            let c: serde_json::Value = std::fs::read_to_string(&t).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
                            if failure.is_none() {
                                failure = Some(Failure { property: p.id().into(), message: format!("the process crashed: {}", what), signature: "crash".into(), case: c, seed: e.seed, shard: k });
                            }
                        }
                        _ => trouble = Some(format!("shard {} crashed once: {}", k, what)),
                    }
                    let _ = std::fs::remove_file(&t);
                }
                End::Timeout => trouble = Some(format!("shard {} did not end in time (inconclusive)", k)),
                End::Bad(m) => trouble = Some(format!("shard {}: {}", k, m)),
            }
        }
        if failure.is_none() {
            if let Some(t) = trouble {
                eprintln!("ERROR property={} {}", p.id(), t);
                return 2;
            }
        }
    }

    let ev = serde_json::json!({
        "property": p.id(),
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": e.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot.evaluations,
            "distinct_nontrivial": seen.len(),
            "rule": p.rule(),
            "samples": tot.samples,
            "classes": tot.classes,
            "saved_inputs_replayed": corpus,
            "shards": of,
        },
        "assumptions": p.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": u64::from(failure.is_some()),
    });
    let dir = e.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");

    for (w, n) in &known {
        println!("KNOWN-FINDING: property={} {} ({}x)", p.id(), w, n);
    }
    match failure {
        Some(f) => {
            let dir = e.verif.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{:016x}.json", p.id(), hash_of(&serde_json::to_string(&f.case).unwrap())));
            std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()).expect("replay file");
            println!("{}: {}", p.id(), f.message);
            println!("VIOLATION property={} replay={}", p.id(), path.display());
            1
        }
        None => {
            println!(
                "OK property={} evaluations={} distinct_nontrivial={} saved={} wall={:.1}s",
                p.id(),
                tot.evaluations,
                seen.len(),
                corpus,
                t0.elapsed().as_secs_f64()
            );
            0
        }
    }
}
