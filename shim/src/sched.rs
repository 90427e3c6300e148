//! The scheduler behind the primitives.
use std::cell::{Cell, RefCell};
use std::ops::{Deref, DerefMut};
use std::sync::{Arc, Condvar as SCondvar, Mutex as SMutex, MutexGuard as SGuard, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Policy {
    /// at every scheduling point, switch to a random runnable thread with
    /// probability `num`/256
    Random { num: u32 },
    /// probabilistic concurrency testing: random priorities, the running
    /// thread's priority drops to the lowest at each of the given steps
    Pct { changes: Vec<u64> },
    /// switch to the next runnable thread every `every` scheduling points
    RoundRobin { every: u64 },
}

#[derive(Clone, Debug)]
pub struct Config {
    /// the number of worker threads that must have shown up before any runs
    pub expected: usize,
    pub seed: u64,
    pub policy: Policy,
    /// scheduling points after which the session is declared non-terminating
    pub max_steps: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub steps: u64,
    pub switches: u64,
    pub registered: usize,
    /// worker had to wait on a condition variable at least once
    pub cond_waits: u64,
    /// why the session was aborted, if it was
    pub aborted: Option<String>,
    /// a hash of the sequence of scheduling decisions
    pub trace: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Blocked { key: usize, timed: bool },
    Done,
}

struct Th {
    st: St,
    timed_out: bool,
    what: &'static str,
    prio: u64,
    /// kernel thread id: increases in the order the threads were spawned, so
    /// that the schedule does not depend on which of them arrives first
    tid: i64,
    cv: Arc<SCondvar>,
}

pub struct Inner {
    session: u64,
    active: bool,
    started: bool,
    cfg: Config,
    rng: u64,
    threads: Vec<Th>,
    order: Vec<usize>,
    current: Option<usize>,
    report: Report,
    low: u64,
    main_tid: i64,
    waiting_ext: usize,
}

struct Sched {
    m: SMutex<Inner>,
    ext: SCondvar,
}

fn s() -> &'static Sched {
    static S: OnceLock<Sched> = OnceLock::new();
    S.get_or_init(|| Sched {
        m: SMutex::new(Inner {
            session: 0,
            active: false,
            started: false,
            cfg: Config { expected: 0, seed: 0, policy: Policy::Random { num: 0 }, max_steps: 0 },
            rng: 0,
            threads: vec![],
            order: vec![],
            current: None,
            report: Report::default(),
            low: 0,
            main_tid: 0,
            waiting_ext: 0,
        }),
        ext: SCondvar::new(),
    })
}

pub struct Global(Option<SGuard<'static, Inner>>);
impl Deref for Global {
    type Target = Inner;
    fn deref(&self) -> &Inner {
        self.0.as_ref().unwrap()
    }
}
impl DerefMut for Global {
    fn deref_mut(&mut self) -> &mut Inner {
        self.0.as_mut().unwrap()
    }
}

fn lock_inner() -> SGuard<'static, Inner> {
    match s().m.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}
pub fn lock_global() -> Global {
    Global(Some(lock_inner()))
}

/// The panic payload of threads unwound because the session was aborted
pub struct SchedAbort;

struct Slot {
    id: Cell<Option<(u64, usize)>>,
}
impl Drop for Slot {
    fn drop(&mut self) {
        if let Some((sess, id)) = self.id.get() {
            let mut g = lock_inner();
            if g.session == sess {
                g.threads[id].st = St::Done;
                if g.current == Some(id) {
                    g.current = None;
                    drop(pick_and_switch(g, None));
                } else {
                    drop(g);
                }
                s().ext.notify_all();
            }
        }
    }
}
thread_local! {
    static SLOT: Slot = const { Slot { id: Cell::new(None) } };
    static EXTERNAL: Cell<bool> = const { Cell::new(false) };
    static _KEEP: RefCell<()> = const { RefCell::new(()) };
}

fn me(g: &Inner) -> Option<usize> {
    if !g.active {
        return None;
    }
    SLOT.try_with(|s| match s.id.get() {
        Some((sess, id)) if sess == g.session => Some(id),
        _ => None,
    })
    .unwrap_or(None)
}
fn is_external() -> bool {
    EXTERNAL.try_with(|e| e.get()).unwrap_or(true)
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Inner {
    pub fn wake_all(&mut self, key: usize) {
        for t in self.threads.iter_mut() {
            if let St::Blocked { key: k, .. } = t.st {
                if k == key {
                    t.st = St::Ready;
                    t.timed_out = false;
                }
            }
        }
        if self.waiting_ext > 0 {
            s().ext.notify_all();
        }
    }
    fn abort(&mut self, why: String) {
        if self.report.aborted.is_none() {
            self.report.aborted = Some(why);
        }
        self.current = None;
        for t in self.threads.iter() {
            t.cv.notify_all();
        }
        s().ext.notify_all();
    }
    fn aborted(&self) -> bool {
        self.report.aborted.is_some()
    }
    fn runnable(&self) -> Vec<usize> {
        self.order.iter().copied().filter(|i| self.threads[*i].st == St::Ready).collect()
    }
    fn rank(&self, id: usize) -> usize {
        self.order.iter().position(|i| *i == id).unwrap_or(0)
    }
    /// fixes the order (and with it the priorities) of the workers
    fn start(&mut self) {
        self.started = true;
        let mut o: Vec<usize> = (0..self.threads.len()).collect();
        o.sort_by_key(|i| self.threads[*i].tid);
        for i in o.iter() {
            self.threads[*i].prio = (splitmix(&mut self.rng) >> 8) + (1 << 60);
        }
        self.order = o;
    }
    fn decided(&mut self, n: usize) {
        let r = self.rank(n) as u64;
        self.report.switches += 1;
        self.report.trace = (self.report.trace ^ (r + 1)).wrapping_mul(0x100000001b3).wrapping_add(self.report.steps);
        self.current = Some(n);
        self.threads[n].cv.notify_all();
    }
    /// chooses who runs next, given who runs now (if it still can)
    fn choose(&mut self, cur: Option<usize>) -> Option<usize> {
        let r = self.runnable();
        if r.is_empty() {
            return None;
        }
        let cur_ok = cur.map_or(false, |c| self.threads[c].st == St::Ready);
        let step = self.report.steps;
        let next = match &self.cfg.policy {
            Policy::Random { num } => {
                let num = *num;
                let x = splitmix(&mut self.rng);
                if cur_ok && (x & 255) as u32 >= num {
                    cur.unwrap()
                } else {
                    r[((x >> 16) % r.len() as u64) as usize]
                }
            }
            Policy::RoundRobin { every } => {
                if cur_ok && step % (*every).max(1) != 0 {
                    cur.unwrap()
                } else {
                    let c = cur.map_or(0, |c| self.rank(c));
                    *r.iter().find(|i| self.rank(**i) > c).unwrap_or(&r[0])
                }
            }
            Policy::Pct { changes } => {
                if cur_ok && changes.contains(&step) {
                    self.low = self.low.wrapping_sub(1);
                    let l = self.low;
                    self.threads[cur.unwrap()].prio = l;
                }
                *r.iter().max_by_key(|i| self.threads[**i].prio).unwrap()
            }
        };
        Some(next)
    }
}

fn main_is_idle(tid: i64) -> bool {
    // state of the thread that owns the session: if it sleeps, it is joining
    // its workers (or waits for one of their locks) and will not help them
    match std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)) {
        Ok(s) => match s.rfind(')') {
            Some(p) => !matches!(s[p + 1..].trim_start().chars().next(), Some('R') | Some('D')),
            None => true,
        },
        Err(_) => true,
    }
}

/// Hands the baton to the next thread. `cur` is the thread that had it (None
/// when it is gone). Returns with the baton's new holder set.
fn pick_and_switch(mut g: SGuard<'static, Inner>, cur: Option<usize>) -> SGuard<'static, Inner> {
    let mut idle = 0;
    loop {
        if g.aborted() {
            return g;
        }
        if let Some(n) = g.choose(cur) {
            g.decided(n);
            return g;
        }
        // nobody can run: let a timed wait expire, if there is one
        if let Some(i) = (0..g.threads.len()).find(|i| matches!(g.threads[*i].st, St::Blocked { timed: true, .. })) {
            g.threads[i].st = St::Ready;
            g.threads[i].timed_out = true;
            continue;
        }
        if g.threads.iter().all(|t| t.st == St::Done) {
            g.current = None;
            return g;
        }
        // all blocked, nothing timed: a deadlock unless the owner can still act
        g.current = None;
        if main_is_idle(g.main_tid) {
            idle += 1;
        } else {
            idle = 0;
        }
        if idle > 6 {
            let d: Vec<String> = g
                .threads
                .iter()
                .enumerate()
                .map(|(i, t)| match t.st {
                    St::Done => format!("worker {} has exited", i),
                    _ => format!("worker {} waits forever on a {}", i, t.what),
                })
                .collect();
            g.abort(format!("deadlock: {}", d.join(", ")));
            return g;
        }
        let (g2, _) = match s().ext.wait_timeout(g, Duration::from_millis(1)) {
            Ok(x) => x,
            Err(p) => p.into_inner(),
        };
        g = g2;
    }
}

fn wait_for_turn(mut g: SGuard<'static, Inner>, id: usize) -> SGuard<'static, Inner> {
    let cv = g.threads[id].cv.clone();
    while g.current != Some(id) && !g.aborted() && g.active {
        g = match cv.wait(g) {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
    }
    g
}

fn bail(g: SGuard<'static, Inner>) -> ! {
    drop(g);
    std::panic::resume_unwind(Box::new(SchedAbort));
}

/// registers the calling thread in the active session, if it should be
fn register(mut g: SGuard<'static, Inner>) -> SGuard<'static, Inner> {
    if !g.active || is_external() || me(&g).is_some() {
        return g;
    }
    let id = g.threads.len();
    let sess = g.session;
    if SLOT.try_with(|s| s.id.set(Some((sess, id)))).is_err() {
        return g;
    }
    g.threads.push(Th { st: St::Ready, timed_out: false, what: "", prio: 0, tid: gettid(), cv: Arc::new(SCondvar::new()) });
    g.report.registered += 1;
    if g.started {
        g.order.push(id);
        g.threads[id].prio = (splitmix(&mut g.rng) >> 8) + (1 << 60);
    }
    if !g.started {
        if g.threads.len() >= g.cfg.expected {
            g.start();
            g = pick_and_switch(g, None);
        } else {
            let deadline = Instant::now() + Duration::from_millis(1500);
            let cv = g.threads[id].cv.clone();
            while !g.started && !g.aborted() {
                let left = deadline.saturating_duration_since(Instant::now());
                if left.is_zero() {
                    g.start();
                    g = pick_and_switch(g, None);
                    break;
                }
                g = match cv.wait_timeout(g, left.min(Duration::from_millis(50))) {
                    Ok(x) => x.0,
                    Err(p) => p.into_inner().0,
                };
            }
        }
    } else if g.current.is_none() {
        g = pick_and_switch(g, None);
    }
    wait_for_turn(g, id)
}

/// A scheduling point in front of an operation.
pub fn op_point() {
    let g = lock_inner();
    if !g.active || std::thread::panicking() {
        return;
    }
    let mut g = register(g);
    let Some(id) = me(&g) else { return };
    if g.aborted() {
        bail(g);
    }
    g.report.steps += 1;
    if g.report.steps > g.cfg.max_steps {
        let m = g.cfg.max_steps;
        g.abort(format!("no termination within {} scheduling points", m));
        bail(g);
    }
    let next = g.choose(Some(id));
    if next != Some(id) {
        let n = next.unwrap();
        g.decided(n);
        g = wait_for_turn(g, id);
        if g.aborted() {
            bail(g);
        }
    }
}

/// A scheduling point the harness may place in the callbacks it supplies.
pub fn yield_now() {
    op_point()
}

/// A scheduling point after a release: never unwinds (it runs in destructors).
pub fn release_point() {
    let mut g = lock_inner();
    if !g.active || std::thread::panicking() {
        return;
    }
    let Some(id) = me(&g) else { return };
    if g.aborted() || g.current != Some(id) {
        return;
    }
    g.report.steps += 1;
    let next = g.choose(Some(id));
    if next != Some(id) {
        let n = next.unwrap();
        g.decided(n);
        drop(wait_for_turn(g, id));
    }
}

/// Blocks the calling thread until `key` is woken. The flag says whether the
/// wait ended by time-out.
pub fn block_on(mut g: Global, key: usize, what: &'static str, timed: bool) -> (Global, bool) {
    let inner = g.0.take().unwrap();
    match me(&inner) {
        Some(id) => {
            let mut inner = inner;
            if inner.aborted() {
                if std::thread::panicking() {
                    // cannot unwind twice: give the lock owner time to unwind
                    drop(inner);
                    std::thread::sleep(Duration::from_millis(1));
                    return (lock_global(), false);
                }
                bail(inner);
            }
            if what == "condvar" {
                inner.report.cond_waits += 1;
            }
            inner.threads[id].st = St::Blocked { key, timed };
            inner.threads[id].what = what;
            inner.threads[id].timed_out = false;
            inner = pick_and_switch(inner, Some(id));
            inner = wait_for_turn(inner, id);
            if inner.aborted() && !std::thread::panicking() {
                bail(inner);
            }
            let to = inner.threads[id].timed_out;
            (Global(Some(inner)), to)
        }
        None => {
            // an outside thread: wait for any wake-up
            let mut inner = inner;
            inner.waiting_ext += 1;
            let (mut g2, r) = match s().ext.wait_timeout(inner, Duration::from_millis(20)) {
                Ok(x) => x,
                Err(p) => p.into_inner(),
            };
            g2.waiting_ext -= 1;
            let to = timed && r.timed_out();
            (Global(Some(g2)), to)
        }
    }
}

/// Starts a session owned by the calling thread. Every other thread that
/// touches a primitive from now on becomes a scheduled worker.
pub fn begin(cfg: Config) {
    EXTERNAL.with(|e| e.set(true));
    let mut g = lock_inner();
    assert!(!g.active, "nested scheduler session");
    g.session += 1;
    g.active = true;
    g.started = false;
    g.rng = cfg.seed ^ 0x5DEECE66D;
    g.cfg = cfg;
    g.threads.clear();
    g.order.clear();
    g.current = None;
    g.report = Report::default();
    g.low = 1 << 40;
    g.main_tid = gettid();
}

fn gettid() -> i64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().map(|s| s.to_owned())))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

/// Ends the session once all its workers are gone.
pub fn end() -> Report {
    let mut g = lock_inner();
    let deadline = Instant::now() + Duration::from_secs(20);
    while g.threads.iter().any(|t| t.st != St::Done) && Instant::now() < deadline {
        g = match s().ext.wait_timeout(g, Duration::from_millis(1)) {
            Ok(x) => x.0,
            Err(p) => p.into_inner().0,
        };
    }
    g.active = false;
    std::mem::take(&mut g.report)
}
