//! A stand-in for `parking_lot`, used only by the verification harness.
//!
//! Every primitive keeps its state in plain cells which are only touched while
//! the one global scheduler mutex is held, so it is a correct (if slow) lock
//! for any thread.  When a *session* is active (see [`sched`]), the threads
//! that touch a primitive are registered and exactly one of them runs at any
//! time; which one is decided, at every operation, by a policy that is a pure
//! function of the session's configuration.  That makes the interleaving of
//! the code under test an input that the harness generates, and makes deadlock
//! (no thread can ever run again) an observable outcome instead of a hang.
#![allow(clippy::all)]

use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub mod sched;
use sched::Global;

/* ------------------------------------------------------------------ Mutex */

struct RawState {
    locked: bool,  // mutex held, or rwlock held by a writer
    readers: usize,
    upgradable: bool,
    waiting_writers: usize,
}
impl RawState {
    const fn new() -> Self {
        RawState { locked: false, readers: 0, upgradable: false, waiting_writers: 0 }
    }
}

struct Raw(UnsafeCell<RawState>);
unsafe impl Send for Raw {}
unsafe impl Sync for Raw {}
impl Raw {
    const fn new() -> Self {
        Raw(UnsafeCell::new(RawState::new()))
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    // SAFETY: only called while the global scheduler mutex is held
    #[allow(clippy::mut_from_ref)]
    unsafe fn st(&self) -> &mut RawState {
        &mut *self.0.get()
    }
    fn acquire(&self, what: &'static str, mut attempt: impl FnMut(&mut RawState, bool) -> bool) {
        sched::op_point();
        let mut g = sched::lock_global();
        let mut first = true;
        loop {
            if attempt(unsafe { self.st() }, first) {
                return;
            }
            first = false;
            g = sched::block_on(g, self.key(), what, false).0;
        }
    }
    fn try_acquire(&self, mut attempt: impl FnMut(&mut RawState, bool) -> bool) -> bool {
        sched::op_point();
        let _g = sched::lock_global();
        attempt(unsafe { self.st() }, true)
    }
    fn release(&self, f: impl FnOnce(&mut RawState)) {
        {
            let mut g = sched::lock_global();
            f(unsafe { self.st() });
            g.wake_all(self.key());
        }
        sched::release_point();
    }
}

pub struct Mutex<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    _ns: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { raw: Raw::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.raw.acquire("mutex", |s, _| {
            if s.locked {
                false
            } else {
                s.locked = true;
                true
            }
        });
        MutexGuard { m: self, _ns: std::marker::PhantomData }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        let ok = self.raw.try_acquire(|s, _| {
            if s.locked {
                false
            } else {
                s.locked = true;
                true
            }
        });
        ok.then(|| MutexGuard { m: self, _ns: std::marker::PhantomData })
    }
    pub fn try_lock_for(&self, _d: Duration) -> Option<MutexGuard<'_, T>> {
        self.try_lock()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
    pub fn is_locked(&self) -> bool {
        let _g = sched::lock_global();
        unsafe { self.raw.st().locked }
    }
    pub fn data_ptr(&self) -> *mut T {
        self.data.get()
    }
    fn unlock(&self) {
        self.raw.release(|s| s.locked = false)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Mutex {{ .. }}")
    }
}
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn mutex(s: &Self) -> &'a Mutex<T> {
        s.m
    }
    pub fn unlocked<U>(s: &mut Self, f: impl FnOnce() -> U) -> U {
        s.m.unlock();
        let r = f();
        std::mem::forget(s.m.lock());
        r
    }
    pub fn unlocked_fair<U>(s: &mut Self, f: impl FnOnce() -> U) -> U {
        Self::unlocked(s, f)
    }
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
    pub fn bump(s: &mut Self) {
        Self::unlocked(s, || ())
    }
    pub fn map<U: ?Sized>(s: Self, f: impl FnOnce(&mut T) -> &mut U) -> MappedMutexGuard<'a, U>
    where
        T: Sized,
    {
        let p = f(unsafe { &mut *s.m.data.get() }) as *mut U;
        let m = s.m;
        std::mem::forget(s);
        MappedMutexGuard { raw: &m.raw, p, _m: std::marker::PhantomData }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.m.unlock()
    }
}
pub struct MappedMutexGuard<'a, T: ?Sized> {
    raw: &'a Raw,
    p: *mut T,
    _m: std::marker::PhantomData<&'a mut T>,
}
impl<T: ?Sized> Deref for MappedMutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.p }
    }
}
impl<T: ?Sized> DerefMut for MappedMutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.p }
    }
}
impl<T: ?Sized> Drop for MappedMutexGuard<'_, T> {
    fn drop(&mut self) {
        self.raw.release(|s| s.locked = false)
    }
}
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;

/* ----------------------------------------------------------------- RwLock */

pub struct RwLock<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _ns: std::marker::PhantomData<*const ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _ns: std::marker::PhantomData<*const ()>,
}
pub struct RwLockUpgradableReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _ns: std::marker::PhantomData<*const ()>,
}
fn try_read(s: &mut RawState, recursive: bool) -> bool {
    // like parking_lot: new readers queue behind a waiting writer
    if s.locked || (s.waiting_writers > 0 && !recursive) {
        false
    } else {
        s.readers += 1;
        true
    }
}
fn try_write(s: &mut RawState, first: bool, blocking: bool) -> bool {
    if s.locked || s.readers > 0 || s.upgradable {
        if first && blocking {
            s.waiting_writers += 1;
        }
        false
    } else {
        if !first {
            s.waiting_writers -= 1;
        }
        s.locked = true;
        true
    }
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { raw: Raw::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.raw.acquire("rwlock(read)", |s, _| try_read(s, false));
        RwLockReadGuard { l: self, _ns: std::marker::PhantomData }
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        self.raw.acquire("rwlock(read)", |s, _| try_read(s, true));
        RwLockReadGuard { l: self, _ns: std::marker::PhantomData }
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        self.raw
            .try_acquire(|s, _| try_read(s, false))
            .then(|| RwLockReadGuard { l: self, _ns: std::marker::PhantomData })
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.raw.acquire("rwlock(write)", |s, first| try_write(s, first, true));
        RwLockWriteGuard { l: self, _ns: std::marker::PhantomData }
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        self.raw
            .try_acquire(|s, first| try_write(s, first, false))
            .then(|| RwLockWriteGuard { l: self, _ns: std::marker::PhantomData })
    }
    pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> {
        self.raw.acquire("rwlock(upgradable)", |s, _| {
            if s.locked || s.upgradable || s.waiting_writers > 0 {
                false
            } else {
                s.upgradable = true;
                true
            }
        });
        RwLockUpgradableReadGuard { l: self, _ns: std::marker::PhantomData }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
    pub fn is_locked(&self) -> bool {
        let _g = sched::lock_global();
        let s = unsafe { self.raw.st() };
        s.locked || s.readers > 0 || s.upgradable
    }
    pub fn data_ptr(&self) -> *mut T {
        self.data.get()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "RwLock {{ .. }}")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockUpgradableReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.release(|s| s.readers -= 1)
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.release(|s| s.locked = false)
    }
}
impl<T: ?Sized> Drop for RwLockUpgradableReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.release(|s| s.upgradable = false)
    }
}
impl<'a, T: ?Sized> RwLockUpgradableReadGuard<'a, T> {
    pub fn upgrade(s: Self) -> RwLockWriteGuard<'a, T> {
        let l = s.l;
        std::mem::forget(s);
        l.raw.acquire("rwlock(upgrade)", |s, first| {
            if s.locked || s.readers > 0 {
                if first {
                    s.waiting_writers += 1;
                }
                false
            } else {
                if !first {
                    s.waiting_writers -= 1;
                }
                s.upgradable = false;
                s.locked = true;
                true
            }
        });
        RwLockWriteGuard { l, _ns: std::marker::PhantomData }
    }
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.l;
        std::mem::forget(s);
        l.raw.release(|s| {
            s.upgradable = false;
            s.readers += 1;
        });
        RwLockReadGuard { l, _ns: std::marker::PhantomData }
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.l;
        std::mem::forget(s);
        l.raw.release(|s| {
            s.locked = false;
            s.readers += 1;
        });
        RwLockReadGuard { l, _ns: std::marker::PhantomData }
    }
}

/* ---------------------------------------------------------------- Condvar */

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

pub struct Condvar {
    // only touched while the global scheduler mutex is held
    waiters: UnsafeCell<VecDeque<Arc<AtomicBool>>>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { waiters: UnsafeCell::new(VecDeque::new()) }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    #[allow(clippy::mut_from_ref)]
    unsafe fn q(&self) -> &mut VecDeque<Arc<AtomicBool>> {
        &mut *self.waiters.get()
    }
    fn wait_inner<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, timed: bool) -> bool {
        let token = Arc::new(AtomicBool::new(false));
        let m = guard.m;
        let mut timed_out = false;
        {
            let mut g = sched::lock_global();
            unsafe {
                self.q().push_back(token.clone());
                m.raw.st().locked = false;
            }
            g.wake_all(m.raw.key());
            while !token.load(SeqCst) {
                let (g2, to) = sched::block_on(g, self.key(), "condvar", timed);
                g = g2;
                if to {
                    timed_out = true;
                    unsafe { self.q().retain(|t| !Arc::ptr_eq(t, &token)) };
                    break;
                }
            }
            while unsafe { m.raw.st().locked } {
                g = sched::block_on(g, m.raw.key(), "mutex", false).0;
            }
            unsafe { m.raw.st().locked = true };
        }
        timed_out
    }
    pub fn wait<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>) {
        self.wait_inner(guard, false);
    }
    pub fn wait_for<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, _d: Duration) -> WaitTimeoutResult {
        WaitTimeoutResult(self.wait_inner(guard, true))
    }
    pub fn wait_until<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, _d: Instant) -> WaitTimeoutResult {
        WaitTimeoutResult(self.wait_inner(guard, true))
    }
    pub fn wait_while<T, F>(&self, guard: &mut MutexGuard<'_, T>, mut cond: F)
    where
        F: FnMut(&mut T) -> bool,
    {
        while cond(&mut *guard) {
            self.wait(guard);
        }
    }
    pub fn notify_one(&self) -> bool {
        let mut g: Global = sched::lock_global();
        let t = unsafe { self.q().pop_front() };
        if let Some(t) = t {
            t.store(true, SeqCst);
            g.wake_all(self.key());
            true
        } else {
            false
        }
    }
    pub fn notify_all(&self) -> usize {
        let mut g: Global = sched::lock_global();
        let q = unsafe { self.q() };
        let n = q.len();
        for t in q.drain(..) {
            t.store(true, SeqCst);
        }
        g.wake_all(self.key());
        n
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Condvar {{ .. }}")
    }
}
