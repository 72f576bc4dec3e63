//! Stand-in for the parking_lot crate (same type names, built on lock_api like the original).
//!
//! Every acquire and release first calls a hook. Without a hook installed (all checks except C01/C02)
//! the locks simply spin with yield. With the hook, a controlled scheduler decides who runs, and a
//! thread that cannot get a lock is blocked in the scheduler.
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub use lock_api;
pub use lock_api::{GuardNoSend};

/// What a lock tells the scheduler.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Event {
    /// about to try to acquire
    Acquire,
    /// could not be acquired: do not schedule this thread until something was released
    Blocked,
    /// was released
    Released,
}
static HOOK: AtomicUsize = AtomicUsize::new(0);
pub fn set_hook(f: fn(Event)) {
    HOOK.store(f as usize, SeqCst);
}
fn hook(e: Event) -> bool {
    let p = HOOK.load(SeqCst);
    if p == 0 {
        return false;
    }
    let f: fn(Event) = unsafe { std::mem::transmute(p) };
    f(e);
    true
}
fn blocked() {
    if !hook(Event::Blocked) {
        std::thread::yield_now();
    }
}

/// -1: exclusively locked, otherwise the number of shared holders, + UP if there is an upgradable one
pub struct RawRwLock(AtomicIsize);
const UP: isize = 1 << 32;
impl RawRwLock {
    fn wait_for(&self, f: impl Fn() -> bool) {
        hook(Event::Acquire);
        while !f() {
            blocked();
            hook(Event::Acquire);
        }
    }
    /// time is over as soon as somebody looks
    fn wait_some(&self, f: impl Fn() -> bool) -> bool {
        for _ in 0..3 {
            hook(Event::Acquire);
            if f() {
                return true;
            }
        }
        false
    }
    fn try_up(&self) -> bool {
        let mut c = self.0.load(SeqCst);
        loop {
            if c < 0 || c & UP != 0 {
                return false;
            }
            match self.0.compare_exchange(c, c + UP, SeqCst, SeqCst) {
                Ok(_) => return true,
                Err(x) => c = x,
            }
        }
    }
    fn try_ex(&self) -> bool {
        self.0.compare_exchange(0, -1, SeqCst, SeqCst).is_ok()
    }
    fn try_sh(&self) -> bool {
        let mut c = self.0.load(SeqCst);
        loop {
            if c < 0 {
                return false;
            }
            match self.0.compare_exchange(c, c + 1, SeqCst, SeqCst) {
                Ok(_) => return true,
                Err(x) => c = x,
            }
        }
    }
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock(AtomicIsize::new(0));
    type GuardMarker = GuardNoSend;
    fn lock_shared(&self) {
        self.wait_for(|| self.try_sh());
    }
    fn try_lock_shared(&self) -> bool {
        hook(Event::Acquire);
        self.try_sh()
    }
    unsafe fn unlock_shared(&self) {
        self.0.fetch_sub(1, SeqCst);
        hook(Event::Released);
    }
    fn lock_exclusive(&self) {
        self.wait_for(|| self.try_ex());
    }
    fn try_lock_exclusive(&self) -> bool {
        hook(Event::Acquire);
        self.try_ex()
    }
    unsafe fn unlock_exclusive(&self) {
        self.0.store(0, SeqCst);
        hook(Event::Released);
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.0.store(1, SeqCst);
        hook(Event::Released);
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, _: Duration) -> bool {
        self.wait_some(|| self.try_sh())
    }
    fn try_lock_shared_until(&self, _: Instant) -> bool {
        self.wait_some(|| self.try_sh())
    }
    fn try_lock_exclusive_for(&self, _: Duration) -> bool {
        self.wait_some(|| self.try_ex())
    }
    fn try_lock_exclusive_until(&self, _: Instant) -> bool {
        self.wait_some(|| self.try_ex())
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.wait_for(|| self.try_sh());
    }
    fn try_lock_shared_recursive(&self) -> bool {
        hook(Event::Acquire);
        self.try_sh()
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.wait_for(|| self.try_up());
    }
    fn try_lock_upgradable(&self) -> bool {
        hook(Event::Acquire);
        self.try_up()
    }
    unsafe fn unlock_upgradable(&self) {
        self.0.fetch_sub(UP, SeqCst);
        hook(Event::Released);
    }
    unsafe fn upgrade(&self) {
        self.wait_for(|| self.0.compare_exchange(UP, -1, SeqCst, SeqCst).is_ok());
    }
    unsafe fn try_upgrade(&self) -> bool {
        hook(Event::Acquire);
        self.0.compare_exchange(UP, -1, SeqCst, SeqCst).is_ok()
    }
}
unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self)
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.0.fetch_add(1 - UP, SeqCst);
        hook(Event::Released);
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.0.store(UP, SeqCst);
        hook(Event::Released);
    }
}

pub struct RawMutex(RawRwLock);
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex(RawRwLock(AtomicIsize::new(0)));
    type GuardMarker = GuardNoSend;
    fn lock(&self) {
        lock_api::RawRwLock::lock_exclusive(&self.0)
    }
    fn try_lock(&self) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(&self.0)
    }
    unsafe fn unlock(&self) {
        lock_api::RawRwLock::unlock_exclusive(&self.0)
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _: Duration) -> bool {
        self.0.wait_some(|| self.0.try_ex())
    }
    fn try_lock_until(&self, _: Instant) -> bool {
        self.0.wait_some(|| self.0.try_ex())
    }
}
pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: Self = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static K: u8 = const { 0 });
        K.with(|x| std::num::NonZeroUsize::new(x as *const u8 as usize).unwrap())
    }
}
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedFairMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type RawFairMutex = RawMutex;
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedReentrantMutexGuard<'a, T> = lock_api::MappedReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}
pub const fn const_fair_mutex<T>(val: T) -> FairMutex<T> {
    const_mutex(val)
}
pub const fn const_reentrant_mutex<T>(val: T) -> ReentrantMutex<T> {
    ReentrantMutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, RawThreadId, val)
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}
/// Waiting threads have numbers, and are woken in this order.
#[derive(Debug, Default)]
pub struct Condvar {
    next: AtomicUsize,
    woken: AtomicUsize,
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { next: AtomicUsize::new(0), woken: AtomicUsize::new(0) }
    }
    fn notify(&self, max: usize) -> usize {
        let n = (self.next.load(SeqCst) - self.woken.load(SeqCst)).min(max);
        self.woken.fetch_add(n, SeqCst);
        hook(Event::Released);
        n
    }
    pub fn notify_one(&self) -> bool {
        self.notify(1) > 0
    }
    pub fn notify_all(&self) -> usize {
        self.notify(usize::MAX)
    }
    pub fn wait<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>) {
        let t = self.next.fetch_add(1, SeqCst);
        MutexGuard::unlocked(guard, || {
            hook(Event::Acquire);
            while self.woken.load(SeqCst) <= t {
                blocked();
                hook(Event::Acquire);
            }
        })
    }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, guard: &mut MutexGuard<'_, T>, mut condition: F) {
        while condition(&mut **guard) {
            self.wait(guard);
        }
    }
    pub fn wait_until<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, _: Instant) -> WaitTimeoutResult {
        MutexGuard::unlocked(guard, || {
            hook(Event::Acquire);
        });
        WaitTimeoutResult(true)
    }
    pub fn wait_for<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, _: Duration) -> WaitTimeoutResult {
        self.wait_until(guard, Instant::now())
    }
}

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum OnceState {
    New,
    Poisoned,
    InProgress,
    Done,
}
impl OnceState {
    pub fn poisoned(self) -> bool {
        self == OnceState::Poisoned
    }
    pub fn done(self) -> bool {
        self == OnceState::Done
    }
}
#[derive(Debug, Default)]
pub struct Once(AtomicUsize);
impl Once {
    pub const fn new() -> Once {
        Once(AtomicUsize::new(0))
    }
    pub fn state(&self) -> OnceState {
        [OnceState::New, OnceState::Poisoned, OnceState::InProgress, OnceState::Done][self.0.load(SeqCst)]
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.call(false, |_| f())
    }
    pub fn call_once_force<F: FnOnce(OnceState)>(&self, f: F) {
        self.call(true, f)
    }
    fn call<F: FnOnce(OnceState)>(&self, force: bool, f: F) {
        struct End<'a>(&'a Once, usize);
        impl Drop for End<'_> {
            fn drop(&mut self) {
                self.0 .0.store(self.1, SeqCst);
                hook(Event::Released);
            }
        }
        hook(Event::Acquire);
        loop {
            match self.0.load(SeqCst) {
                3 => return,
                2 => {
                    blocked();
                    hook(Event::Acquire);
                }
                x => {
                    assert!(x == 0 || force, "Once instance has previously been poisoned");
                    if self.0.compare_exchange(x, 2, SeqCst, SeqCst).is_ok() {
                        let mut end = End(self, 1);
                        f([OnceState::New, OnceState::Poisoned][x]);
                        end.1 = 3;
                        return;
                    }
                }
            }
        }
    }
}
