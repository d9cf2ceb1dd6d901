//! Stand-in for parking_lot 0.12. Every lock operation is a scheduling point: inside an exploration it is handed
//! to the scheduler (`mc::set_scheduler`), which decides which of the threads takes its next step; outside of one
//! the operation is simply applied, and an operation that would block panics (a single thread waiting for itself).
//! The blocking rules are those of parking_lot: a waiting writer or upgrade blocks new readers (but not recursive
//! ones while a reader is active), an upgradable reader excludes writers and other upgradable readers.

pub use lock_api;
use lock_api::{GuardNoSend, RawMutex as _, RawRwLock as _};

pub mod mc {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

    pub struct State {
        pub writer: AtomicBool,
        pub upgr: AtomicBool,
        pub readers: AtomicUsize,
        /// condition variables: number of permits handed out to waiters
        pub permits: AtomicUsize,
        pub waiters: AtomicUsize,
    }
    impl State {
        #[allow(clippy::declare_interior_mutable_const)]
        pub const INIT: State = State {
            writer: AtomicBool::new(false),
            upgr: AtomicBool::new(false),
            readers: AtomicUsize::new(0),
            permits: AtomicUsize::new(0),
            waiters: AtomicUsize::new(0),
        };
        pub fn get(&self) -> (bool, bool, usize) {
            (self.writer.load(Relaxed), self.upgr.load(Relaxed), self.readers.load(Relaxed))
        }
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
    pub enum Kind {
        Read,
        ReadRec,
        TryRead,
        EndRead,
        Write,
        WriteEnter,
        TryWrite,
        EndWrite,
        Upgradable,
        TryUpgradable,
        EndUpgradable,
        Upgrade,
        TryUpgrade,
        Downgrade,
        CondWait,
        Notify,
        /// not a lock operation: a place where another thread may run
        Step,
    }
    impl Kind {
        /// commutes with every other operation of this group on the same lock
        pub fn shared(self) -> bool {
            matches!(self, Kind::Read | Kind::ReadRec | Kind::TryRead | Kind::EndRead)
        }
        pub fn release(self) -> bool {
            matches!(self, Kind::EndRead | Kind::EndWrite | Kind::EndUpgradable)
        }
    }

    #[derive(Clone, Copy)]
    pub struct Op {
        pub state: *const State,
        pub kind: Kind,
    }
    unsafe impl Send for Op {}
    impl Op {
        pub fn enabled(&self) -> bool {
            if self.state.is_null() {
                return true;
            }
            let s = unsafe { &*self.state };
            let (w, u, r) = s.get();
            match self.kind {
                Kind::Read => !w,
                Kind::ReadRec => !w || r > 0,
                Kind::Write | Kind::Upgradable => !w && !u,
                Kind::WriteEnter => r == 0,
                Kind::CondWait => s.permits.load(Relaxed) > 0,
                _ => true,
            }
        }
    }

    thread_local! {
        static SCHED: Cell<Option<fn(Op)>> = const { Cell::new(None) };
        pub static TID: Cell<usize> = const { Cell::new(1) };
        /// also offer a scheduling point after each release
        pub static AFTER_RELEASE: Cell<bool> = const { Cell::new(false) };
        /// offer no scheduling point before the release of a lock that was taken in the same step
        pub static SHORT: Cell<bool> = const { Cell::new(false) };
        static LAST: Cell<usize> = const { Cell::new(0) };
    }
    pub fn set_scheduler(f: Option<fn(Op)>) {
        SCHED.with(|s| s.set(f));
    }

    pub(crate) fn point(state: &State, kind: Kind) {
        let op = Op { state, kind };
        if std::thread::panicking() {
            return;
        }
        match SCHED.with(|s| s.get()) {
            Some(f) => {
                let a = op.state as usize;
                if kind.release() && SHORT.with(|s| s.get()) && LAST.with(|l| l.get()) == a {
                    return;
                }
                f(op);
                LAST.with(|l| l.set(a));
            }
            None => {
                if !op.enabled() {
                    panic!("deadlock: a thread waits for a lock it holds itself ({:?})", kind);
                }
            }
        }
    }
    pub(crate) fn after_release() {
        if AFTER_RELEASE.with(|a| a.get()) && !std::thread::panicking() {
            if let Some(f) = SCHED.with(|s| s.get()) {
                f(Op { state: std::ptr::null(), kind: Kind::Step })
            }
        }
    }
}

use mc::{after_release, point, Kind, State};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------------------ RwLock
pub struct RawRwLock {
    s: State,
}

impl RawRwLock {
    fn enter(&self) {
        // the writer bit is set; wait for the readers to leave
        if self.s.readers.load(Relaxed) > 0 {
            point(&self.s, Kind::WriteEnter);
        }
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock { s: State::INIT };
    type GuardMarker = GuardNoSend;
    fn lock_shared(&self) {
        point(&self.s, Kind::Read);
        self.s.readers.fetch_add(1, Relaxed);
    }
    fn try_lock_shared(&self) -> bool {
        point(&self.s, Kind::TryRead);
        if self.s.get().0 {
            return false;
        }
        self.s.readers.fetch_add(1, Relaxed);
        true
    }
    unsafe fn unlock_shared(&self) {
        point(&self.s, Kind::EndRead);
        self.s.readers.fetch_sub(1, Relaxed);
        after_release();
    }
    fn lock_exclusive(&self) {
        point(&self.s, Kind::Write);
        self.s.writer.store(true, Relaxed);
        self.enter();
    }
    fn try_lock_exclusive(&self) -> bool {
        point(&self.s, Kind::TryWrite);
        if self.s.get() != (false, false, 0) {
            return false;
        }
        self.s.writer.store(true, Relaxed);
        true
    }
    unsafe fn unlock_exclusive(&self) {
        point(&self.s, Kind::EndWrite);
        self.s.writer.store(false, Relaxed);
        after_release();
    }
    fn is_locked(&self) -> bool {
        point(&self.s, Kind::TryWrite);
        self.s.get() != (false, false, 0)
    }
    fn is_locked_exclusive(&self) -> bool {
        point(&self.s, Kind::TryWrite);
        self.s.get().0
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        self.unlock_shared()
    }
    unsafe fn unlock_exclusive_fair(&self) {
        self.unlock_exclusive()
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        point(&self.s, Kind::Downgrade);
        self.s.readers.store(1, Relaxed);
        self.s.writer.store(false, Relaxed);
        after_release();
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, _: Duration) -> bool {
        self.try_lock_shared()
    }
    fn try_lock_shared_until(&self, _: Instant) -> bool {
        self.try_lock_shared()
    }
    fn try_lock_exclusive_for(&self, _: Duration) -> bool {
        self.try_lock_exclusive()
    }
    fn try_lock_exclusive_until(&self, _: Instant) -> bool {
        self.try_lock_exclusive()
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        point(&self.s, Kind::ReadRec);
        self.s.readers.fetch_add(1, Relaxed);
    }
    fn try_lock_shared_recursive(&self) -> bool {
        point(&self.s, Kind::TryRead);
        let (w, _, r) = self.s.get();
        if w && r == 0 {
            return false;
        }
        self.s.readers.fetch_add(1, Relaxed);
        true
    }
}
unsafe impl lock_api::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, _: Duration) -> bool {
        lock_api::RawRwLockRecursive::try_lock_shared_recursive(self)
    }
    fn try_lock_shared_recursive_until(&self, _: Instant) -> bool {
        lock_api::RawRwLockRecursive::try_lock_shared_recursive(self)
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        point(&self.s, Kind::Upgradable);
        self.s.upgr.store(true, Relaxed);
        self.s.readers.fetch_add(1, Relaxed);
    }
    fn try_lock_upgradable(&self) -> bool {
        point(&self.s, Kind::TryUpgradable);
        let (w, u, _) = self.s.get();
        if w || u {
            return false;
        }
        self.s.upgr.store(true, Relaxed);
        self.s.readers.fetch_add(1, Relaxed);
        true
    }
    unsafe fn unlock_upgradable(&self) {
        point(&self.s, Kind::EndUpgradable);
        self.s.upgr.store(false, Relaxed);
        self.s.readers.fetch_sub(1, Relaxed);
        after_release();
    }
    unsafe fn upgrade(&self) {
        point(&self.s, Kind::Upgrade);
        self.s.upgr.store(false, Relaxed);
        self.s.readers.fetch_sub(1, Relaxed);
        self.s.writer.store(true, Relaxed);
        self.enter();
    }
    unsafe fn try_upgrade(&self) -> bool {
        point(&self.s, Kind::TryUpgrade);
        if self.s.readers.load(Relaxed) != 1 {
            return false;
        }
        self.s.upgr.store(false, Relaxed);
        self.s.readers.store(0, Relaxed);
        self.s.writer.store(true, Relaxed);
        true
    }
}
unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self)
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        point(&self.s, Kind::Downgrade);
        self.s.upgr.store(false, Relaxed);
        after_release();
    }
    unsafe fn downgrade_to_upgradable(&self) {
        point(&self.s, Kind::Downgrade);
        self.s.readers.store(1, Relaxed);
        self.s.upgr.store(true, Relaxed);
        self.s.writer.store(false, Relaxed);
        after_release();
    }
}
unsafe impl lock_api::RawRwLockUpgradeTimed for RawRwLock {
    fn try_lock_upgradable_for(&self, _: Duration) -> bool {
        lock_api::RawRwLockUpgrade::try_lock_upgradable(self)
    }
    fn try_lock_upgradable_until(&self, _: Instant) -> bool {
        lock_api::RawRwLockUpgrade::try_lock_upgradable(self)
    }
    unsafe fn try_upgrade_for(&self, _: Duration) -> bool {
        lock_api::RawRwLockUpgrade::try_upgrade(self)
    }
    unsafe fn try_upgrade_until(&self, _: Instant) -> bool {
        lock_api::RawRwLockUpgrade::try_upgrade(self)
    }
}

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}

// ------------------------------------------------------------------------------------------------ Mutex
pub struct RawMutex {
    s: State,
}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex { s: State::INIT };
    type GuardMarker = GuardNoSend;
    fn lock(&self) {
        point(&self.s, Kind::Write);
        self.s.writer.store(true, Relaxed);
    }
    fn try_lock(&self) -> bool {
        point(&self.s, Kind::TryWrite);
        !self.s.writer.swap(true, Relaxed)
    }
    unsafe fn unlock(&self) {
        point(&self.s, Kind::EndWrite);
        self.s.writer.store(false, Relaxed);
        after_release();
    }
    fn is_locked(&self) -> bool {
        point(&self.s, Kind::TryWrite);
        self.s.get().0
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        self.unlock()
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _: Duration) -> bool {
        self.try_lock()
    }
    fn try_lock_until(&self, _: Instant) -> bool {
        self.try_lock()
    }
}
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type RawFairMutex = RawMutex;
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;
pub type MappedFairMutexGuard<'a, T> = MappedMutexGuard<'a, T>;
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub const fn const_fair_mutex<T>(val: T) -> Mutex<T> {
    const_mutex(val)
}

#[derive(Debug)]
pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        std::num::NonZeroUsize::new(mc::TID.with(|t| t.get())).unwrap()
    }
}
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type MappedReentrantMutexGuard<'a, T> = lock_api::MappedReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub const fn const_reentrant_mutex<T>(val: T) -> ReentrantMutex<T> {
    ReentrantMutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, RawThreadId, val)
}

// ------------------------------------------------------------------------------------------------ Condvar, Once
pub struct Condvar {
    s: State,
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { s: State::INIT }
    }
    pub fn notify_one(&self) -> bool {
        point(&self.s, Kind::Notify);
        let free = self.s.waiters.load(Relaxed) > self.s.permits.load(Relaxed);
        if free {
            self.s.permits.fetch_add(1, Relaxed);
        }
        free
    }
    pub fn notify_all(&self) -> usize {
        point(&self.s, Kind::Notify);
        let n = self.s.waiters.load(Relaxed);
        let had = self.s.permits.swap(n, Relaxed);
        n - had
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        self.s.waiters.fetch_add(1, Relaxed);
        MutexGuard::unlocked(g, || {
            point(&self.s, Kind::CondWait);
            self.s.permits.fetch_sub(1, Relaxed);
            self.s.waiters.fetch_sub(1, Relaxed);
        });
    }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, mut f: F) {
        while f(&mut *g) {
            self.wait(g);
        }
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _: Duration) -> WaitTimeoutResult {
        MutexGuard::unlocked(g, || ());
        WaitTimeoutResult(true)
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _: Instant) -> WaitTimeoutResult {
        MutexGuard::unlocked(g, || ());
        WaitTimeoutResult(true)
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}

pub struct Once {
    m: RawMutex,
    done: std::sync::atomic::AtomicBool,
}
impl Once {
    pub const fn new() -> Once {
        Once { m: RawMutex { s: State::INIT }, done: std::sync::atomic::AtomicBool::new(false) }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.m.lock();
        if !self.done.load(Relaxed) {
            f();
            self.done.store(true, Relaxed);
        }
        unsafe { self.m.unlock() }
    }
}
impl Default for Once {
    fn default() -> Self {
        Once::new()
    }
}
