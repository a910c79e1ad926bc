//! Stands in for `parking_lot` inside the simulator: the same interface (it is `lock_api`'s), but
//! taking a lock is a scheduling point, and a task that has to wait for one lets others run.
//! Everything runs on one thread, one task at a time.
use core::sync::atomic::{AtomicBool, AtomicIsize, Ordering::SeqCst};
pub use lock_api;

extern "Rust" {
    /// Before a lock is taken (`wait` false), and again each time it is found taken.
    fn jmtsim_lock_point(wait: bool);
}
fn point() {
    unsafe { jmtsim_lock_point(false) }
}
fn wait() {
    unsafe { jmtsim_lock_point(true) }
}

pub struct RawMutex(AtomicBool);
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex(AtomicBool::new(false));
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        point();
        while self.0.swap(true, SeqCst) {
            wait();
        }
    }
    fn try_lock(&self) -> bool {
        point();
        !self.0.swap(true, SeqCst)
    }
    unsafe fn unlock(&self) {
        self.0.store(false, SeqCst)
    }
    fn is_locked(&self) -> bool {
        self.0.load(SeqCst)
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        self.0.store(false, SeqCst)
    }
}

/// -1: written; n: read by n. The upgradable reader counts as a reader and holds the flag.
pub struct RawRwLock(AtomicIsize, AtomicBool);
impl RawRwLock {
    fn shared(&self) -> bool {
        let n = self.0.load(SeqCst);
        n >= 0 && self.0.compare_exchange(n, n + 1, SeqCst, SeqCst).is_ok()
    }
    fn exclusive(&self) -> bool {
        self.0.compare_exchange(0, -1, SeqCst, SeqCst).is_ok()
    }
    fn upgradable(&self) -> bool {
        if self.1.load(SeqCst) || !self.shared() {
            return false;
        }
        self.1.store(true, SeqCst);
        true
    }
    fn upgraded(&self) -> bool {
        if self.0.compare_exchange(1, -1, SeqCst, SeqCst).is_err() {
            return false;
        }
        self.1.store(false, SeqCst);
        true
    }
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock(AtomicIsize::new(0), AtomicBool::new(false));
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) {
        point();
        while !self.shared() {
            wait();
        }
    }
    fn try_lock_shared(&self) -> bool {
        point();
        self.shared()
    }
    unsafe fn unlock_shared(&self) {
        self.0.fetch_sub(1, SeqCst);
    }
    fn lock_exclusive(&self) {
        point();
        while !self.exclusive() {
            wait();
        }
    }
    fn try_lock_exclusive(&self) -> bool {
        point();
        self.exclusive()
    }
    unsafe fn unlock_exclusive(&self) {
        self.0.store(0, SeqCst);
    }
    fn is_locked(&self) -> bool {
        self.0.load(SeqCst) != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.0.load(SeqCst) < 0
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        lock_api::RawRwLock::lock_shared(self)
    }
    fn try_lock_shared_recursive(&self) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.0.store(1, SeqCst);
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        point();
        while !self.upgradable() {
            wait();
        }
    }
    fn try_lock_upgradable(&self) -> bool {
        point();
        self.upgradable()
    }
    unsafe fn unlock_upgradable(&self) {
        self.1.store(false, SeqCst);
        self.0.fetch_sub(1, SeqCst);
    }
    unsafe fn upgrade(&self) {
        point();
        while !self.upgraded() {
            wait();
        }
    }
    unsafe fn try_upgrade(&self) -> bool {
        point();
        self.upgraded()
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.1.store(false, SeqCst);
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.1.store(true, SeqCst);
        self.0.store(1, SeqCst);
    }
}
unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self)
    }
}

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: Self = RawThreadId;
    fn nonzero_thread_id(&self) -> core::num::NonZeroUsize {
        core::num::NonZeroUsize::MIN
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type RawFairMutex = RawMutex;
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;

pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::from_raw(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::from_raw(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}
