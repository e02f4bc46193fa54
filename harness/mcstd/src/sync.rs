//! Locks and atomics whose every use is a scheduling point.
use crate::sched;
pub use std::sync::*;
use std::fmt;
use std::ops::{Deref, DerefMut};

fn addr<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const () as usize
}

// ---- Mutex -----------------------------------------------------------------

#[derive(Default)]
pub struct Mutex<T: ?Sized> {
    /// So that the address is the lock's own even for a lock of nothing.
    id: u8,
    inner: std::sync::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
    inner: Option<std::sync::MutexGuard<'a, T>>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { id: 0, inner: std::sync::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard<'a>(&'a self, g: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        MutexGuard { lock: self, inner: Some(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if !sched::controlled() {
            return match self.inner.lock() {
                Ok(g) => Ok(self.guard(g)),
                Err(p) => Err(PoisonError::new(self.guard(p.into_inner()))),
            };
        }
        sched::point("lock");
        loop {
            match self.inner.try_lock() {
                Ok(g) => return Ok(self.guard(g)),
                Err(std::sync::TryLockError::Poisoned(p)) => return Err(PoisonError::new(self.guard(p.into_inner()))),
                Err(std::sync::TryLockError::WouldBlock) => sched::block(addr(&self.id), "lock (taken)"),
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched::point("try_lock");
        match self.inner.try_lock() {
            Ok(g) => Ok(self.guard(g)),
            Err(std::sync::TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(self.guard(p.into_inner())))),
            Err(std::sync::TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if self.inner.take().is_some() {
            sched::wake_all(addr(&self.lock.id));
        }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ---- Condvar ---------------------------------------------------------------

#[derive(Default, Debug)]
pub struct Condvar {
    id: u8,
    inner: std::sync::Condvar,
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { id: 0, inner: std::sync::Condvar::new() }
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = g.lock;
        if !sched::controlled() {
            let i = g.inner.take().unwrap();
            return match self.inner.wait(i) {
                Ok(i) => Ok(lock.guard(i)),
                Err(p) => Err(PoisonError::new(lock.guard(p.into_inner()))),
            };
        }
        drop(g);
        sched::block(addr(&self.id), "wait");
        lock.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        sched::point("notify");
        self.inner.notify_one();
        sched::wake_one(addr(&self.id));
    }
    pub fn notify_all(&self) {
        sched::point("notify");
        self.inner.notify_all();
        sched::wake_all(addr(&self.id));
    }
}

// ---- RwLock ----------------------------------------------------------------

/// As the real one on Linux, lets no reader in while a writer waits.
#[derive(Default)]
pub struct RwLock<T: ?Sized> {
    writers: std::sync::atomic::AtomicUsize,
    inner: std::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    inner: Option<std::sync::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    inner: Option<std::sync::RwLockWriteGuard<'a, T>>,
}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock { writers: std::sync::atomic::AtomicUsize::new(0), inner: std::sync::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    fn r<'a>(&'a self, g: std::sync::RwLockReadGuard<'a, T>) -> RwLockReadGuard<'a, T> {
        RwLockReadGuard { lock: self, inner: Some(g) }
    }
    fn w<'a>(&'a self, g: std::sync::RwLockWriteGuard<'a, T>) -> RwLockWriteGuard<'a, T> {
        RwLockWriteGuard { lock: self, inner: Some(g) }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        if !sched::controlled() {
            return match self.inner.read() {
                Ok(g) => Ok(self.r(g)),
                Err(p) => Err(PoisonError::new(self.r(p.into_inner()))),
            };
        }
        sched::point("read lock");
        loop {
            if self.writers.load(std::sync::atomic::Ordering::SeqCst) == 0 {
                match self.inner.try_read() {
                    Ok(g) => return Ok(self.r(g)),
                    Err(std::sync::TryLockError::Poisoned(p)) => return Err(PoisonError::new(self.r(p.into_inner()))),
                    Err(std::sync::TryLockError::WouldBlock) => {}
                }
            }
            sched::block(addr(&self.writers), "read lock (taken)");
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        use std::sync::atomic::Ordering::SeqCst;
        if !sched::controlled() {
            return match self.inner.write() {
                Ok(g) => Ok(self.w(g)),
                Err(p) => Err(PoisonError::new(self.w(p.into_inner()))),
            };
        }
        sched::point("write lock");
        let mut waiting = Waiting(None);
        loop {
            match self.inner.try_write() {
                Ok(g) => return Ok(self.w(g)),
                Err(std::sync::TryLockError::Poisoned(p)) => return Err(PoisonError::new(self.w(p.into_inner()))),
                Err(std::sync::TryLockError::WouldBlock) => {
                    if waiting.0.is_none() {
                        self.writers.fetch_add(1, SeqCst);
                        waiting.0 = Some(&self.writers);
                    }
                    sched::block(addr(&self.writers), "write lock (taken)");
                }
            }
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        sched::point("try_read");
        match self.inner.try_read() {
            Ok(g) => Ok(self.r(g)),
            Err(std::sync::TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(self.r(p.into_inner())))),
            Err(std::sync::TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        sched::point("try_write");
        match self.inner.try_write() {
            Ok(g) => Ok(self.w(g)),
            Err(std::sync::TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(self.w(p.into_inner())))),
            Err(std::sync::TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
}
struct Waiting<'a>(Option<&'a std::sync::atomic::AtomicUsize>);
impl Drop for Waiting<'_> {
    fn drop(&mut self) {
        if let Some(w) = self.0 {
            w.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        }
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.inner.take();
        sched::wake_all(addr(&self.lock.writers));
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.inner.take();
        sched::wake_all(addr(&self.lock.writers));
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ---- channels --------------------------------------------------------------

pub mod mpsc {
    use super::{Condvar, Mutex};
    pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use std::collections::VecDeque;
    use std::sync::Arc;

    struct St<T> {
        q: VecDeque<T>,
        senders: usize,
        receiver: bool,
    }
    struct Chan<T> {
        st: Mutex<St<T>>,
        cap: usize,
        more: Condvar,
        less: Condvar,
    }
    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct Receiver<T>(Arc<Chan<T>>);
    pub type SyncSender<T> = Sender<T>;

    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        sync_channel(usize::MAX)
    }
    pub fn sync_channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
        let st = St { q: VecDeque::new(), senders: 1, receiver: true };
        let c = Arc::new(Chan { st: Mutex::new(st), cap: cap.max(1), more: Condvar::new(), less: Condvar::new() });
        (Sender(c.clone()), Receiver(c))
    }
    impl<T> Chan<T> {
        fn lock(&self) -> super::MutexGuard<'_, St<T>> {
            self.st.lock().unwrap_or_else(|e| e.into_inner())
        }
    }
    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            let mut g = self.0.lock();
            while g.receiver && g.q.len() >= self.0.cap {
                g = self.0.less.wait(g).unwrap_or_else(|e| e.into_inner());
            }
            if !g.receiver {
                return Err(SendError(t));
            }
            g.q.push_back(t);
            drop(g);
            self.0.more.notify_one();
            Ok(())
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0.lock().senders += 1;
            Sender(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            let mut g = self.0.lock();
            g.senders -= 1;
            let last = g.senders == 0;
            drop(g);
            if last {
                self.0.more.notify_all();
            }
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            let mut g = self.0.lock();
            loop {
                if let Some(t) = g.q.pop_front() {
                    drop(g);
                    self.0.less.notify_one();
                    return Ok(t);
                }
                if g.senders == 0 {
                    return Err(RecvError);
                }
                g = self.0.more.wait(g).unwrap_or_else(|e| e.into_inner());
            }
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            let mut g = self.0.lock();
            match g.q.pop_front() {
                Some(t) => {
                    drop(g);
                    self.0.less.notify_one();
                    Ok(t)
                }
                None if g.senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn recv_timeout(&self, _: std::time::Duration) -> Result<T, RecvTimeoutError> {
            self.recv().map_err(|_| RecvTimeoutError::Disconnected)
        }
        pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
            std::iter::from_fn(move || self.recv().ok())
        }
        pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
            std::iter::from_fn(move || self.try_recv().ok())
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            let mut g = self.0.lock();
            g.receiver = false;
            let rest = std::mem::take(&mut g.q);
            drop(g);
            drop(rest);
            self.0.less.notify_all();
        }
    }
}

// ---- atomics ---------------------------------------------------------------

pub mod atomic {
    use crate::sched;
    pub use std::sync::atomic::*;

    macro_rules! common {
        ($name:ident, $t:ty) => {
            #[derive(Default, Debug)]
            pub struct $name(std::sync::atomic::$name);
            impl $name {
                pub const fn new(x: $t) -> Self {
                    $name(std::sync::atomic::$name::new(x))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    sched::point("atomic");
                    self.0.load(o)
                }
                pub fn store(&self, x: $t, o: Ordering) {
                    sched::point("atomic");
                    self.0.store(x, o)
                }
                pub fn swap(&self, x: $t, o: Ordering) -> $t {
                    sched::point("atomic");
                    self.0.swap(x, o)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    sched::point("atomic");
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_and_swap(&self, a: $t, b: $t, s: Ordering) -> $t {
                    match self.compare_exchange(a, b, s, Ordering::SeqCst) {
                        Ok(x) | Err(x) => x,
                    }
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    self.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut u: F) -> Result<$t, $t> {
                    let mut p = self.load(f);
                    while let Some(n) = u(p) {
                        match self.compare_exchange(p, n, s, f) {
                            Ok(x) => return Ok(x),
                            Err(x) => p = x,
                        }
                    }
                    Err(p)
                }
                pub fn fetch_and(&self, x: $t, o: Ordering) -> $t {
                    sched::point("atomic");
                    self.0.fetch_and(x, o)
                }
                pub fn fetch_or(&self, x: $t, o: Ordering) -> $t {
                    sched::point("atomic");
                    self.0.fetch_or(x, o)
                }
                pub fn fetch_xor(&self, x: $t, o: Ordering) -> $t {
                    sched::point("atomic");
                    self.0.fetch_xor(x, o)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
            impl From<$t> for $name {
                fn from(x: $t) -> Self {
                    $name::new(x)
                }
            }
        };
    }
    macro_rules! ints {
        ($($name:ident $t:ty),*) => {$(
            common!($name, $t);
            impl $name {
                pub fn fetch_add(&self, x: $t, o: Ordering) -> $t {
                    sched::point("atomic");
                    self.0.fetch_add(x, o)
                }
                pub fn fetch_sub(&self, x: $t, o: Ordering) -> $t {
                    sched::point("atomic");
                    self.0.fetch_sub(x, o)
                }
                pub fn fetch_max(&self, x: $t, o: Ordering) -> $t {
                    sched::point("atomic");
                    self.0.fetch_max(x, o)
                }
                pub fn fetch_min(&self, x: $t, o: Ordering) -> $t {
                    sched::point("atomic");
                    self.0.fetch_min(x, o)
                }
            }
        )*};
    }
    common!(AtomicBool, bool);
    ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
          AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
}
