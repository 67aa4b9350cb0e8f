//! `std`, with locks, condition variables, once-cells, channels, atomics and threads replaced by
//! versions whose every blocking or shared-memory step is a scheduling point of `vsched`.
//!
//! Outside a controlled execution there is one thread only: acquiring a held lock is reported as
//! a deadlock by panicking.
pub use ::std::*;

mod imp {
    use ::std::cell::RefCell;
    use ::std::collections::HashMap;
    use ::std::sync::atomic::{AtomicUsize, Ordering};
    use vsched::{LockSt, Pred};

    static NEXT: AtomicUsize = AtomicUsize::new(1);
    /// Lazily assigned identity of a synchronisation object.
    #[derive(Debug, Default)]
    pub struct Id(AtomicUsize);
    impl Id {
        pub const fn new() -> Self {
            Id(AtomicUsize::new(0))
        }
        pub fn get(&self) -> usize {
            let v = self.0.load(Ordering::SeqCst);
            if v != 0 {
                return v;
            }
            let n = NEXT.fetch_add(1, Ordering::SeqCst);
            match self.0.compare_exchange(0, n, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(_) => n,
                Err(v) => v,
            }
        }
    }
    pub fn fresh() -> usize {
        NEXT.fetch_add(1, Ordering::SeqCst)
    }
    thread_local! {
        static INLINE: RefCell<HashMap<usize, LockSt>> = RefCell::new(HashMap::new());
    }
    pub fn point(label: &'static str) {
        if let Some((ex, tid)) = vsched::cur() {
            ex.point(tid, label);
        }
    }
    /// Wait for `p`; outside a controlled execution it must hold already.
    pub fn block(label: &'static str, p: Pred) {
        match vsched::cur() {
            Some((ex, tid)) => ex.block_until(tid, label, p),
            None => {
                if !p(&vsched::World::default()) {
                    panic!("deadlock: the only thread waits at {label}")
                }
            }
        }
    }
    fn lock_state<R>(id: usize, f: impl FnOnce(&mut LockSt) -> R) -> R {
        match vsched::cur() {
            Some((ex, _)) => ex.with(|w| f(w.lock_mut(id))),
            None => INLINE.with(|m| {
                let mut m = m.borrow_mut();
                let r = f(m.entry(id).or_default());
                let e = &m[&id];
                if e.writer.is_none() && e.readers == 0 && e.waiting_writers == 0 {
                    m.remove(&id);
                }
                r
            }),
        }
    }
    fn write_free(l: &LockSt) -> bool {
        l.writer.is_none() && l.readers == 0
    }
    fn read_free(l: &LockSt) -> bool {
        l.writer.is_none() && l.waiting_writers == 0
    }
    fn me() -> usize {
        vsched::cur().map_or(0, |(_, t)| t)
    }
    pub fn acquire_write(id: usize, label: &'static str) {
        point(label);
        if !lock_state(id, |l| write_free(l)) {
            match vsched::cur() {
                Some((ex, tid)) => {
                    lock_state(id, |l| l.waiting_writers += 1);
                    ex.block_until(tid, label, Box::new(move |w| w.is_write_free(id)));
                    lock_state(id, |l| l.waiting_writers -= 1);
                }
                None => panic!("deadlock: the only thread waits at {label}"),
            }
        }
        lock_state(id, |l| l.writer = Some(me()));
    }
    pub fn try_write(id: usize, label: &'static str) -> bool {
        point(label);
        lock_state(id, |l| {
            let ok = write_free(l);
            if ok {
                l.writer = Some(me())
            }
            ok
        })
    }
    pub fn release_write(id: usize) {
        lock_state(id, |l| l.writer = None);
    }
    pub fn downgrade(id: usize) {
        lock_state(id, |l| {
            l.writer = None;
            l.readers += 1;
        });
    }
    pub fn acquire_read(id: usize, label: &'static str) {
        point(label);
        if !lock_state(id, |l| read_free(l)) {
            match vsched::cur() {
                Some((ex, tid)) => ex.block_until(tid, label, Box::new(move |w| w.is_read_free(id))),
                None => panic!("deadlock: the only thread waits at {label}"),
            }
        }
        lock_state(id, |l| l.readers += 1);
    }
    pub fn try_read(id: usize, label: &'static str) -> bool {
        point(label);
        lock_state(id, |l| {
            let ok = read_free(l);
            if ok {
                l.readers += 1
            }
            ok
        })
    }
    pub fn release_read(id: usize) {
        lock_state(id, |l| l.readers -= 1);
    }
}

pub mod sync {
    use crate::imp::{self, Id};
    pub use ::std::sync::*;
    use ::std::cell::UnsafeCell;
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync::atomic::{AtomicBool as RealBool, Ordering as Ord_};
    use ::std::time::Duration;

    // ------------------------------------------------------------- Mutex
    #[derive(Default)]
    pub struct Mutex<T: ?Sized> {
        id: Id,
        poison: RealBool,
        cell: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized> {
        l: &'a Mutex<T>,
        _m: ::std::marker::PhantomData<*const ()>,
    }
    unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { id: Id::new(), poison: RealBool::new(false), cell: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            let p = self.poison.load(Ord_::SeqCst);
            let v = self.cell.into_inner();
            if p { Err(PoisonError::new(v)) } else { Ok(v) }
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
            let g = MutexGuard { l: self, _m: ::std::marker::PhantomData };
            if self.poison.load(Ord_::SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            imp::acquire_write(self.id.get(), "Mutex::lock");
            self.guard()
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            if imp::try_write(self.id.get(), "Mutex::try_lock") {
                self.guard().map_err(TryLockError::Poisoned)
            } else {
                Err(TryLockError::WouldBlock)
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.cell.get_mut())
        }
        pub fn is_poisoned(&self) -> bool {
            self.poison.load(Ord_::SeqCst)
        }
        pub fn clear_poison(&self) {
            self.poison.store(false, Ord_::SeqCst)
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    impl<T: ?Sized> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Mutex")
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.l.cell.get() }
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.l.cell.get() }
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            if ::std::thread::panicking() {
                self.l.poison.store(true, Ord_::SeqCst);
            }
            imp::release_write(self.l.id.get());
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    // ------------------------------------------------------------- RwLock
    #[derive(Default)]
    pub struct RwLock<T: ?Sized> {
        id: Id,
        poison: RealBool,
        cell: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized> {
        l: &'a RwLock<T>,
        _m: ::std::marker::PhantomData<*const ()>,
    }
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        l: &'a RwLock<T>,
        _m: ::std::marker::PhantomData<*const ()>,
    }
    unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
    unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { id: Id::new(), poison: RealBool::new(false), cell: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            let p = self.poison.load(Ord_::SeqCst);
            let v = self.cell.into_inner();
            if p { Err(PoisonError::new(v)) } else { Ok(v) }
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn rg(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            let g = RwLockReadGuard { l: self, _m: ::std::marker::PhantomData };
            if self.poison.load(Ord_::SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        fn wg(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            let g = RwLockWriteGuard { l: self, _m: ::std::marker::PhantomData };
            if self.poison.load(Ord_::SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            imp::acquire_read(self.id.get(), "RwLock::read");
            self.rg()
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            imp::acquire_write(self.id.get(), "RwLock::write");
            self.wg()
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            if imp::try_read(self.id.get(), "RwLock::try_read") {
                self.rg().map_err(TryLockError::Poisoned)
            } else {
                Err(TryLockError::WouldBlock)
            }
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            if imp::try_write(self.id.get(), "RwLock::try_write") {
                self.wg().map_err(TryLockError::Poisoned)
            } else {
                Err(TryLockError::WouldBlock)
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.cell.get_mut())
        }
        pub fn is_poisoned(&self) -> bool {
            self.poison.load(Ord_::SeqCst)
        }
        pub fn clear_poison(&self) {
            self.poison.store(false, Ord_::SeqCst)
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }
    impl<T: ?Sized> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("RwLock")
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.l.cell.get() }
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.l.cell.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.l.cell.get() }
        }
    }
    impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
        pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
            let l = s.l;
            ::std::mem::forget(s);
            imp::downgrade(l.id.get());
            RwLockReadGuard { l, _m: ::std::marker::PhantomData }
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            imp::release_read(self.l.id.get());
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            if ::std::thread::panicking() {
                self.l.poison.store(true, Ord_::SeqCst);
            }
            imp::release_write(self.l.id.get());
        }
    }

    // ------------------------------------------------------------ Condvar
    #[derive(Debug, Default)]
    pub struct Condvar {
        waiters: ::std::sync::Mutex<Vec<usize>>,
    }
    #[derive(Debug, PartialEq, Eq, Copy, Clone)]
    pub struct WaitTimeoutResult(bool);
    impl WaitTimeoutResult {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar { waiters: ::std::sync::Mutex::new(Vec::new()) }
        }
        pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let l = g.l;
            let t = imp::fresh();
            self.waiters.lock().unwrap().push(t);
            drop(g);
            imp::block("Condvar::wait", Box::new(move |w| w.flags.contains_key(&t)));
            l.lock()
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
            &self,
            mut g: MutexGuard<'a, T>,
            mut c: F,
        ) -> LockResult<MutexGuard<'a, T>> {
            while c(&mut *g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        /// The time-out may or may not happen before a notification: both are explored.
        pub fn wait_timeout<'a, T>(
            &self,
            g: MutexGuard<'a, T>,
            _d: Duration,
        ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            let expire = vsched::cur().map_or(true, |(ex, _)| ex.choose(2) == 1);
            if expire {
                let l = g.l;
                drop(g);
                return l.lock().map(|g| (g, WaitTimeoutResult(true))).map_err(|e| {
                    PoisonError::new((e.into_inner(), WaitTimeoutResult(true)))
                });
            }
            self.wait(g)
                .map(|g| (g, WaitTimeoutResult(false)))
                .map_err(|e| PoisonError::new((e.into_inner(), WaitTimeoutResult(false))))
        }
        fn wake(t: usize) {
            if let Some((ex, _)) = vsched::cur() {
                ex.with(|w| w.flags.insert(t, 1));
            }
        }
        pub fn notify_one(&self) {
            imp::point("Condvar::notify_one");
            let mut w = self.waiters.lock().unwrap();
            if !w.is_empty() {
                let k = vsched::cur().map_or(0, |(ex, _)| ex.choose(w.len()));
                let t = w.remove(k);
                drop(w);
                Self::wake(t);
            }
        }
        pub fn notify_all(&self) {
            imp::point("Condvar::notify_all");
            let w: Vec<usize> = ::std::mem::take(&mut *self.waiters.lock().unwrap());
            w.into_iter().for_each(Self::wake);
        }
    }

    // ------------------------------------------------------------ Barrier
    #[derive(Debug)]
    pub struct Barrier {
        n: usize,
        st: Mutex<(usize, usize)>,
        cv: Condvar,
    }
    #[derive(Debug)]
    pub struct BarrierWaitResult(bool);
    impl BarrierWaitResult {
        pub fn is_leader(&self) -> bool {
            self.0
        }
    }
    impl Barrier {
        pub const fn new(n: usize) -> Self {
            Barrier { n, st: Mutex::new((0, 0)), cv: Condvar::new() }
        }
        pub fn wait(&self) -> BarrierWaitResult {
            let mut g = self.st.lock().unwrap();
            let gen = g.1;
            g.0 += 1;
            if g.0 < self.n {
                while g.1 == gen {
                    g = self.cv.wait(g).unwrap();
                }
                BarrierWaitResult(false)
            } else {
                g.0 = 0;
                g.1 += 1;
                drop(g);
                self.cv.notify_all();
                BarrierWaitResult(true)
            }
        }
    }

    // ------------------------------------------- Once, OnceLock, LazyLock
    pub struct OnceLock<T> {
        v: ::std::sync::OnceLock<T>,
        m: Mutex<()>,
    }
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock { v: ::std::sync::OnceLock::new(), m: Mutex::new(()) }
        }
        pub fn get(&self) -> Option<&T> {
            imp::point("OnceLock::get");
            self.v.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.v.get_mut()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            let _g = self.m.lock();
            self.v.set(t)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            if self.get().is_none() {
                let _g = self.m.lock();
                if self.v.get().is_none() {
                    let t = f();
                    let _ = self.v.set(t);
                }
            }
            self.v.get().unwrap()
        }
        pub fn into_inner(self) -> Option<T> {
            self.v.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.v.take()
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    pub struct LazyLock<T, F = fn() -> T> {
        c: OnceLock<T>,
        f: ::std::sync::Mutex<Option<F>>,
    }
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            LazyLock { c: OnceLock::new(), f: ::std::sync::Mutex::new(Some(f)) }
        }
        pub fn force(this: &Self) -> &T {
            this.c.get_or_init(|| {
                let f = this.f.lock().unwrap().take().expect("LazyLock poisoned");
                f()
            })
        }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }
    #[derive(Default)]
    pub struct Once(OnceLock<()>);
    impl Once {
        pub const fn new() -> Self {
            Once(OnceLock::new())
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            self.0.get_or_init(f);
        }
        pub fn is_completed(&self) -> bool {
            self.0.get().is_some()
        }
    }

    // --------------------------------------------------------------- mpsc
    pub mod mpsc {
        use crate::imp;
        pub use ::std::sync::mpsc::{
            RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError,
        };
        use ::std::collections::VecDeque;
        use ::std::sync::atomic::{AtomicUsize, Ordering};
        use ::std::sync::{Arc, Mutex};
        struct Ch<T> {
            q: Mutex<VecDeque<T>>,
            len: Arc<AtomicUsize>,
            senders: Arc<AtomicUsize>,
            receivers: Arc<AtomicUsize>,
            cap: usize,
        }
        pub struct Sender<T>(Arc<Ch<T>>);
        pub struct SyncSender<T>(Arc<Ch<T>>);
        pub struct Receiver<T>(Arc<Ch<T>>);
        fn mk<T>(cap: usize) -> Arc<Ch<T>> {
            Arc::new(Ch {
                q: Mutex::new(VecDeque::new()),
                len: Arc::new(AtomicUsize::new(0)),
                senders: Arc::new(AtomicUsize::new(1)),
                receivers: Arc::new(AtomicUsize::new(1)),
                cap,
            })
        }
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let c = mk(usize::MAX);
            (Sender(c.clone()), Receiver(c))
        }
        pub fn sync_channel<T>(cap: usize) -> (SyncSender<T>, Receiver<T>) {
            let c = mk(cap.max(1));
            (SyncSender(c.clone()), Receiver(c))
        }
        fn send<T>(c: &Ch<T>, t: T) -> Result<(), SendError<T>> {
            imp::point("mpsc::send");
            let (len, rec, cap) = (c.len.clone(), c.receivers.clone(), c.cap);
            imp::block(
                "mpsc::send",
                Box::new(move |_| rec.load(Ordering::SeqCst) == 0 || len.load(Ordering::SeqCst) < cap),
            );
            if c.receivers.load(Ordering::SeqCst) == 0 {
                return Err(SendError(t));
            }
            c.q.lock().unwrap().push_back(t);
            c.len.fetch_add(1, Ordering::SeqCst);
            Ok(())
        }
        impl<T> Sender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                send(&self.0, t)
            }
        }
        impl<T> SyncSender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                send(&self.0, t)
            }
            pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
                imp::point("mpsc::try_send");
                let c = &self.0;
                if c.receivers.load(Ordering::SeqCst) == 0 {
                    return Err(TrySendError::Disconnected(t));
                }
                if c.len.load(Ordering::SeqCst) >= c.cap {
                    return Err(TrySendError::Full(t));
                }
                c.q.lock().unwrap().push_back(t);
                c.len.fetch_add(1, Ordering::SeqCst);
                Ok(())
            }
        }
        impl<T> Receiver<T> {
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                imp::point("mpsc::try_recv");
                match self.0.q.lock().unwrap().pop_front() {
                    Some(t) => {
                        self.0.len.fetch_sub(1, Ordering::SeqCst);
                        Ok(t)
                    }
                    None if self.0.senders.load(Ordering::SeqCst) == 0 => Err(TryRecvError::Disconnected),
                    None => Err(TryRecvError::Empty),
                }
            }
            pub fn recv(&self) -> Result<T, RecvError> {
                imp::point("mpsc::recv");
                let (len, sn) = (self.0.len.clone(), self.0.senders.clone());
                imp::block(
                    "mpsc::recv",
                    Box::new(move |_| len.load(Ordering::SeqCst) > 0 || sn.load(Ordering::SeqCst) == 0),
                );
                let r = self.0.q.lock().unwrap().pop_front();
                if r.is_some() {
                    self.0.len.fetch_sub(1, Ordering::SeqCst);
                }
                r.ok_or(RecvError)
            }
            pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
                ::std::iter::from_fn(move || self.recv().ok())
            }
            pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
                ::std::iter::from_fn(move || self.try_recv().ok())
            }
        }
        pub struct IntoIter<T>(Receiver<T>);
        impl<T> Iterator for IntoIter<T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.recv().ok()
            }
        }
        impl<T> IntoIterator for Receiver<T> {
            type Item = T;
            type IntoIter = IntoIter<T>;
            fn into_iter(self) -> IntoIter<T> {
                IntoIter(self)
            }
        }
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                self.0.senders.fetch_add(1, Ordering::SeqCst);
                Sender(self.0.clone())
            }
        }
        impl<T> Clone for SyncSender<T> {
            fn clone(&self) -> Self {
                self.0.senders.fetch_add(1, Ordering::SeqCst);
                SyncSender(self.0.clone())
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                self.0.senders.fetch_sub(1, Ordering::SeqCst);
            }
        }
        impl<T> Drop for SyncSender<T> {
            fn drop(&mut self) {
                self.0.senders.fetch_sub(1, Ordering::SeqCst);
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                self.0.receivers.fetch_sub(1, Ordering::SeqCst);
            }
        }
    }

    // ------------------------------------------------------------- atomics
    /// Sequentially consistent atomics: every access is a scheduling point.
    pub mod atomic {
        use crate::imp::point;
        pub use ::std::sync::atomic::{compiler_fence, fence, Ordering};
        macro_rules! common {
            ($n:ident, $t:ty) => {
                #[derive(Debug, Default)]
                pub struct $n(::std::sync::atomic::$n);
                impl $n {
                    pub const fn new(v: $t) -> Self {
                        $n(::std::sync::atomic::$n::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        point("atomic load");
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        point("atomic store");
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        point("atomic swap");
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        point("atomic compare_exchange");
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        point("atomic compare_exchange");
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                        point("atomic fetch_update");
                        self.0.fetch_update(s, f, g)
                    }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                        point("atomic fetch_and");
                        self.0.fetch_and(v, o)
                    }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                        point("atomic fetch_or");
                        self.0.fetch_or(v, o)
                    }
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                        point("atomic fetch_xor");
                        self.0.fetch_xor(v, o)
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                }
                impl From<$t> for $n {
                    fn from(v: $t) -> Self {
                        $n::new(v)
                    }
                }
            };
        }
        macro_rules! ints {
            ($($n:ident $t:ty),*) => {$(
                common!($n, $t);
                impl $n {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                        point("atomic fetch_add");
                        self.0.fetch_add(v, o)
                    }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                        point("atomic fetch_sub");
                        self.0.fetch_sub(v, o)
                    }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                        point("atomic fetch_max");
                        self.0.fetch_max(v, o)
                    }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                        point("atomic fetch_min");
                        self.0.fetch_min(v, o)
                    }
                }
            )*};
        }
        common!(AtomicBool, bool);
        ints!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32,
              AtomicI32 i32, AtomicU16 u16, AtomicI16 i16, AtomicU8 u8, AtomicI8 i8);
        pub use ::std::sync::atomic::AtomicPtr;
    }
}

pub mod thread {
    use crate::imp;
    pub use ::std::thread::*;
    use ::std::any::Any;
    use ::std::marker::PhantomData;
    use ::std::panic::{catch_unwind, AssertUnwindSafe};
    use ::std::sync::{Arc, Mutex};

    pub type Result<T> = ::std::result::Result<T, Box<dyn Any + Send + 'static>>;
    type Slot<T> = Arc<Mutex<Option<Result<T>>>>;
    fn start<T: Send>(f: Box<dyn FnOnce() -> T + Send + '_>, slot: Slot<T>) -> Option<usize> {
        let run = move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            *slot.lock().unwrap() = Some(r);
        };
        match vsched::cur() {
            Some((ex, tid)) => {
                let b: Box<dyn FnOnce() + Send + '_> = Box::new(run);
                // the caller (join, scope) waits before borrows end
                let b: Box<dyn FnOnce() + Send + 'static> = unsafe { ::std::mem::transmute(b) };
                let (t, _) = ex.spawn_thread(b);
                ex.point(tid, "thread spawned");
                Some(t)
            }
            None => {
                run();
                None
            }
        }
    }
    fn await_thread(t: Option<usize>) {
        if let Some(t) = t {
            let f = vsched::done_flag(t);
            imp::block("thread join", Box::new(move |w| w.flags.contains_key(&f)));
        }
    }
    pub struct JoinHandle<T> {
        tid: Option<usize>,
        slot: Slot<T>,
    }
    impl<T> JoinHandle<T> {
        pub fn join(self) -> Result<T> {
            await_thread(self.tid);
            self.slot.lock().unwrap().take().unwrap()
        }
        pub fn is_finished(&self) -> bool {
            imp::point("is_finished");
            self.slot.lock().unwrap().is_some()
        }
    }
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let slot: Slot<T> = Arc::new(Mutex::new(None));
        let tid = start(Box::new(f), slot.clone());
        JoinHandle { tid, slot }
    }
    pub struct Scope<'scope, 'env: 'scope> {
        tids: Mutex<Vec<Option<usize>>>,
        _m: PhantomData<(&'scope mut &'scope (), &'env mut &'env ())>,
    }
    pub struct ScopedJoinHandle<'scope, T> {
        tid: Option<usize>,
        slot: Slot<T>,
        _m: PhantomData<&'scope ()>,
    }
    impl<T> ScopedJoinHandle<'_, T> {
        pub fn join(self) -> Result<T> {
            await_thread(self.tid);
            self.slot.lock().unwrap().take().unwrap()
        }
        pub fn is_finished(&self) -> bool {
            imp::point("is_finished");
            self.slot.lock().unwrap().is_some()
        }
    }
    impl<'scope, 'env> Scope<'scope, 'env> {
        pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
        where
            F: FnOnce() -> T + Send + 'scope,
            T: Send + 'scope,
        {
            let slot: Slot<T> = Arc::new(Mutex::new(None));
            let tid = start(Box::new(f), slot.clone());
            self.tids.lock().unwrap().push(tid);
            ScopedJoinHandle { tid, slot, _m: PhantomData }
        }
    }
    pub fn scope<'env, F, T>(f: F) -> T
    where
        F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
    {
        let s = Scope { tids: Mutex::new(vec![]), _m: PhantomData };
        let r = catch_unwind(AssertUnwindSafe(|| f(&s)));
        let tids = ::std::mem::take(&mut *s.tids.lock().unwrap());
        tids.into_iter().for_each(await_thread);
        match r {
            Ok(r) => r,
            Err(e) => ::std::panic::resume_unwind(e),
        }
    }
    pub fn yield_now() {
        imp::point("yield_now");
    }
    pub fn sleep(_: ::std::time::Duration) {
        imp::point("sleep");
    }
}
