//! Replacement for rayon-core 1.12 used by the model checker.
//!
//! The iterator layer (crate `rayon`) is the real one; this crate supplies `join`, `scope`, `spawn`
//! and the thread-pool API. Outside a controlled execution everything runs sequentially on the
//! calling thread ("inline mode"), with virtual worker numbers, and every `join` may be resolved as
//! "not stolen", "stolen, run after" or "stolen, run before". Inside a controlled execution it is
//! a work-stealing pool whose every scheduling decision is taken by `vsched`.
use std::any::Any;
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use vsched::{Exec, Inline};

type Payload = Box<dyn Any + Send>;

pub struct FnContext {
    migrated: bool,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

// ------------------------------------------------------------------ numbers
pub fn max_num_threads() -> usize {
    current_num_threads()
}
pub fn current_num_threads() -> usize {
    match vsched::cur() {
        Some((ex, _)) => ex.workers,
        None => vsched::inline().workers,
    }
}
pub fn current_thread_index() -> Option<usize> {
    match vsched::cur() {
        Some((ex, tid)) => worker_of(&ex, tid),
        None => vsched::inline_index(),
    }
}
fn worker_of(ex: &Exec, tid: usize) -> Option<usize> {
    if tid >= 1 && tid <= ex.workers {
        Some(tid - 1)
    } else {
        None
    }
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    let (ex, tid) = vsched::cur()?;
    let w = worker_of(&ex, tid)?;
    Some(ex.with(|wd| !wd.deques[w].is_empty()))
}

// ------------------------------------------------------------------ inline
struct IdxGuard(Option<usize>);
impl Drop for IdxGuard {
    fn drop(&mut self) {
        vsched::set_inline_index(self.0);
    }
}
fn on_worker<R>(i: usize, f: impl FnOnce() -> R) -> R {
    let _g = IdxGuard(vsched::set_inline_index(Some(i)));
    f()
}
/// Run `f(worker index, injected)` on a pool worker.
fn in_pool_inline<R>(f: impl FnOnce(usize, bool) -> R) -> R {
    match vsched::inline_index() {
        Some(i) => f(i, false),
        None => {
            let i = vsched::inline().first % vsched::inline().workers.max(1);
            on_worker(i, || f(i, true))
        }
    }
}
fn thief(i: usize) -> usize {
    (i + 1) % vsched::inline().workers.max(1)
}
fn policy() -> u8 {
    let Inline { workers, policy, .. } = vsched::inline();
    if workers <= 1 {
        return 0; // nobody to steal
    }
    match vsched::order_choice(3) {
        Some(c) => c as u8,
        None => policy,
    }
}

// ------------------------------------------------------------ controlled pool
/// Main loop of a controlled worker.
pub fn worker_main(ex: &Arc<Exec>, tid: usize) {
    loop {
        ex.block_until(tid, "idle worker", Box::new(|w| w.shutdown || w.work_available()));
        match find_work(ex, tid) {
            Some((j, stolen)) => execute(ex, j, stolen),
            None => {
                if ex.with(|w| w.shutdown) {
                    return;
                }
            }
        }
    }
}
/// Own deque first, then steal; which victim is a choice.
fn find_work(ex: &Arc<Exec>, tid: usize) -> Option<(usize, bool)> {
    let own = tid.checked_sub(1).filter(|w| *w < ex.workers);
    if let Some(w) = own {
        if let Some(j) = ex.with(|wd| wd.deques[w].pop_back()) {
            return Some((j, false));
        }
    }
    let victims: Vec<usize> = ex.with(|wd| {
        let n = wd.deques.len();
        let base = own.unwrap_or(0);
        let mut v: Vec<usize> = (1..=n)
            .map(|d| (base + d) % n)
            .filter(|v| Some(*v) != own && !wd.deques[*v].is_empty())
            .collect();
        if !wd.injector.is_empty() {
            v.push(usize::MAX);
        }
        v
    });
    if victims.is_empty() {
        return None;
    }
    let v = victims[ex.choose(victims.len())];
    let j = ex.with(|wd| if v == usize::MAX { wd.injector.pop_front() } else { wd.deques[v].pop_front() });
    j.map(|j| (j, true))
}
fn execute(ex: &Arc<Exec>, j: usize, stolen: bool) {
    let f = ex.with(|w| w.jobs[j].take()).expect("job executed twice");
    f(stolen);
    ex.with(|w| w.done[j] = true);
}
fn wait_job(ex: &Arc<Exec>, tid: usize, j: usize, label: &'static str) {
    let worker = worker_of(ex, tid).is_some();
    loop {
        if ex.with(|w| w.done[j]) {
            return;
        }
        if !worker {
            ex.block_until(tid, label, Box::new(move |w| w.done[j]));
            return;
        }
        // a waiting worker keeps executing other tasks, like the real pool
        ex.block_until(tid, label, Box::new(move |w| w.done[j] || w.work_available()));
        if ex.with(|w| w.done[j]) {
            return;
        }
        if let Some((k, stolen)) = find_work(ex, tid) {
            execute(ex, k, stolen);
        }
    }
}
/// Erase the lifetime of a job; the caller waits for it before its borrows end.
unsafe fn erase<'a>(f: Box<dyn FnOnce(bool) + Send + 'a>) -> vsched::JobFn {
    std::mem::transmute(f)
}
struct SendPtr<T>(*mut T);
unsafe impl<T> Send for SendPtr<T> {}
impl<T> SendPtr<T> {
    fn get(&self) -> *mut T {
        self.0
    }
}

/// Run `op` on a pool worker of the controlled execution (the current one, or by injection).
fn in_worker<OP, R>(op: OP) -> R
where
    OP: FnOnce(&Arc<Exec>, usize, bool) -> R + Send,
    R: Send,
{
    let (ex, tid) = vsched::cur().expect("controlled");
    if worker_of(&ex, tid).is_some() {
        return op(&ex, tid, false);
    }
    let mut slot: Option<Result<R, Payload>> = None;
    let p = SendPtr(&mut slot as *mut _);
    let job: Box<dyn FnOnce(bool) + Send + '_> = Box::new(move |_| {
        let p = p;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let (ex, tid) = vsched::cur().expect("controlled");
            op(&ex, tid, true)
        }));
        unsafe { *p.get() = Some(r) };
    });
    let j = ex.with(|w| {
        let j = w.new_job(unsafe { erase(job) });
        w.injector.push_back(j);
        j
    });
    wait_job(&ex, tid, j, "waiting for injected work");
    match slot.unwrap() {
        Ok(r) => r,
        Err(e) => resume_unwind(e),
    }
}

// -------------------------------------------------------------------- join
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !vsched::controlled() {
        return in_pool_inline(|i, injected| match policy() {
            0 => {
                let ra = a(FnContext { migrated: injected });
                (ra, b(FnContext { migrated: injected }))
            }
            1 => {
                let ra = a(FnContext { migrated: injected });
                (ra, on_worker(thief(i), || b(FnContext { migrated: true })))
            }
            _ => {
                let rb = on_worker(thief(i), || b(FnContext { migrated: true }));
                (a(FnContext { migrated: injected }), rb)
            }
        });
    }
    in_worker(move |ex, tid, injected| {
        let w = tid - 1;
        let mut slot: Option<Result<RB, Payload>> = None;
        let p = SendPtr(&mut slot as *mut _);
        let job: Box<dyn FnOnce(bool) + Send + '_> = Box::new(move |stolen| {
            let p = p;
            let migrated = stolen || injected;
            let r = catch_unwind(AssertUnwindSafe(|| b(FnContext { migrated })));
            unsafe { *p.get() = Some(r) };
        });
        let j = ex.with(|wd| {
            let j = wd.new_job(unsafe { erase(job) });
            wd.deques[w].push_back(j);
            j
        });
        ex.point(tid, "join: task pushed");
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext { migrated: injected })));
        ex.point(tid, "join: first half finished");
        // pop our own task, or whatever else the deque holds, or help until it is done
        loop {
            if ex.with(|wd| wd.done[j]) {
                break;
            }
            match ex.with(|wd| wd.deques[w].pop_back()) {
                Some(k) => execute(ex, k, false),
                None => {
                    wait_job(ex, tid, j, "join: waiting for stolen half");
                    break;
                }
            }
        }
        match (ra, slot.unwrap()) {
            (Ok(ra), Ok(rb)) => (ra, rb),
            (Err(e), _) | (_, Err(e)) => resume_unwind(e),
        }
    })
}

// ------------------------------------------------------------------- scope
struct ScopeSt {
    jobs: Mutex<Vec<usize>>,
    panic: Mutex<Option<Payload>>,
    inline: Mutex<Vec<vsched::JobFn>>,
}
pub struct Scope<'scope> {
    st: Arc<ScopeSt>,
    _m: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
pub struct ScopeFifo<'scope> {
    inner: Scope<'scope>,
}
impl<'scope> fmt::Debug for Scope<'scope> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Scope")
    }
}
impl<'scope> fmt::Debug for ScopeFifo<'scope> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ScopeFifo")
    }
}
impl<'scope> Scope<'scope> {
    fn new() -> Self {
        Scope {
            st: Arc::new(ScopeSt {
                jobs: Mutex::new(vec![]),
                panic: Mutex::new(None),
                inline: Mutex::new(vec![]),
            }),
            _m: PhantomData,
        }
    }
    fn dup(&self) -> Self {
        Scope { st: self.st.clone(), _m: PhantomData }
    }
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        struct S<T>(T);
        unsafe impl<T> Send for S<T> {}
        let me = S(self.dup());
        let job: Box<dyn FnOnce(bool) + Send + 'scope> = Box::new(move |_| {
            let me = me;
            let sc = &me.0;
            if let Err(e) = catch_unwind(AssertUnwindSafe(|| body(sc))) {
                *sc.st.panic.lock().unwrap() = Some(e);
            }
        });
        let job = unsafe { erase(job) };
        match vsched::cur() {
            Some((ex, tid)) => {
                let w = worker_of(&ex, tid);
                let j = ex.with(|wd| {
                    let j = wd.new_job(job);
                    match w {
                        Some(w) => wd.deques[w].push_back(j),
                        None => wd.injector.push_back(j),
                    }
                    j
                });
                self.st.jobs.lock().unwrap().push(j);
                ex.point(tid, "scope: task spawned");
            }
            None => self.st.inline.lock().unwrap().push(job),
        }
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        let body = Arc::new(body);
        for i in 0..current_num_threads() {
            let body = body.clone();
            self.spawn(move |s| body(s, BroadcastContext { index: i, _m: PhantomData }));
        }
    }
    fn complete(&self) {
        match vsched::cur() {
            Some((ex, tid)) => loop {
                let next = self.st.jobs.lock().unwrap().pop();
                match next {
                    Some(j) => wait_job(&ex, tid, j, "scope: waiting for spawned tasks"),
                    None => break,
                }
            },
            None => loop {
                let job = {
                    let mut q = self.st.inline.lock().unwrap();
                    if q.is_empty() {
                        break;
                    }
                    // newest first (not stolen) or oldest first (stolen)
                    if policy() == 0 { q.pop().unwrap() } else { q.remove(0) }
                };
                job(false);
            },
        }
        if let Some(e) = self.st.panic.lock().unwrap().take() {
            resume_unwind(e)
        }
    }
}
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        self.inner.spawn(move |s| body(&ScopeFifo { inner: s.dup() }))
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&ScopeFifo<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        self.inner.spawn_broadcast(move |s, c| body(&ScopeFifo { inner: s.dup() }, c))
    }
}
fn run_scope<'scope, R>(op: impl FnOnce(&Scope<'scope>) -> R) -> R {
    let s = Scope::new();
    let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
    s.complete();
    match r {
        Ok(r) => r,
        Err(e) => resume_unwind(e),
    }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    if vsched::controlled() {
        in_worker(move |_, _, _| run_scope(op))
    } else {
        in_pool_inline(|_, _| run_scope(op))
    }
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    scope(move |s: &Scope<'scope>| op(&ScopeFifo { inner: s.dup() }))
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    run_scope(op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    run_scope(move |s: &Scope<'scope>| op(&ScopeFifo { inner: s.dup() }))
}

// ------------------------------------------------------------------- spawn
pub fn spawn<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    match vsched::cur() {
        Some((ex, tid)) => {
            let w = worker_of(&ex, tid);
            ex.with(|wd| {
                let j = wd.new_job(Box::new(move |_| f()));
                match w {
                    Some(w) => wd.deques[w].push_back(j),
                    None => wd.injector.push_back(j),
                }
            });
            ex.point(tid, "spawn");
        }
        None => in_pool_inline(|_, _| f()),
    }
}
pub fn spawn_fifo<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn(f)
}

// --------------------------------------------------------------- broadcast
pub struct BroadcastContext<'a> {
    index: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        current_num_threads()
    }
}
impl<'a> fmt::Debug for BroadcastContext<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "BroadcastContext({})", self.index)
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    let out: Vec<Mutex<Option<R>>> = (0..n).map(|_| Mutex::new(None)).collect();
    scope(|s| {
        for (i, o) in out.iter().enumerate() {
            let op = &op;
            s.spawn(move |_| {
                let r = op(BroadcastContext { index: i, _m: PhantomData });
                *o.lock().unwrap() = Some(r);
            });
        }
    });
    out.into_iter().map(|o| o.into_inner().unwrap().unwrap()).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    for i in 0..current_num_threads() {
        op(BroadcastContext { index: i, _m: PhantomData });
    }
}

// ------------------------------------------------------------- thread pools
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    let (ex, tid) = vsched::cur()?;
    worker_of(&ex, tid)?;
    ex.point(tid, "yield");
    Some(match find_work(&ex, tid) {
        Some((j, s)) => {
            execute(&ex, j, s);
            Yield::Executed
        }
        None => Yield::Idle,
    })
}
pub fn yield_local() -> Option<Yield> {
    let (ex, tid) = vsched::cur()?;
    let w = worker_of(&ex, tid)?;
    Some(match ex.with(|wd| wd.deques[w].pop_back()) {
        Some(j) => {
            execute(&ex, j, false);
            Yield::Executed
        }
        None => Yield::Idle,
    })
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("The global thread pool has already been initialized.")
    }
}
impl Error for ThreadPoolBuildError {}

pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "ThreadBuilder({})", self.index)
    }
}

#[derive(Debug, Default)]
pub struct ThreadPoolBuilder {
    n: usize,
}
static POOLS: AtomicUsize = AtomicUsize::new(0);
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Payload) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        POOLS.fetch_add(1, Ordering::Relaxed);
        Ok(ThreadPool { n: self.n })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
#[derive(Debug)]
pub struct ThreadPool {
    n: usize,
}
impl ThreadPool {
    fn workers(&self) -> usize {
        if self.n == 0 {
            vsched::inline().workers
        } else {
            self.n
        }
    }
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        if vsched::controlled() {
            return in_worker(move |_, _, _| op());
        }
        let old = vsched::inline();
        struct Restore(Inline);
        impl Drop for Restore {
            fn drop(&mut self) {
                vsched::set_inline(self.0)
            }
        }
        let _r = Restore(old);
        vsched::set_inline(Inline { workers: self.workers(), ..old });
        on_worker(old.first % self.workers(), op)
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        let op = &op;
        self.install(move || broadcast(|c| op(c)))
    }
    pub fn current_num_threads(&self) -> usize {
        self.workers()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope(op)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        in_place_scope_fifo(op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn spawn_broadcast<OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static>(&self, op: OP) {
        spawn_broadcast(op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}
