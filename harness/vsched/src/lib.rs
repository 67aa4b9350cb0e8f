//! Controlled scheduler used by the patched `rayon-core` and by the `vsync` shims.
//!
//! *Inline mode* (default): no controlled execution on this thread; the patched rayon-core runs
//! everything sequentially on the calling thread with a configurable worker numbering.
//!
//! *Controlled mode*: `run` creates one client thread (tid 0, the caller) and W worker threads
//! (tid 1..=W). Exactly one of them holds the token. Every scheduling point asks the explorer
//! which enabled thread runs next; the default (choice 0) depends on the baseline, every other
//! choice is a deviation.
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, VecDeque};
use std::sync::{Arc, Condvar, Mutex, MutexGuard, OnceLock};

// ---------------------------------------------------------------- inline mode
#[derive(Clone, Copy, Debug)]
pub struct Inline {
    /// number of (virtual) pool workers; also reported as the maximum
    pub workers: usize,
    /// 0: a then b on the same worker; 1: b runs "stolen" on the next worker after a;
    /// 2: b runs "stolen" on the next worker before a
    pub policy: u8,
    /// worker on which work injected from outside the pool starts
    pub first: usize,
}
thread_local! {
    static INLINE: Cell<Inline> = Cell::new(default_inline());
    static IDX: Cell<Option<usize>> = const { Cell::new(None) };
    static CUR: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
    static ORD: RefCell<Option<Box<dyn FnMut(usize) -> usize>>> = const { RefCell::new(None) };
}
/// The experiment program is told its pool behaviour in VERIF_POOL=workers,policy,first.
fn default_inline() -> Inline {
    let v: Vec<usize> = std::env::var("VERIF_POOL").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect();
    match v[..] {
        [w, p, f] if w > 0 && p < 3 && f < w => Inline { workers: w, policy: p as u8, first: f },
        _ => Inline { workers: 8, policy: 0, first: 0 },
    }
}
pub fn set_inline(c: Inline) {
    INLINE.with(|i| i.set(c));
}
pub fn inline() -> Inline {
    INLINE.with(|i| i.get())
}
pub fn inline_index() -> Option<usize> {
    IDX.with(|i| i.get())
}
/// Source of inline-mode scheduling choices (0: as the policy says; else task order), if any.
pub fn set_order_source(f: Option<Box<dyn FnMut(usize) -> usize>>) {
    ORD.with(|o| *o.borrow_mut() = f);
}
pub fn order_choice(n: usize) -> Option<usize> {
    ORD.with(|o| o.borrow_mut().as_mut().map(|f| f(n)))
}
pub fn set_inline_index(v: Option<usize>) -> Option<usize> {
    IDX.with(|i| i.replace(v))
}

// ------------------------------------------------------------ controlled mode
pub type JobFn = Box<dyn FnOnce(bool) + Send>;
pub type Pred = Box<dyn Fn(&World) -> bool + Send>;

#[derive(Default, Clone, Debug)]
pub struct LockSt {
    pub writer: Option<usize>,
    pub readers: usize,
    pub waiting_writers: usize,
}

/// Everything threads can wait for.
#[derive(Default)]
pub struct World {
    pub deques: Vec<VecDeque<usize>>, // per worker (0-based); back = newest
    pub injector: VecDeque<usize>,
    pub jobs: Vec<Option<JobFn>>,
    pub done: Vec<bool>,
    pub locks: HashMap<usize, LockSt>,
    pub flags: HashMap<usize, u64>,
    pub shutdown: bool,
}
impl World {
    pub fn work_available(&self) -> bool {
        !self.injector.is_empty() || self.deques.iter().any(|d| !d.is_empty())
    }
    pub fn lock_mut(&mut self, id: usize) -> &mut LockSt {
        self.locks.entry(id).or_default()
    }
    pub fn is_write_free(&self, id: usize) -> bool {
        self.locks.get(&id).map_or(true, |l| l.writer.is_none() && l.readers == 0)
    }
    pub fn is_read_free(&self, id: usize) -> bool {
        self.locks.get(&id).map_or(true, |l| l.writer.is_none() && l.waiting_writers == 0)
    }
    pub fn new_job(&mut self, f: JobFn) -> usize {
        self.jobs.push(Some(f));
        self.done.push(false);
        self.jobs.len() - 1
    }
}

enum Status {
    Ready,
    Blocked(Pred),
    Done,
}
struct Th {
    status: Status,
    label: &'static str,
    cv: Arc<Condvar>,
}
struct State {
    world: World,
    threads: Vec<Th>,
    current: usize,
    trace: Vec<(u16, u16)>,
    points: usize,
    switches: usize,
}
pub struct Exec {
    st: Mutex<State>,
    pub workers: usize,
    baseline: u8,
    prefix: Vec<u16>,
    max_points: usize,
    pub meta: String,
}

pub struct Outcome<R> {
    pub result: R,
    pub trace: Vec<(u16, u16)>,
    pub points: usize,
    pub switches: usize,
}

type FailFn = fn(&str, &str, &[(u16, u16)]) -> !;
static FAIL: OnceLock<FailFn> = OnceLock::new();
/// `f(meta, message, trace)` is called, and must not return, when an execution deadlocks.
pub fn set_fail(f: FailFn) {
    let _ = FAIL.set(f);
}

pub fn cur() -> Option<(Arc<Exec>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}
pub fn controlled() -> bool {
    CUR.try_with(|c| c.borrow().is_some()).unwrap_or(false)
}

impl Exec {
    fn fail(&self, st: &State, msg: String) -> ! {
        match FAIL.get() {
            Some(f) => f(&self.meta, &msg, &st.trace),
            None => {
                eprintln!("vsched failure: {msg}");
                std::process::exit(101)
            }
        }
    }

    fn pick(&self, st: &mut State, me: usize) -> usize {
        st.points += 1;
        if st.points > self.max_points {
            self.fail(st, format!("no termination within {} scheduling points", self.max_points));
        }
        let n = st.threads.len();
        let mut enabled: Vec<usize> = vec![];
        let en = |st: &State, t: usize| match &st.threads[t].status {
            Status::Ready => true,
            Status::Blocked(p) => p(&st.world),
            Status::Done => false,
        };
        let me_en = en(st, me);
        if self.baseline == 0 && me_en {
            enabled.push(me);
        }
        for d in 1..n {
            // baseline 2 walks the threads downwards
            let t = if self.baseline == 2 { (me + n - d) % n } else { (me + d) % n };
            if en(st, t) {
                enabled.push(t);
            }
        }
        if self.baseline != 0 && me_en {
            enabled.push(me);
        }
        if enabled.is_empty() {
            let who: Vec<String> = st
                .threads
                .iter()
                .enumerate()
                .filter(|(_, t)| !matches!(t.status, Status::Done))
                .map(|(i, t)| format!("thread {i} waits at {}", t.label))
                .collect();
            self.fail(st, format!("deadlock: {}", who.join("; ")));
        }
        let c = self.choose_locked(st, enabled.len());
        let next = enabled[c];
        if next != me {
            st.switches += 1;
        }
        next
    }

    fn choose_locked(&self, st: &mut State, n: usize) -> usize {
        if n <= 1 || st.world.shutdown {
            return 0;
        }
        let pos = st.trace.len();
        let c = *self.prefix.get(pos).unwrap_or(&0) as usize;
        let c = if c < n { c } else { 0 };
        st.trace.push((n as u16, c as u16));
        c
    }

    /// A data choice (e.g. the victim of a steal).
    pub fn choose(&self, n: usize) -> usize {
        let mut st = self.st.lock().unwrap();
        self.choose_locked(&mut st, n)
    }

    fn switch(&self, mut st: MutexGuard<State>, me: usize) {
        let next = self.pick(&mut st, me);
        if next != me {
            st.current = next;
            st.threads[next].cv.notify_one();
            let cv = st.threads[me].cv.clone();
            while st.current != me {
                st = cv.wait(st).unwrap();
            }
        }
        st.threads[me].status = Status::Ready;
    }

    /// Scheduling point: the calling thread stays enabled.
    pub fn point(&self, me: usize, label: &'static str) {
        let mut st = self.st.lock().unwrap();
        debug_assert_eq!(st.current, me);
        st.threads[me].status = Status::Ready;
        st.threads[me].label = label;
        self.switch(st, me);
    }

    /// Wait until `pred` holds (no scheduling point when it already does).
    pub fn block_until(&self, me: usize, label: &'static str, pred: Pred) {
        let mut st = self.st.lock().unwrap();
        if pred(&st.world) {
            return;
        }
        st.threads[me].status = Status::Blocked(pred);
        st.threads[me].label = label;
        self.switch(st, me);
    }

    /// Access the shared world (the caller holds the token).
    pub fn with<R>(&self, f: impl FnOnce(&mut World) -> R) -> R {
        f(&mut self.st.lock().unwrap().world)
    }

    /// Add a controlled thread that runs `f`; returns its tid.
    pub fn spawn_thread(self: &Arc<Self>, f: Box<dyn FnOnce() + Send>) -> (usize, std::thread::JoinHandle<()>) {
        let tid = {
            let mut st = self.st.lock().unwrap();
            st.threads.push(Th { status: Status::Ready, label: "start", cv: Arc::new(Condvar::new()) });
            st.threads.len() - 1
        };
        let ex = self.clone();
        let h = std::thread::spawn(move || {
            ex.enter(tid);
            f();
            ex.leave(tid);
        });
        (tid, h)
    }

    pub fn thread_done(&self, tid: usize) -> bool {
        matches!(self.st.lock().unwrap().threads[tid].status, Status::Done)
    }

    fn enter(self: &Arc<Self>, tid: usize) {
        CUR.with(|c| *c.borrow_mut() = Some((self.clone(), tid)));
        let mut st = self.st.lock().unwrap();
        let cv = st.threads[tid].cv.clone();
        while st.current != tid {
            st = cv.wait(st).unwrap();
        }
        st.threads[tid].status = Status::Ready;
    }

    fn leave(self: &Arc<Self>, tid: usize) {
        CUR.with(|c| *c.borrow_mut() = None);
        let mut st = self.st.lock().unwrap();
        st.threads[tid].status = Status::Done;
        st.world.flags.insert(usize::MAX - tid, 1);
        let next = self.pick(&mut st, tid);
        st.current = next;
        st.threads[next].cv.notify_one();
    }
}

/// flag set in `World::flags` when controlled thread `tid` has finished
pub fn done_flag(tid: usize) -> usize {
    usize::MAX - tid
}

/// Run `client` under the controlled scheduler with `workers` pool workers whose main loop is
/// `worker_main(exec, tid)`.
pub fn run<R>(
    workers: usize,
    baseline: u8,
    prefix: Vec<u16>,
    max_points: usize,
    meta: String,
    worker_main: fn(&Arc<Exec>, usize),
    client: impl FnOnce() -> R,
) -> Outcome<R> {
    assert!(!controlled());
    let mut world = World::default();
    world.deques = (0..workers).map(|_| VecDeque::new()).collect();
    let mk = |s| Th { status: s, label: "start", cv: Arc::new(Condvar::new()) };
    let mut threads = vec![mk(Status::Ready)];
    for _ in 0..workers {
        threads.push(mk(Status::Blocked(Box::new(|w: &World| w.shutdown || w.work_available()))));
    }
    let ex = Arc::new(Exec {
        st: Mutex::new(State { world, threads, current: 0, trace: vec![], points: 0, switches: 0 }),
        workers,
        baseline,
        prefix,
        max_points,
        meta,
    });
    let handles: Vec<_> = (1..=workers)
        .map(|tid| {
            let ex = ex.clone();
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    ex.enter(tid);
                    worker_main(&ex, tid);
                    ex.leave(tid);
                })
                .unwrap()
        })
        .collect();
    CUR.with(|c| *c.borrow_mut() = Some((ex.clone(), 0)));
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(client));
    // shut the workers down; from here on scheduling is no longer part of the exploration
    ex.with(|w| w.shutdown = true);
    ex.block_until(
        0,
        "shutdown",
        Box::new(move |w| (1..=workers).all(|t| w.flags.contains_key(&done_flag(t)))),
    );
    CUR.with(|c| *c.borrow_mut() = None);
    for h in handles {
        let _ = h.join();
    }
    let st = ex.st.lock().unwrap();
    let (trace, points, switches) = (st.trace.clone(), st.points, st.switches);
    drop(st);
    match result {
        Ok(result) => Outcome { result, trace, points, switches },
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// The trace of the running execution so far (for error reports).
pub fn current_trace() -> Vec<(u16, u16)> {
    cur().map(|(e, _)| e.st.lock().unwrap().trace.clone()).unwrap_or_default()
}
