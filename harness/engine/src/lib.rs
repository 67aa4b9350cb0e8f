//! Stateless explicit enumeration of the executions of real code.
//!
//! A check is a body that calls `choose` wherever the behaviour can branch (configuration, input,
//! operation, random outcome, scheduling decision). The explorer runs the body once for every
//! possible sequence of answers (depth first, in parallel over the cores), so that when it
//! finishes without reaching its time limit the whole bounded space has been covered.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One resolved choice: `c` of `n`; deviation choices count against the deviation bound.
#[derive(Clone, Copy, Debug)]
pub struct Choice {
    pub n: u32,
    pub c: u32,
    pub dev: bool,
}

#[derive(Default)]
struct Ctl {
    prefix: Vec<u32>,
    trace: Vec<Choice>,
    scenario: String,
    states: Vec<u64>,
    steps: u64,
    notes: Vec<String>,
    noting: bool,
    dev_bound: u32,
    prune: bool,
}
thread_local! {
    static CTL: RefCell<Option<Ctl>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static QUIET: AtomicBool = AtomicBool::new(false);
static TIER: OnceLock<Tier> = OnceLock::new();

pub fn tier() -> Tier {
    *TIER.get_or_init(|| match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    })
}
/// `q` in the quick tier, `t` in the thorough one.
pub fn by_tier<T>(q: T, t: T) -> T {
    if tier() == Tier::Quick { q } else { t }
}

fn with<R>(f: impl FnOnce(&mut Ctl) -> R) -> R {
    CTL.with(|c| f(c.borrow_mut().as_mut().expect("no execution on this thread")))
}

fn choose_impl(n: usize, dev: bool) -> usize {
    assert!(n > 0, "empty choice");
    if n == 1 {
        return 0;
    }
    with(|c| {
        let pos = c.trace.len();
        let v = c.prefix.get(pos).copied().unwrap_or(0);
        let v = if (v as usize) < n { v } else { 0 };
        c.trace.push(Choice { n: n as u32, c: v, dev });
        v as usize
    })
}
/// Branch over `0..n`.
pub fn choose(n: usize) -> usize {
    choose_impl(n, false)
}
/// Branch over `0..n` where everything but 0 is a deviation (bounded by `set_dev_bound`).
pub fn choose_dev(n: usize) -> usize {
    choose_impl(n, true)
}
/// Branch over the elements of a slice.
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[choose(xs.len())].clone()
}
/// Maximum number of deviations in one execution (default: unlimited).
pub fn set_dev_bound(b: u32) {
    with(|c| c.dev_bound = b)
}
/// The answers still prescribed for this execution (used to hand over to another scheduler).
pub fn rest_prefix() -> Vec<u32> {
    with(|c| c.prefix.get(c.trace.len()..).unwrap_or(&[]).to_vec())
}
pub fn chosen() -> Vec<u32> {
    with(|c| c.trace.iter().map(|t| t.c).collect())
}
pub fn append_trace(t: &[(u16, u16)]) {
    with(|c| {
        c.trace.extend(t.iter().map(|(n, v)| Choice { n: *n as u32, c: *v as u32, dev: true }))
    })
}
/// Name the family of executions this one belongs to (counted in the evidence).
pub fn scenario(s: &str) {
    with(|c| c.scenario = s.to_string())
}
/// Record that an abstract state was reached.
pub fn state<T: Hash>(t: &T) {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    with(|c| {
        c.scenario.hash(&mut h);
        t.hash(&mut h);
        let v = h.finish();
        c.states.push(v)
    })
}
/// Record one checked transition of the real code.
pub fn step() {
    with(|c| c.steps += 1)
}
pub fn steps(n: u64) {
    with(|c| c.steps += n)
}
/// Record a line of the human-readable trace (kept for samples and replays only).
pub fn note(f: impl FnOnce() -> String) {
    let on = with(|c| c.noting);
    if on {
        let s = f();
        with(|c| c.notes.push(s))
    }
}

pub struct Violation(pub String);
/// The current execution violates the property.
pub fn fail(msg: String) -> ! {
    std::panic::panic_any(Violation(msg))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::fail(format!($($a)*)) } };
}
/// This execution is outside the stated space: end it without a verdict.
struct Skip;
pub fn skip() -> ! {
    std::panic::panic_any(Skip)
}

fn message(e: &(dyn Any + Send)) -> String {
    if let Some(v) = e.downcast_ref::<Violation>() {
        v.0.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        format!("panic: {s}")
    } else if let Some(s) = e.downcast_ref::<String>() {
        format!("panic: {s}")
    } else {
        "panic".to_string()
    }
}

/// Run `f`; Ok(value), or Err(panic message) when the code under test panicked.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) if e.is::<Violation>() || e.is::<Skip>() => resume_unwind(e),
        Err(e) => Err(LAST_PANIC.with(|l| {
            let l = l.borrow();
            if l.is_empty() { message(&*e) } else { l.clone() }
        })),
    }
}
/// `f` must finish without panicking.
pub fn must<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match attempt(f) {
        Ok(v) => v,
        Err(m) => fail(format!("{what}: {m}")),
    }
}
/// `f` must refuse (panic).
pub fn must_refuse<R>(what: &str, f: impl FnOnce() -> R) {
    if attempt(f).is_ok() {
        fail(format!("{what}: was accepted, must be refused"))
    }
}

// ------------------------------------------------------------------ the explorer
pub struct Check {
    pub id: &'static str,
    pub body: fn(),
    /// stated bounds, for the evidence
    pub bounds: fn() -> String,
    /// seconds one execution may take
    pub hang_s: u64,
}

struct Shared {
    stack: Mutex<(Vec<Vec<u32>>, usize)>, // pending prefixes, busy workers
    cv: Condvar,
    stop: AtomicBool,
    truncated: AtomicBool,
    execs: AtomicU64,
    steps: AtomicU64,
    skipped: AtomicU64,
    maxdepth: AtomicUsize,
    agg: Mutex<Agg>,
    inflight: Vec<Mutex<Option<(Instant, Vec<u32>)>>>,
}
#[derive(Default)]
struct Agg {
    states: HashSet<u64>,
    scen: BTreeMap<String, (u64, Vec<String>)>,
    known: BTreeMap<String, u64>,
    violation: Option<(String, Vec<u32>, Vec<String>, String)>,
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn run_one(body: fn(), prefix: Vec<u32>, noting: bool) -> (Result<(), Option<String>>, Ctl) {
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    CTL.with(|c| {
        *c.borrow_mut() = Some(Ctl { prefix, noting, dev_bound: u32::MAX, ..Default::default() })
    });
    let r = catch_unwind(AssertUnwindSafe(body));
    let ctl = CTL.with(|c| c.borrow_mut().take().unwrap());
    let r = match r {
        Ok(()) => Ok(()),
        Err(e) if e.is::<Skip>() => Err(None),
        Err(e) => {
            let m = if e.is::<Violation>() {
                message(&*e)
            } else {
                let l = LAST_PANIC.with(|l| l.borrow().clone());
                format!("unexpected {}", if l.is_empty() { message(&*e) } else { l })
            };
            Err(Some(m))
        }
    };
    (r, ctl)
}

fn worker(sh: &Shared, chk: &Check, wid: usize, known: &[(String, String)]) {
    let mut local_states: HashSet<u64> = HashSet::new();
    let inflight_path = root().join("replays").join(format!("{}.inflight.{wid}", chk.id));
    let mut inflight_file = std::fs::File::create(&inflight_path).ok();
    loop {
        let prefix = {
            let mut g = sh.stack.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    drop(g);
                    sh.agg.lock().unwrap().states.extend(local_states.drain());
                    let _ = std::fs::remove_file(&inflight_path);
                    return;
                }
                if let Some(p) = g.0.pop() {
                    g.1 += 1;
                    break p;
                }
                if g.1 == 0 {
                    sh.stop.store(true, Ordering::Relaxed);
                    sh.cv.notify_all();
                    continue;
                }
                g = sh.cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
            }
        };
        if let Some(f) = inflight_file.as_mut() {
            use std::os::unix::fs::FileExt;
            let s = format!("{}\n", join(&prefix));
            let _ = f.write_at(s.as_bytes(), 0);
        }
        *sh.inflight[wid].lock().unwrap() = Some((Instant::now(), prefix.clone()));
        let n = sh.execs.fetch_add(1, Ordering::Relaxed);
        let noting = n < 4 || n.is_power_of_two() || n % 4096 == 0;
        let plen = prefix.len();
        let (r, mut ctl) = run_one(chk.body, prefix, noting);
        *sh.inflight[wid].lock().unwrap() = None;
        sh.steps.fetch_add(ctl.steps, Ordering::Relaxed);
        sh.maxdepth.fetch_max(ctl.trace.len(), Ordering::Relaxed);
        local_states.extend(ctl.states.drain(..));
        {
            let mut a = sh.agg.lock().unwrap();
            if local_states.len() > 100_000 {
                a.states.extend(local_states.drain());
            }
            let e = a.scen.entry(ctl.scenario.clone()).or_default();
            e.0 += 1;
            if !ctl.notes.is_empty() && e.1.len() < 1 && r.is_ok() {
                e.1.push(ctl.notes.join(" | "));
            }
            match &r {
                Ok(()) => {}
                Err(None) => {
                    sh.skipped.fetch_add(1, Ordering::Relaxed);
                    e.0 -= 1;
                }
                Err(Some(m)) => {
                    let full = format!("[{}] {m}", ctl.scenario);
                    if let Some((_, d)) = known.iter().find(|(k, _)| full.contains(k.as_str())) {
                        *a.known.entry(d.clone()).or_default() += 1;
                    } else if a.violation.is_none() {
                        let t = ctl.trace.iter().map(|t| t.c).collect();
                        a.violation = Some((m.clone(), t, ctl.notes.clone(), ctl.scenario.clone()));
                        sh.stop.store(true, Ordering::Relaxed);
                    }
                }
            }
        }
        let mut g = sh.stack.lock().unwrap();
        g.1 -= 1;
        if !ctl.prune {
            let mut devs = ctl.trace[..plen.min(ctl.trace.len())]
                .iter()
                .filter(|t| t.dev && t.c != 0)
                .count() as u32;
            for pos in plen..ctl.trace.len() {
                let t = ctl.trace[pos];
                if !t.dev || devs < ctl.dev_bound {
                    for alt in (0..t.n).rev().filter(|a| *a != t.c) {
                        let mut p: Vec<u32> = ctl.trace[..pos].iter().map(|t| t.c).collect();
                        p.push(alt);
                        g.0.push(p);
                    }
                }
                if t.dev && t.c != 0 {
                    devs += 1;
                }
            }
        }
        drop(g);
        sh.cv.notify_all();
    }
}

fn join(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn cut(s: &str, max: usize) -> String {
    let n = s.chars().count();
    if n <= max {
        return s.into();
    }
    // the end often names what differs
    let head: String = s.chars().take(max / 2).collect();
    let tail: String = s.chars().skip(n - max / 2).collect();
    format!("{head} ... ({n} characters) ... {tail}")
}

/// Report a violation and end the process (also callable from scheduler threads).
pub fn report(id: &str, msg: &str, trace: &[u32], notes: &[String], scen: &str) -> ! {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let msg = &cut(msg, 4000);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (msg, trace).hash(&mut h);
    let p = dir.join(format!("{id}-{:016x}.replay", h.finish()));
    let mut s = String::new();
    let t = if tier() == Tier::Quick { "quick" } else { "thorough" };
    let _ = writeln!(s, "property {id}\ntier {t}\ntrace {}\nscenario {scen}", join(trace));
    let _ = writeln!(s, "message {}", msg.replace('\n', " / "));
    for n in notes {
        let _ = writeln!(s, "note {}", cut(n, 4000));
    }
    let _ = writeln!(s, "# replay: cd /verif && bash check.sh {id} --replay {}", p.display());
    let _ = std::fs::write(&p, s);
    println!("{id}: {}", msg.replace('\n', " / "));
    println!("  scenario: {scen}; choices: {}", join(trace));
    println!("VIOLATION property={id} replay={}", p.display());
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    // "known: property=<id> match=<text> :: <what fails>"
    let f = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let pre = format!("known: property={id} match=");
    f.lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .filter_map(|l| l.split_once(" :: "))
        .map(|(a, b)| (a.trim().to_string(), b.trim().to_string()))
        .collect()
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let m = format!("panic at {loc}: {m}");
        if !QUIET.load(Ordering::Relaxed) {
            eprintln!("{m}");
        }
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = m);
    }));
}

fn supervise(id: &str) -> ! {
    // the exploration runs in a child so that a crash of the code under test is a verdict too
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(exe)
        .args(std::env::args_os().skip(1))
        .env("MC_CHILD", "1")
        .status()
        .expect("cannot start the checker");
    if let Some(c) = st.code() {
        std::process::exit(if c == 0 || c == 1 { c } else { 2 });
    }
    let sig = st.signal().unwrap_or(0);
    if [4, 6, 7, 8, 11].contains(&sig) {
        let mut cases = vec![];
        let mut first: Vec<u32> = vec![];
        for k in 0..256 {
            let p = root().join("replays").join(format!("{id}.inflight.{k}"));
            if let Ok(s) = std::fs::read_to_string(&p) {
                let l = s.lines().next().unwrap_or("").to_string();
                if first.is_empty() {
                    first = l.split(',').filter_map(|x| x.parse().ok()).collect();
                }
                cases.push(format!("in flight: {l}"));
                let _ = std::fs::remove_file(&p);
            }
        }
        report(id, &format!("the process was killed by signal {sig}"), &first, &cases, "crash");
    }
    eprintln!("checker killed by signal {sig}");
    std::process::exit(2)
}

pub fn replay_file(p: &Path) -> Vec<u32> {
    let s = std::fs::read_to_string(p).expect("replay file");
    s.lines()
        .find_map(|l| l.strip_prefix("trace "))
        .unwrap_or("")
        .split(',')
        .filter_map(|x| x.trim().parse().ok())
        .collect()
}

/// Entry point: `<ID> [--replay FILE]`.
pub fn main(checks: &[Check]) {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let chk = match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {id:?}");
            std::process::exit(2)
        }
    };
    let _ = std::fs::create_dir_all(root().join("replays"));
    let _ = std::fs::create_dir_all(root().join("evidence"));
    if args.get(2).map(|s| s.as_str()) == Some("--replay") {
        install_hook();
        let trace = replay_file(Path::new(&args[3]));
        let (r, ctl) = run_one(chk.body, trace, true);
        println!("scenario: {}", ctl.scenario);
        for n in &ctl.notes {
            println!("  {n}");
        }
        match r {
            Err(Some(m)) => {
                let t: Vec<u32> = ctl.trace.iter().map(|t| t.c).collect();
                report(chk.id, &m, &t, &ctl.notes, &ctl.scenario)
            }
            _ => println!("replay: the property held"),
        }
        return;
    }
    if std::env::var_os("MC_CHILD").is_none() && std::env::var_os("MC_NOFORK").is_none() {
        supervise(&id);
    }
    QUIET.store(true, Ordering::Relaxed);
    install_hook();
    let t0 = Instant::now();
    let limit = std::env::var("MC_LIMIT_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(by_tier(300u64, 780));
    let jobs = std::env::var("MC_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
    });
    let sh = Shared {
        stack: Mutex::new((vec![vec![]], 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        truncated: AtomicBool::new(false),
        execs: AtomicU64::new(0),
        steps: AtomicU64::new(0),
        skipped: AtomicU64::new(0),
        maxdepth: AtomicUsize::new(0),
        agg: Mutex::new(Agg::default()),
        inflight: (0..jobs).map(|_| Mutex::new(None)).collect(),
    };
    let known = known_findings(chk.id);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..jobs {
            let (sh, known) = (&sh, &known);
            let b = std::thread::Builder::new().stack_size(64 << 20);
            hs.push(b.spawn_scoped(s, move || worker(sh, chk, w, known)).unwrap());
        }
        while !hs.iter().all(|h| h.is_finished()) {
            std::thread::sleep(Duration::from_millis(20));
            if t0.elapsed().as_secs() > limit && !sh.stop.load(Ordering::Relaxed) {
                sh.truncated.store(true, Ordering::Relaxed);
                sh.stop.store(true, Ordering::Relaxed);
            }
            for f in &sh.inflight {
                if let Some((st, p)) = &*f.lock().unwrap() {
                    if st.elapsed().as_secs() > chk.hang_s {
                        for w in 0..jobs {
                            let _ = std::fs::remove_file(
                                root().join("replays").join(format!("{}.inflight.{w}", chk.id)),
                            );
                        }
                        report(
                            chk.id,
                            &format!("an execution did not finish within {} s", chk.hang_s),
                            p,
                            &[],
                            "hang",
                        )
                    }
                }
            }
        }
    });
    let agg = sh.agg.into_inner().unwrap();
    if let Some((m, t, notes, scen)) = &agg.violation {
        // rerun with notes for the report
        let notes = if notes.is_empty() {
            run_one(chk.body, t.clone(), true).1.notes
        } else {
            notes.clone()
        };
        write_evidence(chk, &agg, &sh.execs, &sh.steps, &sh.skipped, &sh.maxdepth, false, t0, 1);
        report(chk.id, m, t, &notes, scen)
    }
    let complete = !sh.truncated.load(Ordering::Relaxed);
    write_evidence(chk, &agg, &sh.execs, &sh.steps, &sh.skipped, &sh.maxdepth, complete, t0, 0);
    for (d, n) in &agg.known {
        println!("KNOWN-FINDING: property={} {d} ({n} executions)", chk.id);
    }
    println!(
        "{}: held on {} executions ({} skipped), {} states, {} transitions, {} in {:.1} s",
        chk.id,
        sh.execs.load(Ordering::Relaxed),
        sh.skipped.load(Ordering::Relaxed),
        agg.states.len(),
        sh.steps.load(Ordering::Relaxed),
        if complete { "space exhausted" } else { "TIME LIMIT reached" },
        t0.elapsed().as_secs_f64()
    );
    for (s, (n, _)) in &agg.scen {
        println!("    {s}: {n}");
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    chk: &Check,
    agg: &Agg,
    execs: &AtomicU64,
    steps: &AtomicU64,
    skipped: &AtomicU64,
    depth: &AtomicUsize,
    complete: bool,
    t0: Instant,
    violations: u32,
) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut samples: Vec<String> = vec![];
    let mut scen = vec![];
    for (s, (n, sm)) in &agg.scen {
        scen.push(format!("{}: {n}", esc(s)));
        for x in sm {
            if samples.len() < 40 {
                let x: String = x.chars().take(700).collect();
                samples.push(esc(&format!("{s}: {x}")));
            }
        }
    }
    let execs = execs.load(Ordering::Relaxed);
    let skipped = skipped.load(Ordering::Relaxed);
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"samples\": [\n   {}\n  ],\n  \"exhaustive\": {},\n  \"outside_space\": {skipped},\n  \"longest_choice_sequence\": {},\n  \"executions_by_scenario\": {{{}}},\n  \"explanation\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n",
        esc(chk.id),
        esc(if tier() == Tier::Quick { "quick" } else { "thorough" }),
        agg.states.len(),
        steps.load(Ordering::Relaxed),
        execs - skipped,
        samples.join(",\n   "),
        complete,
        depth.load(Ordering::Relaxed),
        scen.join(", "),
        esc(&format!(
            "Every execution runs the real code of /repo in lock step with the model, for every sequence of choices within these bounds: {}. states: distinct abstract states (scenario, configuration, model state) reached; transitions: operations of the real code whose outcome was compared with the model; traces_validated_against_impl: complete executions.",
            (chk.bounds)()
        )),
        esc("randomness other than the enumerated draws (keys, masks, errors) is the deterministic stream of secure_seed=false unless the scenario says otherwise"),
        t0.elapsed().as_secs_f64()
    );
    let _ = std::fs::write(root().join("evidence").join(format!("{}.json", chk.id)), j);
}
