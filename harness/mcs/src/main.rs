//! C04: the real server operations under every bounded schedule of the worker pool.
#![allow(dead_code, unused_imports)]
#[path = "../../mc/src/common.rs"]
mod common;
mod seed;
use common::*;
use panacea::oram::{setup_random_oram, Client, ClientQuery, Server};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Call {
    OneR(usize),
    OneW(usize),
    /// (item, write)
    Multi(&'static [(usize, bool)]),
    Batch(&'static [usize], bool),
}
use Call::*;

/// name, (h, items, rows, cols), calls, gadget (b, l)
type Scen = (&'static str, (usize, usize, usize, usize), &'static [Call], (usize, usize));

const L1: (usize, usize) = (19, 1); // one column only
const L3: (usize, usize) = (12, 3);
const L4: (usize, usize) = (9, 4);

fn scens() -> Vec<Scen> {
    let mut v: Vec<Scen> = vec![
        ("process_one read, 1 column", (1, 1, 1, 1), &[OneR(0)], L1),
        ("process_one write, 1 column", (1, 1, 1, 1), &[OneW(0)], L3),
        ("process_one read, 2 columns", (1, 2, 1, 2), &[OneR(1)], L4),
        ("process_one write, 2 columns", (1, 2, 1, 2), &[OneW(0)], L3),
        ("process_one write, 4 columns", (1, 4, 1, 4), &[OneW(2)], L3),
        ("process_multi of nothing", (1, 2, 1, 2), &[Multi(&[])], L3),
        ("process_multi of one query", (1, 2, 1, 2), &[Multi(&[(1, true)])], L3),
        ("process_multi read and write of one item", (1, 2, 1, 2), &[Multi(&[(1, true), (1, false)])], L3),
        ("process_multi two writes of one item", (1, 2, 1, 2), &[Multi(&[(0, true), (0, true)])], L3),
        ("process_multi three queries", (1, 4, 1, 4), &[Multi(&[(0, true), (3, true), (0, false)])], L3),
        ("process_batch write, 2x2", (2, 2, 2, 2), &[Batch(&[0, 1], true)], L3),
        ("process_batch read, 2x2", (2, 2, 2, 2), &[Batch(&[1], false)], L3),
        ("process_batch write, 3x1, three copies", (3, 1, 3, 1), &[Batch(&[0], true)], L1),
        ("process_batch write, 4x1, two copies", (2, 2, 4, 1), &[Batch(&[0, 1], true)], L1),
        ("write then read", (1, 2, 1, 2), &[OneW(1), OneR(1)], L3),
        ("batch write then batch read", (2, 2, 2, 2), &[Batch(&[1, 0], true), Batch(&[0, 1], false)], L3),
    ];
    if tier() == Tier::Thorough {
        v.extend::<Vec<Scen>>(vec![
            ("process_one write, 8 columns", (1, 8, 1, 8), &[OneW(5)], L3),
            ("process_multi four writes", (1, 4, 1, 4), &[Multi(&[(0, true), (1, true), (0, true), (2, true)])], L3),
            ("process_batch write, 3x2", (3, 2, 3, 2), &[Batch(&[0, 1], true)], L3),
            ("process_batch write, 4x2", (2, 4, 4, 2), &[Batch(&[0, 1, 2], true)], L3),
            ("multi, then one, then multi", (1, 2, 1, 2), &[Multi(&[(0, true)]), OneW(1), Multi(&[(0, false), (1, false)])], L3),
        ]);
    }
    v
}

/// In place of a baseline: no controlled schedule, the tasks run one after the other on virtual
/// workers as `pool` says.
const INLINE: u8 = 9;
fn run<R>(workers: usize, baseline: u8, f: impl FnOnce() -> R) -> Result<R, String> {
    if baseline == INLINE {
        step();
        return attempt(f);
    }
    let meta = chosen().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let prefix: Vec<u16> = rest_prefix().iter().map(|x| *x as u16).collect();
    let o = vsched::run(workers, baseline, prefix, 200_000, meta, rayon_core::worker_main, || attempt(f));
    append_trace(&o.trace);
    steps(o.points as u64);
    note(|| format!("{} scheduling points, {} context switches", o.points, o.switches));
    o.result
}

fn c04() {
    let all = scens();
    let si = choose(all.len() + 2);
    if si > all.len() {
        return two_servers();
    }
    let big = si == all.len();
    let (name, (h, n, rows, cols), calls, (b, l)) = if big { pick(&all) } else { all[si].clone() };
    scenario(if big { "pools of any size" } else { name });
    let workers = if big { pick(&[5usize, 8, 9, 16, 17, 33, 64, 65, 129, 257, 600]) } else { 1 + choose(by_tier(3, 4)) };
    let baseline = if big { INLINE } else if workers == 1 { pick(&[0u8, 1]) } else { choose(3) as u8 };
    let small = calls.len() == 1 && rows * cols <= 2;
    set_dev_bound(match (tier(), calls.len()) {
        (Tier::Quick, 1) => 2,
        (Tier::Quick, _) => 1,
        (Tier::Thorough, 1) => if small && workers <= 2 { 3 } else { 2 },
        (Tier::Thorough, _) => if workers <= 2 { 2 } else { 1 },
    });
    let c = cfg(8, b, l, 5, 11, 4, 14, 2);
    if big {
        // every steal pattern, starting on the first, a middle and the last worker
        let policy = choose(3) as u8;
        pool(workers, policy, pick(&[0, workers / 2, workers - 1]));
    } else {
        pool(workers, 0, 0);
    }
    // tables that put the batch items into different rows: any; one where the copies of two
    // items are in the same rows in opposite order; one where two copies share a row
    let layout = if h >= 2 && n >= 2 && calls.iter().any(|k| matches!(k, Batch(..))) { choose(3) } else { 0 };
    let hash = (1..500).map(|s| fixed_hash(h, n, s)).find(|hash| {
        let row = |k: usize, i: usize| hash.hash(k, i) / cols;
        let opposite = (0..n).any(|i| (0..i).any(|j| (0..h).any(|k| (0..k).any(|l| row(k, i) == row(l, j) && row(l, i) == row(k, j) && row(k, i) != row(l, i)))));
        let shared = (0..n).any(|i| (0..h).any(|k| (0..k).any(|l| row(k, i) == row(l, i))));
        let fits = match layout {
            0 => true,
            1 => opposite,
            _ => shared && !opposite,
        };
        fits && calls.iter().all(|k| match k {
            Batch(items, _) => attempt(|| hash.hash_to_mapping(items, cols)).is_ok(),
            _ => true,
        })
    });
    let hash = hash.unwrap_or_else(|| skip());
    let (mut client, mut server, pts) =
        must("setup_random_oram", || setup_random_oram(rows, cols, &hash, c.params()));
    let mut model: Vec<Vec<u64>> = pts.iter().map(vals).collect();
    note(|| format!("{workers} workers, baseline {baseline}, table {:?}", table(&hash)));
    for (k, call) in calls.iter().enumerate() {
        let val = |j: usize| pattern(c.n, 2, 5 + 10 * k as u64 + j as u64);
        // responses and the value each must decrypt to
        let mut want: Vec<(usize, Vec<u64>)> = vec![];
        let ys: Result<Vec<RLWECiphertext>, String> = match call {
            OneR(i) | OneW(i) => {
                let q = if let OneW(_) = call {
                    client.gen_write_query_one(*i, &pt(&val(0)), &hash)
                } else {
                    client.gen_read_query_one(*i, &hash)
                };
                want.push((0, model[*i].clone()));
                if let OneW(_) = call {
                    model[*i] = val(0)
                }
                run(workers, baseline, || vec![server.process_one(q).0])
            }
            Multi(qs) => {
                let q: Vec<ClientQuery> = qs
                    .iter()
                    .enumerate()
                    .map(|(j, (i, w))| {
                        if *w {
                            client.gen_write_query_one(*i, &pt(&val(j)), &hash)
                        } else {
                            client.gen_read_query_one(*i, &hash)
                        }
                    })
                    .collect();
                want = qs.iter().enumerate().map(|(j, (i, _))| (j, model[*i].clone())).collect();
                for (j, (i, w)) in qs.iter().enumerate() {
                    if *w {
                        model[*i] = val(j)
                    }
                }
                run(workers, baseline, || server.process_multi(q).0)
            }
            Batch(items, w) => {
                let q = if *w {
                    client.gen_write_query_batch(items, &pt(&val(0)), &hash)
                } else {
                    client.gen_read_query_batch(items, &hash)
                };
                for (r, (_, i)) in hash.hash_to_mapping(items, cols) {
                    want.push((r, model[i].clone()))
                }
                if *w {
                    items.iter().for_each(|i| model[*i] = val(0))
                }
                run(workers, baseline, || server.process_batch(q, &hash).0)
            }
        };
        let ys = ys.unwrap_or_else(|m| fail(format!("call {k} {call:?} with {workers} workers: {m}")));
        for (j, v) in want {
            ensure!(j < ys.len(), "call {k} {call:?}: only {} responses", ys.len());
            let got = decode(&client.sk, &ys[j], &client.ctx);
            ensure!(got == v, "call {k} {call:?} with {workers} workers: response {j} is {got:?}, must be {v:?}");
        }
        let db = must("decrypt_db", || server.decrypt_db(&client.sk));
        for i in 0..n {
            let want = model[i].iter().enumerate().fold(0, |a, (i, x)| a | (x << i));
            for k2 in 0..h {
                let x = hash.hash(k2, i);
                let got = db[x / cols][x % cols];
                ensure!(got == want, "after call {k} {call:?} with {workers} workers: copy {k2} of item {i} is {got:#x}, must be {want:#x}");
            }
        }
        state(&(workers, baseline, k, &model, chosen().len()));
    }
}
/// Two or three servers, each used by its own thread (or its own task of one pool) at the same time: every
/// one behaves as if alone.
fn two_servers() {
    let kinds: &[&[usize]] = by_tier(&[&[0, 0], &[0, 1], &[1, 1], &[2, 2], &[0, 2], &[0, 0, 0]], &[&[0, 0], &[0, 1], &[1, 1], &[2, 2], &[0, 2], &[1, 2], &[0, 0, 0], &[0, 1, 0], &[2, 0, 1]]);
    let ks = pick(kinds);
    let three = ks.len() == 3;
    scenario(if three { "three servers at the same time" } else { "two servers at the same time" });
    let tasks = three || choose(2) == 1;
    let workers = if three { 2 + choose(2) } else { 1 + choose(by_tier(2, 3)) };
    let baseline = choose(3) as u8;
    set_dev_bound(if workers == 2 && !three { by_tier(1, 2) } else { 1 });
    pool(workers, 0, 0);
    // different decompositions, so that nothing of one server fits the other
    let cs = [cfg(8, 12, 3, 5, 11, 4, 14, 2), cfg(16, 9, 4, 5, 11, 5, 11, 2), cfg(8, 9, 4, 5, 11, 4, 14, 2)];
    note(|| format!("kinds {ks:?}, {} and {workers} workers, baseline {baseline}", if tasks { "tasks" } else { "threads" }));
    let mut w: Vec<_> = ks
        .iter()
        .zip(&cs)
        .map(|(k, c)| {
            let (h, n, rows, cols) = if *k == 2 { (2, 2, 2, 2) } else { (1, 2, 1, 2) };
            let hash = (1..500)
                .map(|s| fixed_hash(h, n, s))
                .find(|x| *k != 2 || attempt(|| x.hash_to_mapping(&[0, 1], cols)).is_ok())
                .unwrap_or_else(|| skip());
            let (mut client, server, pts) = must("setup_random_oram", || setup_random_oram(rows, cols, &hash, c.params()));
            let val = pattern(c.n, 2, 5);
            let q = match k {
                0 => vec![client.gen_write_query_one(1, &pt(&val), &hash)],
                1 => vec![client.gen_write_query_one(1, &pt(&val), &hash), client.gen_read_query_one(1, &hash)],
                _ => client.gen_write_query_batch(&[1, 0], &pt(&val), &hash),
            };
            (*k, *c, hash, client, server, pts.iter().map(vals).collect::<Vec<_>>(), q, val, cols)
        })
        .collect();
    let serve = |k: usize, s: &mut Server, q: Vec<ClientQuery>, hash: &NaiveHash| -> Vec<RLWECiphertext> {
        match k {
            0 => vec![s.process_one(q.into_iter().next().unwrap()).0],
            1 => s.process_multi(q).0,
            _ => s.process_batch(q, hash).0,
        }
    };
    let ys = {
        let mut jobs: Vec<_> = w
            .iter_mut()
            .map(|x| {
                let (k, s, h, q) = (x.0, &mut x.4, &x.2, std::mem::take(&mut x.6));
                move || serve(k, s, q, h)
            })
            .collect();
        run(workers, baseline, move || {
            let fc = if three { jobs.pop() } else { None };
            let fb = jobs.pop().unwrap();
            let fa = jobs.pop().unwrap();
            if let Some(fc) = fc {
                let (x, (y, z)) = rayon_core::join(fa, || rayon_core::join(fb, fc));
                vec![x, y, z]
            } else if tasks {
                let (x, y) = rayon_core::join(fa, fb);
                vec![x, y]
            } else {
                vstd::thread::scope(|s| {
                    let t = s.spawn(fa);
                    let y = fb();
                    vec![t.join().unwrap(), y]
                })
            }
        })
    };
    let ys = ys.unwrap_or_else(|m| fail(format!("servers at once (kinds {ks:?}, {workers} workers): {m}")));
    for (who, ((k, c, hash, client, server, model, _, val, cols), y)) in w.iter_mut().zip(ys).enumerate() {
        let served: Vec<(usize, usize)> = match k {
            0 => vec![(0, 1)],
            1 => vec![(0, 1), (1, 1)],
            _ => hash.hash_to_mapping(&[1, 0], *cols).into_iter().map(|(r, (_, i))| (r, i)).collect(),
        };
        for (j, i) in served {
            ensure!(j < y.len(), "server {who}: only {} responses", y.len());
            let got = decode(&client.sk, &y[j], &client.ctx);
            ensure!(got == model[i], "server {who} (kind {k}): response {j} is {got:?}, must be {:?}", model[i]);
        }
        model[1] = val.clone();
        if *k == 2 {
            model[0] = val.clone();
        }
        let db = must("decrypt_db", || server.decrypt_db(&client.sk));
        for i in 0..2 {
            let want = model[i].iter().take(64).enumerate().fold(0, |a, (i, x)| a | (x << i));
            for h in 0..hash.h_count() {
                let x = hash.hash(h, i);
                let got = db[x / *cols][x % *cols];
                ensure!(got == want, "server {who} (kind {k}), ring {}: copy {h} of item {i} is {got:#x}, must be {want:#x}", c.n);
            }
        }
    }
    state(&(ks, tasks, workers, baseline, chosen().len()));
}
fn fail_hook(meta: &str, msg: &str, trace: &[(u16, u16)]) -> ! {
    let mut t: Vec<u32> = meta.split(',').filter_map(|x| x.parse().ok()).collect();
    t.extend(trace.iter().map(|x| x.1 as u32));
    let name = scens().get(t.first().copied().unwrap_or(0) as usize).map_or("", |s| s.0);
    engine::report(if std::env::args().nth(1).as_deref() == Some("C21") { "C21" } else { "C04" }, msg, &t, &[], name)
}

fn main() {
    vsched::set_fail(fail_hook);
    engine::main(&[engine::Check {
        id: "C04",
        body: c04,
        bounds: || {
            format!("{} call scenarios (process_one, process_multi, process_batch and sequences of two or three of them) on 1 to {} columns, batches with up to three kinds of tables (any, copies of two items in opposite rows, two copies in one row), 1..{} workers; every schedule that deviates at most {} times from each of three baselines (run on, round robin up, round robin down), where scheduling points are every Mutex/RwLock acquisition, every task push, the end of every first half and every wait, and the victim of every steal is a choice; RwLock prefers waiting writers; every scenario also on pools of 5 to 600 workers, with three steal patterns and starting on the first, a middle and the last worker; two servers of different settings used at the same time by two threads or two tasks, and three by three tasks", scens().len(), by_tier(4, 8), by_tier(3, 4), by_tier("2 (single calls) or 1 (sequences)", "3 (single calls on at most 2 slots with at most 2 workers), 2 (other single calls, sequences with at most 2 workers) or 1"))
        },
        hang_s: 200,
    }, engine::Check { id: "C21", body: seed::c21, bounds: seed::c21_bounds, hang_s: 300 }]);
}
