//! C05 (shape and freshness of queries), C23 (generated database), C24 (error growth).
use crate::common::*;
use crate::oram::{cfgs, item_list, pat, supported, word, OpK, World};
use panacea::decision_tree::encrypt_feature_vector;
use panacea::lwe::{LWESecretKey, LWEtoRLWEKeyswitchKey};
use panacea::oram::{setup_random_oram, Client};
use panacea::rlwe::{make_decomposed_rlwe_ct, make_decomposed_rlwe_ct2, RLWEKeyswitchKey};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

// ------------------------------------------------------- recording allocator
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static REC: RefCell<Vec<(usize, usize)>> = const { RefCell::new(Vec::new()) };
}
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
/// Bytes this thread has allocated and not released.
pub fn heap() -> i64 {
    LIVE.with(|x| x.get())
}
fn live_add(d: i64) {
    let _ = LIVE.try_with(|x| x.set(x.get() + d));
}
pub struct Recorder;
fn rec(f: impl FnOnce(&mut Vec<(usize, usize)>)) {
    let _ = ON.try_with(|on| {
        if on.get() {
            on.set(false);
            let _ = REC.try_with(|r| f(&mut r.borrow_mut()));
            on.set(true);
        }
    });
}
unsafe impl GlobalAlloc for Recorder {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        live_add(l.size() as i64);
        rec(|r| r.push((p as usize, l.size())));
        trace(&ALLOCS, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        live_add(l.size() as i64);
        rec(|r| r.push((p as usize, l.size())));
        trace(&ALLOCS, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live_add(-(l.size() as i64));
        let _ = DROP_ON.try_with(|d| {
            if d.get() {
                d.set(false);
                let _ = DROPS.try_with(|v| v.borrow_mut().push(l.size()));
                d.set(true);
            }
        });
        trace(&FREES, l.size());
        rec(|r| {
            if let Some(i) = r.iter().rposition(|x| x.0 == p as usize) {
                r.swap_remove(i);
            }
        });
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        live_add(n as i64 - l.size() as i64);
        rec(|r| {
            if let Some(i) = r.iter().rposition(|x| x.0 == p as usize) {
                r.swap_remove(i);
            }
            r.push((q as usize, n));
        });
        trace(&ALLOCS, n);
        q
    }
}
thread_local! {
    static TRACE: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
    static FREES: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}
fn trace(to: &'static std::thread::LocalKey<RefCell<Vec<usize>>>, size: usize) {
    let _ = TRACE.try_with(|on| {
        if on.get() {
            on.set(false);
            let _ = to.try_with(|r| r.borrow_mut().push(size));
            on.set(true);
        }
    });
}
/// Keep the list of live heap blocks up to date while `f` runs.
pub fn tracking<R>(f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
            TRACE.with(|o| o.set(false));
            REC.with(|r| r.borrow_mut().clear());
        }
    }
    let _off = Off;
    REC.with(|r| r.borrow_mut().clear());
    ON.with(|o| o.set(true));
    f()
}
/// Hand the blocks allocated since `tracking` began and not released to `f`, whose own
/// allocations are not tracked.
pub fn live<R>(f: impl FnOnce(&[(usize, usize)]) -> R) -> R {
    ON.with(|o| o.set(false));
    let v = REC.with(|r| r.borrow().clone());
    let x = f(&v);
    ON.with(|o| o.set(true));
    x
}
/// Run `f` and return the sizes of all blocks it allocated and released, in order.
pub fn traced<R>(what: &str, f: impl FnOnce() -> R) -> (R, Vec<usize>, Vec<usize>) {
    ALLOCS.with(|r| r.borrow_mut().clear());
    FREES.with(|r| r.borrow_mut().clear());
    TRACE.with(|o| o.set(true));
    let v = attempt(f);
    TRACE.with(|o| o.set(false));
    let a = ALLOCS.with(|r| std::mem::take(&mut *r.borrow_mut()));
    let b = FREES.with(|r| std::mem::take(&mut *r.borrow_mut()));
    (v.unwrap_or_else(|m| fail(format!("{what}: {m}"))), a, b)
}
/// Everything a value owns on the heap, as left behind by the code that built it.
pub struct Heap {
    /// sizes of all blocks, sorted
    pub sizes: Vec<usize>,
    /// contents of the blocks that can be ciphertexts
    pub blocks: Vec<Vec<u64>>,
}
/// The blocks among `live` that `v` owns: those its own bytes point into, and those they point
/// into, and so on (what the code kept for itself is not part of the value).
fn owned<R>(v: &R, live: &[(usize, usize)]) -> Vec<(usize, usize)> {
    let map: std::collections::BTreeMap<usize, usize> = live.iter().copied().collect();
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![(v as *const R as usize, std::mem::size_of::<R>())];
    while let Some((p, s)) = todo.pop() {
        for a in (p.next_multiple_of(8)..(p + s).saturating_sub(7)).step_by(8) {
            let w = unsafe { std::ptr::read_volatile(a as *const u64) } as usize;
            if let Some((q, t)) = map.range(..=w).next_back() {
                if w < q + t && seen.insert(*q) {
                    todo.push((*q, *t));
                }
            }
        }
    }
    live.iter().copied().filter(|x| seen.contains(&x.0)).collect()
}
/// Run `f`; return its value and the heap blocks the value owns.
pub fn record<R>(n: usize, what: &str, f: impl FnOnce() -> R) -> (R, Heap) {
    REC.with(|r| r.borrow_mut().clear());
    ON.with(|o| o.set(true));
    let v = attempt(f);
    ON.with(|o| o.set(false));
    let live = REC.with(|r| std::mem::take(&mut *r.borrow_mut()));
    let v = v.unwrap_or_else(|m| fail(format!("{what}: {m}")));
    let live = owned(&v, &live);
    let mut sizes: Vec<usize> = live.iter().map(|x| x.1).collect();
    sizes.sort_unstable();
    let addrs: std::collections::HashSet<u64> = live.iter().map(|x| x.0 as u64).collect();
    let ct = 16 * n;
    let blocks = live
        .iter()
        .filter(|(p, s)| *s >= ct && s % ct == 0 && p % 8 == 0)
        .map(|(p, s)| unsafe { std::slice::from_raw_parts(*p as *const u64, s / 8) }.to_vec())
        .filter(|b| !b.iter().any(|w| addrs.contains(w)))
        .collect();
    (v, Heap { sizes, blocks })
}

/// All ciphertext rows sent so far under one key.
struct Sent {
    sk: Vec<u64>,
    names: Vec<String>,
    seen: HashMap<u64, u32>,
}
impl Sent {
    fn new(client: &Client) -> Self {
        Sent { sk: key_words(&client.sk), names: vec![], seen: HashMap::new() }
    }
    /// No word of the blocks occurred before.
    fn words(&mut self, h: &Heap, what: &str) {
        let n = self.sk.len();
        for (bi, row) in h.blocks.iter().flat_map(|b| b.chunks(2 * n)).enumerate() {
            let name = format!("{what}, row {bi}");
            self.names.push(name.clone());
            for w in row.iter() {
                if let Some(o) = self.seen.insert(*w, self.names.len() as u32 - 1) {
                    fail(format!("{name}: word {w:#x} already occurs in {}", self.names[o as usize]));
                }
            }
        }
    }
    /// Every row of the blocks is a fresh encryption: no word of it occurred before, its phase
    /// is a multiple of 2^`grain` plus a small, not identically vanishing error.
    fn add(&mut self, h: &Heap, grain: u32, what: &str) -> usize {
        let n = self.sk.len();
        let mut rows = 0;
        for (bi, b) in h.blocks.iter().enumerate() {
            for (ri, row) in b.chunks(2 * n).enumerate() {
                rows += 1;
                let name = format!("{what}, block {bi}, row {ri}");
                self.names.push(name.clone());
                for (k, w) in row.iter().enumerate() {
                    if let Some(o) = self.seen.insert(*w, self.names.len() as u32 - 1) {
                        fail(format!("{name}: word {k} ({w:#x}) already occurs in {}", self.names[o as usize]));
                    }
                    ensure!(*w != 0, "{name}: word {k} is zero");
                }
                let ph = psub(&row[n..], &pmul(&row[..n], &self.sk));
                let m = (1u64 << grain) - 1;
                let half = 1u64 << (grain - 1);
                let err: Vec<u64> = ph.iter().map(|p| (p.wrapping_add(half) & m).wrapping_sub(half)).collect();
                let e = maxerr(&err, &vec![0; n]);
                ensure!(e as f64 <= FRESH, "{name}: not a fresh encryption under the client's key (error {e})");
                ensure!(e > 0, "{name}: encrypted without any error");
            }
        }
        rows
    }
}
fn grain(b: usize, l: usize) -> u32 {
    64 - (b * l) as u32
}

pub fn c05() {
    let n = 64;
    let sets: &[(usize, usize, usize, usize)] =
        by_tier(&[(5, 9, 5, 9), (9, 4, 12, 3)][..], &[(5, 9, 5, 9), (9, 4, 12, 3), (16, 3, 7, 6), (24, 1, 25, 2)][..]);
    match choose(5) {
        4 => {
            scenario("long histories of one client");
            let n = 32;
            let (h, items, rows, cols, len) = pick(by_tier(
                &[(1usize, 2usize, 1usize, 2usize, 1100usize), (3, 4, 6, 2, 70), (1, 1, 1, 1, 1100)][..],
                &[(1, 2, 1, 2, 5000), (3, 4, 6, 2, 700), (1, 1, 1, 1, 5000), (1, 64, 1, 64, 1100)][..],
            ));
            let secure = choose(2) == 1;
            let order = choose(2);
            let mut p = cfg(n, 9, 3, 5, 9, 12, 3, 2).params();
            p.secure_seed = secure;
            note(|| format!("{rows}x{cols} secure={secure} order={order} x {len}"));
            let hash = fixed_hash(h, items, 3);
            let mut client = must("Client::new", || Client::new(rows, cols, p));
            let mut sent = Sent::new(&client);
            let data = pt(&pattern(n, 2, 9));
            let mut shape: Option<(Vec<usize>, usize)> = None;
            for k in 0..len {
                let i = if order == 0 { k % items } else { 0 };
                let write = order == 0 && k % 3 == 1;
                let what = format!("{} {k}, item {i}", if write { "write" } else { "read" });
                let (_q, hp) = record(n, &what, || match (rows > 1, write) {
                    (true, true) => client.gen_write_query_batch(&[i], &data, &hash),
                    (true, false) => client.gen_read_query_batch(&[i], &hash),
                    (false, true) => vec![client.gen_write_query_one(i, &data, &hash)],
                    (false, false) => vec![client.gen_read_query_one(i, &hash)],
                });
                let r = sent.add(&hp, grain(9, 3), &what);
                ensure!(r > 0, "harness: no rows seen in a query");
                let (s0, r0) = shape.get_or_insert((hp.sizes.clone(), r));
                ensure!(hp.sizes == *s0 && r == *r0, "{what} has {r} rows in blocks {:?}, the first query {r0} in {s0:?}", hp.sizes);
                step();
            }
            state(&(rows, cols, secure, order));
        }
        3 => {
            scenario("single queries in wide tables, against each other");
            // (large enough that a random key never has fewer than two coefficients set: the
            // body words of a row then never equal its mask words by chance)
            let n = 32;
            let cols = pick(by_tier(&[16usize, 64, 256, 512, 1024, 4096][..], &[16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 1 << 16][..]));
            let rows = pick(&[1usize, 3]);
            let (b, l, nb, nl) = pick(&[(5usize, 9usize, 5usize, 9usize), (9, 4, 12, 3)]);
            let secure = choose(2) == 1;
            let h = if rows == 3 { 3 } else { 1 };
            let hash = fixed_hash(h, cols, 3);
            let mut p = cfg(n, b, l, 5, 9, nb, nl, 2).params();
            p.secure_seed = secure;
            note(|| format!("{rows}x{cols} ({b},{l}) secure={secure}"));
            let mut client = must("Client::new", || Client::new(rows, cols, p));
            let mut sent = Sent::new(&client);
            let data = pt(&pattern(n, 2, 9));
            let mut first: Option<(Vec<usize>, usize)> = None;
            for i in [0, 1, 2, cols / 2 - 1, cols / 2, cols - 2, cols - 1, 0, cols - 1, 255.min(cols - 1), cols / 3] {
                for kind in 0..if rows == 3 { 4 } else { 2 } {
                    let what = format!("{} {i}", ["read of item", "write of item", "batched read of item", "batched write of item"][kind]);
                    let (_q, h) = record(n, &what, || match kind {
                        0 => vec![client.gen_read_query_one(i, &hash)],
                        1 => vec![client.gen_write_query_one(i, &data, &hash)],
                        2 => client.gen_read_query_batch(&[i], &hash),
                        _ => client.gen_write_query_batch(&[i], &data, &hash),
                    });
                    let r = sent.add(&h, grain(b, l), &what);
                    if kind == 0 && first.is_none() {
                        first = Some((h.sizes.clone(), r));
                    }
                    let (s0, r0) = first.as_ref().unwrap();
                    if kind < 2 {
                        ensure!(h.sizes == *s0 && r == *r0, "{what} has {r} rows in blocks {:?}, the first query {r0} in {s0:?}", h.sizes);
                    } else {
                        ensure!(r == 3 * r0, "{what} has {r} rows, three single queries {}", 3 * r0);
                    }
                    step();
                }
            }
            state(&(rows, cols, b, secure));
        }
        0 => {
            scenario("single queries: every index, reads and writes of several plaintexts");
            let cols = pick(by_tier(&[1usize, 2, 4, 8, 16][..], &[1, 2, 4, 8, 16, 32][..]));
            let (b, l, nb, nl) = pick(sets);
            let i = choose(cols);
            let kind = choose(4);
            let secure = cols <= 4 && choose(2) == 1;
            let hash = fixed_hash(1, cols, 3);
            let mut p = cfg(n, b, l, 5, 9, nb, nl, 2).params();
            p.secure_seed = secure;
            note(|| format!("cols={cols} ({b},{l},{nb},{nl}) index={i} kind={kind} secure={secure}"));
            let mut client = must("Client::new", || Client::new(1, cols, p));
            let mut sent = Sent::new(&client);
            let (_k, h) = record(n, "gen_neg_sk", || client.gen_neg_sk());
            ensure!(sent.add(&h, grain(nb, nl), "-s key") > 0, "harness: no rows seen in the -s key");
            let (_q0, h0) = record(n, "gen_read_query_one", || client.gen_read_query_one(0, &hash));
            let rows = sent.add(&h0, grain(b, l), "reference query");
            ensure!(rows > 0, "harness: no rows seen in a query");
            for rep in 0..2 {
                let data = pt(&match kind {
                    1 => vec![0; n],
                    2 => vec![1; n],
                    _ => pattern(n, 2, 9),
                });
                let what = format!("{} query {rep}", if kind == 0 { "read" } else { "write" });
                let (_q, h) = record(n, &what, || match kind {
                    0 => client.gen_read_query_one(i, &hash),
                    _ => client.gen_write_query_one(i, &data, &hash),
                });
                ensure!(
                    h.sizes == h0.sizes,
                    "{what} for index {i} has blocks {:?}, a read of index 0 has {:?}", h.sizes, h0.sizes
                );
                let r = sent.add(&h, grain(b, l), &what);
                ensure!(r == rows, "{what} for index {i} has {r} rows, a read of index 0 has {rows}");
                step();
                state(&(cols, b, l, i, kind, secure, rep));
            }
        }
        1 => {
            scenario("batches: every list of up to 3 items, reads and writes");
            let (h, items, rows, cols) = pick(by_tier(
                &[(2usize, 2usize, 2usize, 2usize), (3, 4, 6, 2), (1, 4, 2, 2), (2, 4, 4, 2), (3, 2, 6, 1)][..],
                &[(2, 2, 2, 2), (3, 4, 6, 2), (1, 4, 2, 2), (2, 4, 4, 2), (3, 2, 6, 1), (3, 8, 6, 4), (4, 8, 8, 4)][..],
            ));
            let (b, l, nb, nl) = sets[0];
            let write = choose(2) == 1;
            let hash = fixed_hash(h, items, pick(&[1u64, 2]));
            let list = item_list(items, by_tier(2, 3));
            if attempt(|| hash.hash_to_mapping(&list, cols)).is_err() {
                skip();
            }
            note(|| format!("h={h} items={items} {rows}x{cols} list={list:?} write={write}"));
            let mut client = must("Client::new", || Client::new(rows, cols, cfg(n, b, l, 5, 9, nb, nl, 2).params()));
            let mut sent = Sent::new(&client);
            let (q0, h0) = record(n, "batch of nothing", || client.gen_read_query_batch(&[], &hash));
            ensure!(q0.len() == rows, "a batch of nothing has {} queries for {rows} rows", q0.len());
            let r0 = sent.add(&h0, grain(b, l), "batch of nothing");
            ensure!(r0 > 0, "harness: no rows seen in a batch");
            let data = pt(&pattern(n, 2, 4));
            let (q, hp) = record(n, "batch", || {
                if write {
                    client.gen_write_query_batch(&list, &data, &hash)
                } else {
                    client.gen_read_query_batch(&list, &hash)
                }
            });
            ensure!(q.len() == rows, "batch {list:?} has {} queries for {rows} rows", q.len());
            ensure!(
                hp.sizes == h0.sizes,
                "batch {list:?} (write {write}) has blocks {:?}, an empty one has {:?}", hp.sizes, h0.sizes
            );
            let r = sent.add(&hp, grain(b, l), "batch");
            ensure!(r == r0, "batch {list:?} (write {write}) has {r} rows, an empty one has {r0}");
            // every query of a batch has the same shape
            let per: Vec<Vec<usize>> = q
                .into_iter()
                .map(record_drop)
                .collect();
            for (k, p) in per.iter().enumerate() {
                ensure!(*p == per[0], "batch {list:?}: query of row {k} has blocks {p:?}, row 0 has {:?}", per[0]);
            }
            step();
            state(&(h, items, rows, cols, list, write));
        }
        _ => {
            scenario("key material and encryptions of one client");
            let (b, l, nb, nl) = pick(sets);
            let kb = pick(&[(5usize, 9usize), (6, 8)]);
            note(|| format!("({b},{l}) -s ({nb},{nl}) ks {kb:?}"));
            let mut client =
                must("Client::new", || Client::new(1, 2, cfg(n, b, l, kb.0, kb.1, nb, nl, 2).params()));
            let mut sent = Sent::new(&client);
            for k in 0..2 {
                let (_x, h) = record(n, "gen_neg_sk", || client.gen_neg_sk());
                sent.add(&h, grain(nb, nl), &format!("-s key {k}"));
                let Client { sk, ctx, .. } = &mut client;
                let (_y, h) = record(n, "gen_all_subs_ksk", || panacea::rlwe::gen_all_subs_ksk(sk, ctx));
                let rows = sent.add(&h, grain(kb.0, kb.1), &format!("substitution keys {k}"));
                ensure!(rows >= kb.1 * 6, "harness: only {rows} rows of substitution keys seen");
                let (_z, h) = record(n, "encrypt", || {
                    (0..4)
                        .map(|m| {
                            let mut c = RLWECiphertext::allocate(ctx.poly_size);
                            sk.encode_encrypt_rlwe(&mut c, &pt(&vec![m % 2; n]), ctx);
                            c
                        })
                        .collect::<Vec<_>>()
                });
                sent.add(&h, 62, &format!("ciphertexts {k}"));
                let logn = n.trailing_zeros();
                let fresh = |c: &Context| RLWECiphertext::allocate(c.poly_size);
                for w in 0..9 {
                    let what = format!("{}, repetition {k}", [
                        "constant ciphertexts", "ternary ciphertexts", "decomposed bits", "decomposed bits (slow route)", "feature vectors",
                        "RGSW vector", "RGSW of a polynomial", "key-switching key", "LWE to RLWE key",
                    ][w]);
                    let (g, rows) = match w {
                        0 => (63, record(n, &what, || (0..3).map(|m| { let mut c = fresh(ctx); sk.encrypt_constant_rlwe(&mut c, &Plaintext(m << 63), ctx); c }).collect::<Vec<_>>()).1),
                        // zero only: the ternary code has no power-of-two grain
                        1 => (60, record(n, &what, || (0..3).map(|_| { let mut c = fresh(ctx); sk.ternary_encrypt_rlwe(&mut c, &pt(&vec![0; n]), ctx); c }).collect::<Vec<_>>()).1),
                        2 => (grain(b, l) - logn.min(grain(b, l)), if grain(b, l) < 18 + logn { continue } else { record(n, &what, || [0, 1, 1].map(|m| make_decomposed_rlwe_ct(sk, m, ctx))).1 }),
                        3 => (grain(b, l), record(n, &what, || [0, 1, 1].map(|m| make_decomposed_rlwe_ct2(sk, m, ctx))).1),
                        4 => (grain(b, l) - logn.min(grain(b, l)), if grain(b, l) < 18 + logn { continue } else { record(n, &what, || encrypt_feature_vector(sk, &vec![0, 0, 7, n - 1], ctx)).1 }),
                        5 => (grain(b, l), record(n, &what, || sk.encrypt_constant_rgsw_vec(&[Plaintext(0), Plaintext(1), Plaintext(1)], ctx)).1),
                        6 => (grain(b, l), record(n, &what, || {
                            [0, 1, 1].map(|m| {
                                let mut r = RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);
                                sk.encrypt_rgsw(&mut r, &pt(&vec![m; n]), ctx);
                                r
                            })
                        }).1),
                        7 => (grain(kb.0, kb.1), record(n, &what, || {
                            let mut x = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, ctx.poly_size);
                            x.fill_with_keyswitch_key(&key(&pattern(n, 2, 9)), sk, ctx.std, &mut ctx.encryption_generator);
                            x
                        }).1),
                        _ => (grain(kb.0, kb.1), record(n, &what, || {
                            let lwe = LWESecretKey::generate_binary(concrete_core::prelude::LweDimension(n), &mut ctx.secret_generator);
                            let mut x = LWEtoRLWEKeyswitchKey::allocate(ctx);
                            x.fill_with_keyswitching_key(&lwe, ctx);
                            (x, lwe)
                        }).1),
                    };
                    if w == 8 {
                        // under its own key: only the freshness of the words is checked
                        sent.words(&rows, &what);
                    } else {
                        ensure!(sent.add(&rows, g, &what) > 0, "harness: nothing seen of {what}");
                    }
                    step();
                }
                step();
            }
            state(&(b, l, nb, nl, kb));
        }
    }
}
/// Sizes of the heap blocks freed when `x` is dropped.
fn record_drop<T>(x: T) -> Vec<usize> {
    DROPS.with(|d| d.borrow_mut().clear());
    DROP_ON.with(|d| d.set(true));
    drop(x);
    DROP_ON.with(|d| d.set(false));
    let mut v = DROPS.with(|d| std::mem::take(&mut *d.borrow_mut()));
    v.sort_unstable();
    v
}
thread_local! {
    static DROP_ON: Cell<bool> = const { Cell::new(false) };
    static DROPS: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}
pub fn c05_bounds() -> String {
    format!("N=64, {} decomposition settings; single queries for 1..{} columns, every index, read and writes of three plaintexts, each twice, with seeded and secure randomness; tables of up to {} columns at N=32 with a sequence of up to 44 queries of one client; histories of {} queries of one client; batches for {} shapes with every ordered list of up to {} items; every kind of key material and encryption of one client. Every heap block a query owns is inspected: sizes are compared, all mask and body words must be pairwise distinct and non-zero, every row must be a fresh encryption under the client's key", by_tier(2, 4), by_tier(16, 32), by_tier(4096, 65536), by_tier(1100, 5000), by_tier(5, 7), by_tier(2, 3))
}

// ---------------------------------------------------------------------- C23
pub fn c23() {
    match choose(4) {
        3 => {
            scenario("many items, many copies");
            let (h, n) = pick(by_tier(
                &[(1usize, 1000usize), (1, 1025), (1, 2049), (1, 5000), (2, 1500), (3, 1024), (5, 300), (8, 129), (9, 4), (12, 20), (16, 300), (33, 3), (64, 10), (129, 3), (257, 2), (1025, 1)][..],
                &[(1, 1000), (1, 1025), (1, 2049), (1, 5000), (1, 20000), (1, 66000), (2, 1500), (2, 10000), (3, 1024), (5, 300), (5, 5000), (8, 129), (9, 4), (10, 10), (12, 20), (16, 300), (17, 1000), (33, 3), (64, 10), (64, 1100), (129, 3), (257, 2), (1025, 1), (5000, 2)][..],
            ));
            let (rows, cols) = pick(&[(h, n), (1, h * n), (h * n, 1)]);
            database(h, n, rows, cols, fixed_hash(h, n, 3), 8, pick(&[2u64, 16]));
        }
        0 => {
            scenario("small shapes, every hash table");
            let (h, items, rows, cols) = pick(by_tier(
                &[(1, 1, 1, 1), (1, 2, 1, 2), (1, 4, 1, 4), (1, 4, 2, 2), (2, 2, 2, 2), (2, 2, 4, 1), (2, 2, 1, 4), (3, 1, 3, 1), (3, 2, 3, 2), (3, 2, 2, 3), (1, 3, 1, 3)][..],
                &[(1, 1, 1, 1), (1, 2, 1, 2), (1, 4, 1, 4), (1, 4, 2, 2), (2, 2, 2, 2), (2, 2, 4, 1), (2, 2, 1, 4), (3, 1, 3, 1), (3, 2, 3, 2), (3, 2, 2, 3), (1, 3, 1, 3), (1, 5, 1, 5), (2, 3, 3, 2), (4, 2, 4, 2), (7, 1, 7, 1)][..],
            ));
            let hash = enum_hash(h, items);
            database(h, items, rows, cols, hash, 8, 2);
        }
        1 => {
            scenario("around and above the replication limit");
            let sizes: &[usize] = &[64, 126, 127, 128, 129, 130, 191, 255, 256, 257, 258, 300, 384, 385];
            let n = pick(sizes);
            let h = pick(&[1usize, 2, 3, 4]);
            let t = pick(&[2u64, 256]);
            let (rows, cols) = pick(&[(h, n), (1, h * n), (h * n, 1)]);
            let hash = fixed_hash(h, n, pick(&[0u64, 1, 2]));
            database(h, n, rows, cols, hash, 8, t);
        }
        _ => {
            scenario("inconsistent dimensions are refused");
            let h = 1 + choose(3);
            let items = 1 + choose(4);
            let rows = 1 + choose(4);
            let cols = 1 + choose(8);
            if rows * cols == h * items {
                skip();
            }
            note(|| format!("h={h} items={items} {rows}x{cols}"));
            let hash = fixed_hash(h, items, 1);
            must_refuse(&format!("setup_random_oram({rows},{cols}) with {h} copies of {items} items"), || {
                setup_random_oram(rows, cols, &hash, cfg(8, 5, 9, 5, 9, 5, 9, 2).params())
            });
            step();
            state(&(h, items, rows, cols));
        }
    }
}
fn database(h: usize, items: usize, rows: usize, cols: usize, hash: NaiveHash, n: usize, t: u64) {
    note(|| format!("h={h} items={items} {rows}x{cols} t={t}"));
    let mut client = must("Client::new", || Client::new(rows, cols, cfg(n, 5, 9, 5, 9, 5, 9, t).params()));
    let (pts, db) = must("gen_dummy_database", || client.gen_dummy_database(&hash));
    step();
    ensure!(pts.len() == items, "{} plaintexts for {items} items", pts.len());
    ensure!(db.len() == rows && db.iter().all(|r| r.len() == cols), "the database is not {rows} x {cols}");
    let mut seen: HashMap<u64, usize> = HashMap::new();
    for i in 0..items {
        let want = vals(&pts[i]);
        ensure!(want.iter().all(|x| *x < t), "item {i}: plaintext {want:?} outside its range");
        for k in 0..h {
            let x = hash.hash(k, i);
            let c = &db[x / cols][x % cols];
            let got = decode(&client.sk, c, &client.ctx);
            ensure!(got == want, "copy {k} of item {i} (of {items}) is {got:?}, its plaintext is {want:?}");
            let s = key_words(&client.sk);
            let e = maxerr(&phase(&s, c), &enc_of(&want, t));
            ensure!(e > 0 && e as f64 <= FRESH, "copy {k} of item {i}: error {e} is not that of a fresh encryption");
        }
        if i < 128 {
            let x = hash.hash(0, i);
            for w in mask_of(&db[x / cols][x % cols]) {
                if let Some(o) = seen.insert(w, i) {
                    fail(format!("items {o} and {i} share their random part"));
                }
            }
        }
    }
    state(&(h, items, rows, cols, t, table(&hash)));
}
pub fn c23_bounds() -> String {
    format!("N=8; {} small shapes with every hash table; 14 item counts from 64 to 385 (127..130, 255..258 included) x 1..4 copies x three layouts x two plaintext moduli x three tables; {} pairs of copies (up to {}) and items (up to {}); every combination of up to 3 copies, 4 items, 4 rows and 8 columns that does not fit", by_tier(11, 15), by_tier(16, 24), by_tier(1025, 5000), by_tier(5000, 66000))
}

// ---------------------------------------------------------------------- C24
/// Largest error one operation may add, by the worst-case calculus.
fn op_bound(c: &Cfg, cols: usize) -> f64 {
    let k = cols.trailing_zeros() as usize;
    let rows = selector_rows(c, demux_err(c, k, 0.0));
    // the written data enters once through the read/write selector and the position selector
    2.0 * ext_err(c.n, c.b, c.l, rows, 1.0, 0.0) + FRESH
}
/// Variance of the error of one external product (row variance `vr`), without that of its input:
/// digits are uniform in a range of 2^b, the key is binary (half of its coefficients are set), the
/// transform loses SCALE times the rounding of one double per product.
fn v_ext(n: usize, b: usize, l: usize, vr: f64) -> f64 {
    let nf = n as f64;
    let digits = (2.0 * b as f64).exp2() / 12.0 + 1.0;
    let round = if b * l >= 64 { 0.0 } else { (63.0 - (b * l) as f64).exp2() };
    let double = (62.0f64 - 53.0).exp2();
    let fft = 2.0 * l as f64 * nf * digits * (SCALE * double) * (SCALE * double) + 1.0;
    2.0 * l as f64 * nf * digits * vr + (1.0 + nf / 2.0) * (round * round / 3.0 + fft)
}
const SCALE: f64 = 2.0;
/// Limit for the error after `ops` operations (`h` copies corrected by each): 64 standard
/// deviations; at most 12 occur (keys of more than average weight, few large terms).
fn lim_stat(c: &Cfg, cols: usize, ops: usize, h: usize) -> f64 {
    let k = cols.trailing_zeros() as f64;
    let v0 = (FRESH / 12.0) * (FRESH / 12.0);
    // the first selection bit acts on a trivial ciphertext with a single non-zero digit
    let bits = 2.0 * v0 + (k - 1.0).max(0.0) * v_ext(c.n, c.b, c.l, v0);
    let rows = v_ext(c.n, c.nb, c.nl, v0) + c.n as f64 / 2.0 * bits;
    let sel = v_ext(c.n, c.b, c.l, (bits + rows) / 2.0) + v_ext(c.n, c.b, c.l, v0);
    let corr = if h > 1 { 2.0 * h as f64 } else { 0.0 };
    let v = v0 + (ops as f64 * (1.0 + corr) + cols as f64 + 1.0) * sel;
    64.0 * v.sqrt()
}
fn check_growth(o: &mut World, i: usize, ops: usize, batch_h: usize) {
    let (cols, cfg) = (o.cols, o.cfg);
    let q = must("gen_read_query_one", || o.client.gen_read_query_one(i, &o.hash));
    let (y, _) = must("process_one", || o.server.process_one(q));
    let want = o.model[i].clone();
    o.check_resp(&y, &want, &format!("after {ops} operations, item {i}"));
    let s = key_words(&o.client.sk);
    let e = maxerr(&phase(&s, &y), &enc_of(&want, cfg.t)) as f64;
    // the response adds one external product per column
    let lim = FRESH + (ops as f64 * batch_h as f64 + cols as f64 + 1.0) * op_bound(&cfg, cols);
    let lim = lim.min(lim_stat(&cfg, cols, ops, batch_h));
    if std::env::var_os("VERIF_NOISE").is_some() {
        eprintln!("NOISE {} b{}-c{cols} ops={ops} {:.1} of {:.1}", cfg.n, cfg.b, e.log2(), lim.log2());
    }
    ensure!(
        e <= lim,
        "after {ops} operations the response for item {i} has error 2^{:.1}, the bound is 2^{:.1}", e.log2(), lim.log2()
    );
}

pub fn c24() {
    match choose(3) {
        0 => {
            scenario("long periodic histories of single and multi queries");
            let n = pick(by_tier(&[8usize, 64][..], &[8, 16, 64][..]));
            let cols = pick(&[1usize, 2, 4]);
            let c = pick(&[cfg(n, 5, 9, 5, 11, 5, 11, 2), cfg(n, 8, 5, 5, 11, 9, 5, 2)]);
            let ops: Vec<OpK> = if cols == 1 {
                vec![OpK::R(0), OpK::W(0, 1)]
            } else {
                vec![OpK::R(0), OpK::W(0, 1), OpK::R(1), OpK::W(cols - 1, 2)]
            };
            let period = 1 + choose(by_tier(2, 3));
            let pat: Vec<OpK> = (0..period).map(|_| pick(&ops)).collect();
            let multi = choose(by_tier(2, 3));
            let len = match (n, period) {
                (64, _) => by_tier(60, 200),
                (_, 1) => by_tier(1100, 2500),
                _ => by_tier(250, 900),
            };
            // every write stores another value
            let nth = |k: usize| match pat[k % period] {
                OpK::W(i, p) => OpK::W(i, p + 4 * k),
                r => r,
            };
            note(|| format!("{c:?} items={cols} pattern={pat:?} x {len} multi={multi}"));
            pool(3, 1, 0);
            let mut o = World::new(c, 1, cols, fixed_hash(1, cols, 1));
            let mut done = 0;
            while done < len {
                match multi {
                    0 => {
                        let op = nth(done);
                        o.one(op);
                        done += 1;
                    }
                    k => {
                        let seq: Vec<OpK> = (0..2 * k).map(|j| nth(done + j)).collect();
                        o.multi(&seq);
                        done += seq.len();
                    }
                }
                if done % 50 < 2 * multi.max(1) || done >= len {
                    for i in 0..cols {
                        check_growth(&mut o, i, done, 1);
                        done += 1;
                    }
                }
            }
        }
        1 => {
            scenario("long histories of batched calls");
            let (h, items, rows, cols) = pick(&[(2usize, 2usize, 2usize, 2usize), (3, 2, 6, 1), (3, 1, 3, 1), (1, 4, 2, 2)]);
            let n = pick(by_tier(&[8usize][..], &[8, 64][..]));
            let c = pick(&[cfg(n, 5, 9, 5, 11, 5, 11, 2), cfg(n, 8, 5, 5, 11, 9, 5, 2)]);
            let wr = choose(4); // never, always, alternating, first only
            let list: Vec<usize> = pick(&[vec![0usize], vec![0, items - 1], vec![]]);
            let mut list = list;
            list.dedup();
            let len = if n == 64 { 60 } else { by_tier(120, 600) };
            note(|| format!("{c:?} h={h} items={items} {rows}x{cols} list={list:?} writes={wr} x {len}"));
            pool(2, 2, 0);
            let hash = (1..100)
                .map(|s| fixed_hash(h, items, s))
                .find(|x| attempt(|| x.hash_to_mapping(&list, cols)).is_ok())
                .unwrap_or_else(|| skip());
            let mut o = World::new(c, rows, cols, hash);
            let s = key_words(&o.client.sk);
            for k in 0..len {
                let write = wr == 1 || (wr == 2 && k % 2 == 0) || (wr == 3 && k == 0);
                let map = o.hash.hash_to_mapping(&list, cols);
                let v = pat(n, 2, 1 + k);
                let q = must("batch query", || {
                    if write {
                        o.client.gen_write_query_batch(&list, &pt(&v), &o.hash)
                    } else {
                        o.client.gen_read_query_batch(&list, &o.hash)
                    }
                });
                let ys = must("process_batch", || o.server.process_batch(q, &o.hash).0);
                step();
                for (r, (_, i)) in &map {
                    let want = o.model[*i].clone();
                    o.check_resp(&ys[*r], &want, &format!("call {k}, row {r}"));
                    let e = maxerr(&phase(&s, &ys[*r]), &enc_of(&want, 2)) as f64;
                    // update, then correction over h copies
                    let lim = FRESH + ((k + 1) as f64 * (1.0 + 4.0 * h as f64) + cols as f64) * op_bound(&c, cols);
                    let lim = lim.min(lim_stat(&c, cols, k + 1, h));
                    if std::env::var_os("VERIF_NOISE").is_some() {
                        eprintln!("NOISE batch {} k={k} {:.1} of {:.1}", c.n, e.log2(), lim.log2());
                    }
                    ensure!(e <= lim, "call {k}: response error 2^{:.1} above 2^{:.1}", e.log2(), lim.log2());
                }
                if write {
                    list.iter().for_each(|i| o.model[*i] = v.clone());
                }
                if k % 10 == 9 || k + 1 == len {
                    o.check_db(&format!("after call {k}"));
                }
            }
        }
        _ => {
            scenario("default parameters");
            let kind = choose(4);
            let p = TFHEParameters { secure_seed: false, ..Default::default() };
            let c = Cfg {
                n: p.polynomial_size,
                b: p.base_log,
                l: p.level_count,
                kb: p.key_switch_base_log,
                kl: p.key_switch_level_count,
                nb: p.negs_base_log,
                nl: p.negs_level_count,
                t: p.plaintext_modulus,
            };
            ensure!(p.standard_deviation <= -55.0, "harness: default deviation 2^{}", p.standard_deviation);
            let len = by_tier(6, 40);
            note(|| format!("{c:?} kind={kind} x {len}"));
            pool(2, 1, 0);
            let (h, items, rows, cols) = if kind == 3 { (3, 2, 3, 2) } else { (1, 2, 1, 2) };
            let hash = (1..100)
                .map(|s| fixed_hash(h, items, s))
                .find(|x| kind != 3 || attempt(|| x.hash_to_mapping(&[0, 1], cols)).is_ok())
                .unwrap_or_else(|| skip());
            let mut o = World::new(c, rows, cols, hash);
            for k in 0..len {
                match kind {
                    0 => o.one(OpK::R(0)),
                    1 => o.one(OpK::W(k % 2, k)),
                    2 => o.multi(&[OpK::W(0, k), OpK::R(0), OpK::W(1, k + 3)]),
                    _ => {
                        let v = pat(c.n, 2, k);
                        let map = o.hash.hash_to_mapping(&[0, 1], cols);
                        let q = o.client.gen_write_query_batch(&[0, 1], &pt(&v), &o.hash);
                        let ys = must("process_batch", || o.server.process_batch(q, &o.hash).0);
                        for (r, (_, i)) in &map {
                            let want = o.model[*i].clone();
                            o.check_resp(&ys[*r], &want, &format!("call {k}, row {r}"));
                            let s = key_words(&o.client.sk);
                            let e = maxerr(&phase(&s, &ys[*r]), &enc_of(&want, c.t)) as f64;
                            let lim = lim_stat(&c, cols, k + 1, h);
                            ensure!(e <= lim, "call {k}: response error 2^{:.1} above 2^{:.1}", e.log2(), lim.log2());
                        }
                        o.model = vec![v.clone(), v];
                        o.check_db(&format!("after call {k}"));
                        step();
                    }
                }
            }
            if kind != 3 {
                for i in 0..2 {
                    check_growth(&mut o, i, 3 * len, 1);
                }
            }
        }
    }
}
pub fn c24_bounds() -> String {
    format!("every periodic history of period at most {} over reads and writes of one and of two items, one at a time and in calls of 2 (and 4), {} (every operation alike) or {} operations at N=8 and {} at N=64, two decomposition settings, 1, 2 and 4 items; {} batched calls for four shapes, three item lists and four write patterns; default parameters (N=2048) with {} operations of every kind. The error of responses is compared with fresh error + operations x worst-case error of one operation, and with 64 standard deviations of the error by the variance calculus", by_tier(2, 3), by_tier(1100, 2500), by_tier(250, 900), by_tier(60, 200), by_tier(120, 600), by_tier(6, 40))
}
