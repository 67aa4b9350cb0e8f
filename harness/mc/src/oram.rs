//! C01, C02, C03, C23, C24: the ORAM against a plain array.
use crate::common::*;
use panacea::params::TFHEParameters;
use panacea::oram::{setup_random_oram, Client, Server};
use std::collections::HashMap;

/// The configuration is inside the supported noise range, by the worst-case calculus, for
/// `ops` operations on `cols` columns.
pub fn supported(c: &Cfg, cols: usize, ops: usize) -> bool {
    let k = cols.trailing_zeros() as usize;
    let rows = selector_rows(c, demux_err(c, k, 0.0));
    let e = FRESH + ops as f64 * 2.0 * cols as f64 * ext_err(c.n, c.b, c.l, rows, 1.0, 0.0);
    e < delta(c.t) as f64 / 2.0
}

/// Configurations: default-like, differing bases, differing level counts, single-level -s and
/// gadget, even/odd levels, larger rings, larger plaintext spaces; the first `max` of those that
/// support the workload.
pub fn cfgs(max: usize, t: u64, cols: usize, ops: usize) -> Vec<Cfg> {
    let v: Vec<Cfg> = [
        (8, 5, 9, 5, 11),
        (8, 7, 6, 9, 5),
        (8, 3, 17, 6, 9),
        (8, 14, 3, 16, 3),
        (8, 19, 2, 12, 4),
        (8, 11, 4, 4, 13),
        (8, 4, 10, 25, 1),
        (16, 6, 7, 8, 6),
        (8, 27, 1, 5, 11),
        (64, 5, 9, 5, 11),
        (8, 2, 20, 5, 9),
        (16, 11, 4, 7, 7),
        (32, 9, 5, 10, 5),
        (8, 1, 30, 5, 9),
        (8, 13, 3, 12, 4),
        (64, 8, 5, 7, 7),
    ]
    .iter()
    .map(|&(n, b, l, nb, nl)| cfg(n, b, l, 5, 11, nb, nl, t))
    .filter(|c| supported(c, cols, ops))
    .take(max)
    .collect();
    assert!(!v.is_empty(), "harness: no configuration supports this workload");
    v
}

/// One of the small-ring settings that support the workload, another one for another `key`.
fn varied(cols: usize, ops: usize, key: usize) -> Cfg {
    let v: Vec<Cfg> = cfgs(99, 2, cols, ops).into_iter().filter(|c| c.n == 8).collect();
    v[key % v.len()]
}
/// The setting with the largest plaintext modulus up to `t` (2^8, 2^4, 4, 2) that supports the
/// workload and `cols` further operations, by which the final state is read.
/// (`h` copies per item: the consistency correction adds two products per copy.)
pub fn lift_to(t: u64, c: Cfg, cols: usize, h: usize, ops: usize) -> Cfg {
    let ops = (ops + cols) * (1 + 2 * h.div_ceil(cols));
    [256u64, 16, 4]
        .iter()
        .filter(|x| **x <= t)
        .map(|t| Cfg { t: *t, ..c })
        .find(|c| supported(c, cols, ops))
        .unwrap_or(c)
}
/// Binary plaintexts for every third `key`, else the largest supported plaintext modulus.
pub fn lift(key: usize, c: Cfg, cols: usize, h: usize, ops: usize) -> Cfg {
    if key % 3 == 0 { c } else { lift_to(if key % 3 == 1 { 256 } else { 16 }, c, cols, h, ops) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum OpK {
    R(usize),
    W(usize, usize), // item, pattern
}
fn op_list(n: usize, pats: usize) -> Vec<OpK> {
    let mut v: Vec<OpK> = (0..n).map(OpK::R).collect();
    for i in 0..n {
        for p in 0..pats {
            v.push(OpK::W(i, p));
        }
    }
    v
}
pub fn pat(n: usize, t: u64, p: usize) -> Vec<u64> {
    match p {
        0 => vec![t - 1; n],
        _ => pattern(n, t, p as u64),
    }
}
pub fn word(v: &[u64]) -> u64 {
    v.iter().take(64).enumerate().fold(0, |a, (i, x)| a | (x << i))
}

pub struct World {
    pub cfg: Cfg,
    pub rows: usize,
    pub cols: usize,
    pub client: Client,
    pub server: Server,
    pub hash: NaiveHash,
    pub model: Vec<Vec<u64>>,
}
impl World {
    pub fn new(cfg: Cfg, rows: usize, cols: usize, hash: NaiveHash) -> Self {
        World::with(cfg, cfg.params(), rows, cols, hash)
    }
    pub fn with(cfg: Cfg, params: TFHEParameters, rows: usize, cols: usize, hash: NaiveHash) -> Self {
        let (client, server, pts) = must("setup_random_oram", || setup_random_oram(rows, cols, &hash, params));
        let model: Vec<Vec<u64>> = pts.iter().map(vals).collect();
        ensure!(model.len() == hash.input_domain(), "{} plaintexts for {} items", model.len(), hash.input_domain());
        let w = World { cfg, rows, cols, client, server, hash, model };
        w.check_db("after set-up");
        w
    }
    /// Every copy of every item in the server's database equals the model (binary plaintexts).
    pub fn check_db(&self, when: &str) {
        if self.cfg.t != 2 {
            return;
        }
        let db = must("decrypt_db", || self.server.decrypt_db(&self.client.sk));
        ensure!(
            db.len() == self.rows && db.iter().all(|r| r.len() == self.cols),
            "{when}: the database is not {} x {}", self.rows, self.cols
        );
        for i in 0..self.hash.input_domain() {
            for h in 0..self.hash.h_count() {
                let x = self.hash.hash(h, i);
                let got = db[x / self.cols][x % self.cols];
                let want = word(&self.model[i]);
                ensure!(
                    got == want,
                    "{when}: copy {h} of item {i} is {got:#x}, must be {want:#x}"
                );
            }
        }
        state(&(self.cfg, self.rows, self.cols, table(&self.hash), &self.model));
    }
    pub fn check_resp(&self, y: &RLWECiphertext, want: &[u64], what: &str) {
        let got = decode(&self.client.sk, y, &self.client.ctx);
        ensure!(got == want, "{what}: response {got:?}, must be {want:?}");
    }
    pub fn one(&mut self, op: OpK) {
        let n = self.cfg.n;
        let (y, i) = match op {
            OpK::R(i) => {
                let q = must("gen_read_query_one", || self.client.gen_read_query_one(i, &self.hash));
                (must("process_one", || self.server.process_one(q).0), i)
            }
            OpK::W(i, p) => {
                let d = pt(&pat(n, self.cfg.t, p));
                let q = must("gen_write_query_one", || self.client.gen_write_query_one(i, &d, &self.hash));
                (must("process_one", || self.server.process_one(q).0), i)
            }
        };
        step();
        self.check_resp(&y, &self.model[i].clone(), &format!("{op:?}"));
        if let OpK::W(i, p) = op {
            self.model[i] = pat(n, self.cfg.t, p);
        }
        self.check_db(&format!("after {op:?}"));
    }
    /// One process_multi call.
    pub fn multi(&mut self, ops: &[OpK]) {
        let (n, t) = (self.cfg.n, self.cfg.t);
        let qs: Vec<_> = ops
            .iter()
            .map(|op| match op {
                OpK::R(i) => must("gen_read_query_one", || self.client.gen_read_query_one(*i, &self.hash)),
                OpK::W(i, p) => {
                    let d = pt(&pat(n, t, *p));
                    must("gen_write_query_one", || self.client.gen_write_query_one(*i, &d, &self.hash))
                }
            })
            .collect();
        let ys = must("process_multi", || self.server.process_multi(qs).0);
        step();
        ensure!(ys.len() == ops.len(), "{} responses for {} queries", ys.len(), ops.len());
        for (k, (op, y)) in ops.iter().zip(&ys).enumerate() {
            let i = match op {
                OpK::R(i) | OpK::W(i, _) => *i,
            };
            self.check_resp(y, &self.model[i], &format!("query {k} ({op:?}) of {ops:?}"));
        }
        for op in ops {
            if let OpK::W(i, p) = op {
                self.model[*i] = pat(n, t, *p);
            }
        }
        self.check_db(&format!("after multi {ops:?}"));
    }
    /// The final state of a database of larger plaintexts: every copy of every item is read by
    /// batched queries, with a table of one copy per slot (binary ones have been decrypted).
    pub fn finish(&mut self) {
        if self.cfg.t == 2 {
            return;
        }
        if self.rows == 1 && self.hash.h_count() == 1 {
            return self.read_all();
        }
        let slots = self.rows * self.cols;
        let reader = fixed_hash(1, slots, 0);
        let mut at = vec![0; slots];
        (0..slots).for_each(|i| at[reader.hash(0, i)] = i);
        let mut want = vec![None; slots];
        for i in 0..self.hash.input_domain() {
            (0..self.hash.h_count()).for_each(|h| want[self.hash.hash(h, i)] = Some((h, i)));
        }
        for c in 0..self.cols {
            let items: Vec<usize> = (0..self.rows).map(|r| at[r * self.cols + c]).collect();
            let qs = must("gen_read_query_batch", || self.client.gen_read_query_batch(&items, &reader));
            let ys = must("process_batch", || self.server.process_batch(qs, &reader).0);
            step();
            ensure!(ys.len() == self.rows, "{} responses for {} rows", ys.len(), self.rows);
            for (r, y) in ys.iter().enumerate() {
                if let Some((h, i)) = want[r * self.cols + c] {
                    self.check_resp(y, &self.model[i], &format!("copy {h} of item {i}, read at the end"));
                }
            }
        }
        state(&(self.cfg, self.rows, self.cols, table(&self.hash), &self.model));
    }
    /// Read every item (with the given operation kind) and compare, for non-binary plaintexts.
    pub fn read_all(&mut self) {
        for i in 0..self.hash.input_domain() {
            self.one(OpK::R(i));
        }
    }
}

fn pools() -> (usize, u8, usize) {
    // workers, steal policy (0 none, 1 stolen-after, 2 stolen-before), first worker
    pick(&[(1, 0, 0), (8, 0, 3), (3, 1, 1), (2, 2, 0)])
}

/// Long histories: `len` operations in a fixed order over `n` items that visits every item with
/// reads and writes at changing distances; `kind` selects the order.
pub fn long_op(n: usize, kind: usize, k: usize) -> OpK {
    let i = match kind {
        0 => k % n,
        1 => (k * k / 3) % n,
        2 => if k % 7 == 6 { n - 1 } else { 0 },
        _ => (n - 1) - (k / 2) % n,
    };
    let write = match kind {
        0 => (k / n) % 2 == 0,
        1 => k % 3 != 1,
        2 => true,
        _ => k % 2 == 0,
    };
    if write { OpK::W(i, 1 + k) } else { OpK::R(i) }
}
/// Settings with real seeding and smaller deviations.
fn seeding(c: &Cfg) -> TFHEParameters {
    let mut p = c.params();
    (p.secure_seed, p.standard_deviation) = pick(&[(true, -55.0), (true, -62.0), (false, -62.5), (true, -300.0), (false, -56.0)]);
    note(|| format!("secure_seed={} standard_deviation={}", p.secure_seed, p.standard_deviation));
    p
}
pub fn c01() {
    match choose(7) {
        6 => {
            scenario("secure seeding and other deviations");
            let n = pick(&[1usize, 2, 8]);
            let c = pick(&cfgs(by_tier(3, 8), 2, n, 4));
            let c = lift(n + c.b, c, n, 1, 4);
            let p = seeding(&c);
            let (w, pol, f) = pools();
            pool(w, pol, f);
            let ops = op_list(n, 1);
            note(|| format!("{c:?}"));
            let mut o = World::with(c, p, 1, n, fixed_hash(1, n, 4));
            for _ in 0..by_tier(2, 3) {
                let op = pick(&if n == 8 { vec![OpK::R(0), OpK::W(3, 0), OpK::R(3), OpK::W(7, 0), OpK::R(7)] } else { ops.clone() });
                note(|| format!("{op:?}"));
                o.one(op);
            }
            o.finish();
        }
        4 => {
            scenario("long histories");
            let n = pick(by_tier(&[1usize, 2, 4, 16][..], &[1, 2, 4, 8, 16, 32][..]));
            let kind = choose(4);
            let len = if n < 3 { by_tier(1100, 4000) } else { by_tier(300, 2000) / n.max(4) * 4 };
            let c = lift(kind, cfg(8, 5, 9, 5, 11, 5, 11, 2), n, 1, len);
            pool(3, 1, 0);
            let hash = fixed_hash(1, n, 3 + kind as u64);
            note(|| format!("{c:?} items={n} order {kind}, {len} operations"));
            let mut o = World::new(c, 1, n, hash);
            for k in 0..len {
                o.one(long_op(n, kind, k));
            }
            o.finish();
        }
        5 => {
            scenario("larger rings and many items");
            let (n, t, items) = pick(by_tier(
                &[(256usize, 2u64, 8usize), (1024, 2, 2), (2048, 2, 2), (512, 16, 4), (8, 2, 64), (8, 2, 128), (16, 2, 256), (8, 2, 512), (8, 2, 1024)][..],
                &[(256, 2, 32), (1024, 2, 16), (2048, 2, 4), (2048, 2, 16), (2048, 256, 2), (512, 16, 4), (1024, 256, 8), (8, 2, 64), (8, 2, 256), (16, 2, 512), (8, 2, 1024), (64, 2, 128), (8, 2, 2048), (8, 2, 4096)][..],
            ));
            let c = cfg(n, 5, 9, 5, 11, 5, 11, t);
            let i = pick(&[0usize, items / 2, items - 1]);
            pool(4, 2, 1);
            let hash = fixed_hash(1, items, 11);
            note(|| format!("{c:?} items={items} index={i}"));
            let mut o = World::new(c, 1, items, hash);
            o.one(OpK::W(i, 1));
            o.one(OpK::R((i + 1) % items));
            o.one(OpK::W((i + items / 2) % items, 2));
            o.one(OpK::R(i));
        }
        0 => {
            scenario("histories over 1..4 items, all hash tables");
            let (n, depth) = pick(by_tier(&[(1, 4), (2, 3), (4, 1)][..], &[(1, 5), (2, 4), (4, 2)][..]));
            let c = pick(&cfgs(by_tier(9, 16), 2, n, depth + 1));
            let c = lift(n + c.b + c.nb, c, n, 1, depth);
            let (w, p, f) = if n == 2 && depth > 2 { (3, 2, 1) } else { pools() };
            pool(w, p, f);
            let hash = enum_hash(1, n);
            note(|| format!("{c:?} workers={w} policy={p} table={:?}", table(&hash)));
            let mut o = World::new(c, 1, n, hash);
            let ops = op_list(n, 2);
            for _ in 0..depth {
                let op = pick(&ops);
                note(|| format!("{op:?}"));
                o.one(op);
            }
            o.finish();
        }
        1 => {
            scenario("histories over 4 items, fixed tables");
            let n = 4;
            let c = pick(&cfgs(by_tier(3, 6), 2, n, 4));
            let c = lift(c.b, c, n, 1, 4);
            pool(3, 1, 0);
            let hash = fixed_hash(1, n, pick(&[0u64, 5]));
            note(|| format!("{c:?} table={:?}", table(&hash)));
            let mut o = World::new(c, 1, n, hash);
            let ops = op_list(n, by_tier(1, 2));
            for _ in 0..by_tier(2, 3) {
                let op = pick(&ops);
                note(|| format!("{op:?}"));
                o.one(op);
            }
            o.finish();
        }
        2 => {
            scenario("write or read every index of wider databases");
            let n = pick(by_tier(&[8usize, 16, 32][..], &[8, 16, 32, 64, 128][..]));
            let c = pick(&cfgs(by_tier(4, 10), 2, n, 4));
            pool(5, 2, 0);
            let i = choose(n);
            let c = lift(i, c, n, 1, 4);
            let hash = fixed_hash(1, n, 1 + n as u64);
            note(|| format!("{c:?} items={n} index={i}"));
            let mut o = World::new(c, 1, n, hash);
            o.one(OpK::R(i));
            o.one(OpK::W(i, 1));
            o.one(OpK::R((i + 1) % n));
            o.one(OpK::R(i));
        }
        _ => {
            scenario("larger plaintext moduli, state observed by reading all items");
            let t = pick(&[4u64, 16, 256]);
            let n = pick(&[2usize, 4]);
            let c = pick(&cfgs(by_tier(2, 6), t, n, 12));
            pool(2, 1, 1);
            let hash = fixed_hash(1, n, 7);
            note(|| format!("{c:?} items={n}"));
            let mut o = World::new(c, 1, n, hash);
            let ops = op_list(n, 2);
            for _ in 0..by_tier(1, 2) {
                let op = pick(&ops);
                note(|| format!("{op:?}"));
                o.one(op);
                o.read_all();
            }
        }
    }
}
pub fn c01_bounds() -> String {
    format!("up to {} decomposition settings (N 8..64, bases 2^1..2^30, 1..30 levels), those whose worst-case error bound stays below half a plaintext step; single-item to 4-item ORAMs with every hash table and every history of reads and writes (two written values) up to depth {}; wider ORAMs with every index; plaintext moduli 2 to 2^8 in turn (the largest the setting supports in two of three runs; binary databases decrypted after every operation, others read at the end); long histories ({} operations in four orders over 1 to {} items); rings up to 2048 and up to {} items with boundary indices; virtual pools of 1, 2, 3, 5, 8 workers with three steal patterns; secure seeding and deviations to 2^-300", by_tier(9, 16), by_tier("4/3/1 (1/2/4 items), 2 for 4 items with fixed tables", "5/4/2 (1/2/4 items), 3 for 4 items with fixed tables"), by_tier(1100, 4000), by_tier(16, 32), by_tier(1024, 4096))
}

pub fn c02() {
    match choose(6) {
        5 => {
            scenario("secure seeding and other deviations");
            let n = pick(&[1usize, 4]);
            let c = pick(&cfgs(by_tier(2, 6), 2, n, 6));
            let c = lift(n + c.b, c, n, 1, 8);
            let p = seeding(&c);
            pool(3, 1, 0);
            let mut seq: Vec<OpK> = match choose(4) {
                0 => (0..n).map(OpK::R).collect(),
                1 => (0..n).map(|i| OpK::W(n - 1 - i, 0)).collect(),
                2 => (0..3).map(|k| OpK::W(k % n, 0)).collect(),
                _ => vec![OpK::W(0, 0), OpK::R(n - 1), OpK::R(0), OpK::W(n / 2, 1)],
            };
            distinguish(&mut seq);
            note(|| format!("{c:?} {seq:?}"));
            let mut o = World::with(c, p, 1, n, fixed_hash(1, n, 4));
            o.multi(&seq);
            o.multi(&seq);
            o.finish();
        }
        3 => {
            scenario("long histories of calls");
            let n = pick(by_tier(&[1usize, 2, 4][..], &[1, 2, 4, 8, 16][..]));
            let kind = choose(4);
            let len = if n == 1 { by_tier(2500, 6000) } else { by_tier(300, 2000) };
            let c = lift(kind, cfg(8, 5, 9, 5, 11, 5, 11, 2), n, 1, len + len / 5);
            pool(3, 2, 0);
            let mut o = World::new(c, 1, n, fixed_hash(1, n, 3 + kind as u64));
            let mut k = 0;
            for call in 0.. {
                if k >= len {
                    break;
                }
                let q = [1usize, 3, 0, 2, 5, 1, 4][call % 7];
                let seq: Vec<OpK> = (k..k + q).map(|j| long_op(n, kind, j)).collect();
                k += q;
                o.multi(&seq);
                if call % 5 == 4 {
                    o.one(long_op(n, kind, k));
                }
            }
            o.finish();
        }
        4 => {
            scenario("calls of many queries, many items, larger rings");
            let (ring, items, q) = pick(by_tier(
                &[(8usize, 1usize, 17usize), (8, 2, 16), (8, 4, 9), (8, 4, 33), (8, 8, 8), (8, 16, 12), (8, 32, 5), (8, 64, 3), (256, 4, 5), (2048, 2, 3), (8, 1, 70), (8, 2, 135), (8, 1, 260), (8, 256, 3), (8, 1024, 2)][..],
                &[(8, 1, 40), (8, 2, 65), (8, 4, 33), (8, 8, 64), (8, 16, 40), (8, 32, 9), (8, 64, 16), (8, 256, 5), (256, 4, 17), (1024, 16, 5), (2048, 2, 9), (8, 1, 70), (8, 2, 135), (8, 1, 260), (8, 2, 520), (8, 1, 1030), (8, 1024, 3)][..],
            ));
            let kind = choose(4);
            let c = lift(kind, cfg(ring, 5, 9, 5, 11, 5, 11, 2), items, 1, q + 2);
            pool(5, 1, 1);
            let seq: Vec<OpK> = (0..q).map(|k| long_op(items, kind, k)).collect();
            note(|| format!("{c:?} items={items} call {seq:?}"));
            let mut o = World::new(c, 1, items, fixed_hash(1, items, 2));
            o.multi(&seq);
            o.multi(&[OpK::R(0), OpK::R(items - 1)]);
            if items <= 64 {
                o.finish();
            }
        }
        0 => {
            scenario("one call of 0..3 queries over 1..4 items");
            let n = pick(&[1usize, 2, 4]);
            let q = pick(by_tier(&[0usize, 1, 2][..], &[0, 1, 2, 3][..]));
            let c = pick(&cfgs(by_tier(8, 14), 2, n, q + 1));
            let c = lift(n + c.b + c.nb, c, n, 1, q);
            let (w, p, f) = pools();
            pool(w, p, f);
            let hash = fixed_hash(1, n, 3);
            let ops = op_list(n, if n == 4 { 1 } else { 2 });
            let mut seq: Vec<OpK> = (0..q).map(|_| pick(&ops)).collect();
            distinguish(&mut seq);
            note(|| format!("{c:?} workers={w} policy={p} queries {seq:?}"));
            let mut o = World::new(c, 1, n, hash);
            o.multi(&seq);
            o.finish();
        }
        1 => {
            scenario("histories of two calls, all hash tables, 2 items");
            let c = pick(&cfgs(by_tier(1, 3), 2, 2, 7));
            pool(4, 1, 2);
            let hash = enum_hash(1, 2);
            let c = lift(hash.hash(0, 0), c, 2, 1, 7);
            let mut o = World::new(c, 1, 2, hash);
            let ops = op_list(2, 2);
            for k in 0..2 {
                let q = pick(by_tier(&[0usize, 1, 2][..], &[0, 1, 2, 3][..]));
                let mut seq: Vec<OpK> = (0..if k == 1 { q.min(2) } else { q }).map(|_| pick(&ops)).collect();
                if k == 1 {
                    seq.iter_mut().for_each(|s| {
                        if let OpK::W(i, p) = s {
                            *s = OpK::W(*i, *p + 2)
                        }
                    });
                }
                distinguish(&mut seq);
                note(|| format!("call {seq:?}"));
                o.multi(&seq);
            }
            o.finish();
        }
        _ => {
            scenario("3 and 4 queries on 2 items and repeated access of one item");
            let q = pick(&[3usize, 4, 7]);
            let c = lift(q, pick(&cfgs(by_tier(1, 4), 2, 2, q + 1)), 2, 1, q);
            pool(3, 2, 0);
            let hash = fixed_hash(1, 2, 0);
            let ops = op_list(2, 1);
            let mut seq: Vec<OpK> = if q == 7 {
                let a = pick(&ops);
                let b = pick(&ops);
                (0..7).map(|k| if k % 3 == 2 { b } else { a }).collect()
            } else {
                (0..q).map(|_| pick(&ops)).collect()
            };
            distinguish(&mut seq);
            note(|| format!("{c:?} call {seq:?}"));
            let mut o = World::new(c, 1, 2, hash);
            o.multi(&seq);
            o.finish();
        }
    }
}
/// Give every write of a call its own value, so that the surviving one is identified.
fn distinguish(seq: &mut [OpK]) {
    for (k, s) in seq.iter_mut().enumerate() {
        if let OpK::W(i, p) = s {
            *s = OpK::W(*i, *p + 10 * k);
        }
    }
}
pub fn c02_bounds() -> String {
    format!("{} decomposition settings, 1, 2 and 4 items, every list of 0..{} queries (read or write, every value distinct) in one call, every list of 3 and 4 queries on 2 items, every pair of calls of up to 2 queries with every hash table, histories of {} queries in calls of up to 5, calls of up to {} queries, up to {} items, rings up to 2048, pools of 1, 2, 3, 4, 8 workers; plaintext moduli 2 to 2^8 in turn; secure seeding and deviations to 2^-300", by_tier(8, 14), by_tier(2, 3), by_tier(2500, 6000), by_tier(260, 1030), by_tier(1024, 1024))
}

/// Shapes (h, items, rows, cols) with h*items = rows*cols and cols a power of two.
fn shapes() -> Vec<(usize, usize, usize, usize)> {
    let mut v = vec![
        (2, 2, 2, 2),
        (2, 2, 4, 1),
        (2, 2, 1, 4),
        (1, 4, 2, 2),
        (1, 1, 1, 1),
        (3, 1, 3, 1),
        (4, 1, 2, 2),
        (3, 2, 3, 2),
    ];
    if tier() == Tier::Thorough {
        v.extend([(3, 2, 6, 1), (2, 3, 3, 2), (1, 2, 2, 1), (6, 1, 3, 2)]);
    }
    v
}
/// Every ordered list of distinct items.
pub fn item_list(n: usize, max: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let k = choose(max.min(n) + 1);
    (0..k)
        .map(|_| {
            let j = choose(left.len());
            left.remove(j)
        })
        .collect()
}

/// One batched call: read rows for `reads`, write rows for the items with `true`.
pub fn batch_call(o: &mut World, items: &[usize], writes: &[bool], salt: usize) {
    let (n, t) = (o.cfg.n, o.cfg.t);
    let map = match attempt(|| o.hash.hash_to_mapping(items, o.cols)) {
        Ok(m) => m,
        Err(_) => skip(), // refusal is C07's subject
    };
    // rows: take the write query where the row's item is to be written
    let mut qs: Vec<Option<_>> =
        must("gen_read_query_batch", || o.client.gen_read_query_batch(items, &o.hash)).into_iter().map(Some).collect();
    ensure!(qs.len() == o.rows, "{} queries for {} rows", qs.len(), o.rows);
    let mut newval: HashMap<usize, Vec<u64>> = HashMap::new();
    for (k, (it, w)) in items.iter().zip(writes).enumerate() {
        if !*w {
            continue;
        }
        let v = pat(n, t, 1 + salt * 10 + k);
        let p = pt(&v);
        let mut ws =
            must("gen_write_query_batch", || o.client.gen_write_query_batch(items, &p, &o.hash));
        ensure!(ws.len() == o.rows, "{} write queries for {} rows", ws.len(), o.rows);
        let r = *map.iter().find(|(_, (_, i))| i == it).unwrap_or_else(|| fail(format!("item {it} has no row"))).0;
        qs[r] = Some(ws.swap_remove(r));
        newval.insert(*it, v);
    }
    let qs: Vec<_> = qs.into_iter().map(|q| q.unwrap()).collect();
    let ys = must("process_batch", || o.server.process_batch(qs, &o.hash).0);
    step();
    ensure!(ys.len() == o.rows, "{} responses for {} rows", ys.len(), o.rows);
    for (r, (_, i)) in &map {
        o.check_resp(&ys[*r], &o.model[*i], &format!("row {r} serving item {i}"));
    }
    for (i, v) in newval {
        o.model[i] = v;
    }
    o.check_db(&format!("after batch {items:?} writes {writes:?}"));
}

pub fn c03() {
    match choose(10) {
        9 => {
            scenario("every copy of an item serves a write");
            let (h, n, rows, cols) = pick(by_tier(&[(9usize, 16usize, 9usize, 16usize), (16, 8, 16, 8)][..], &[(9, 16, 9, 16), (16, 8, 16, 8), (12, 32, 24, 16), (20, 16, 10, 32)][..]));
            let z = pick(by_tier(&[0usize, 5][..], &[0, 5, 7, 2][..]));
            let k = choose(h);
            let first = choose(2) == 1;
            let c = lift(k + 1, cfg(8, 7, 6, 5, 11, 7, 7, 2), cols, h, 2);
            pool(4, 1, 0);
            // a table and a list of items such that item z is served by its copy k: the rows of
            // its earlier copies are taken by others, its own is free
            let found = (0..by_tier(300u64, 2000)).find_map(|seed| {
                let hash = fixed_hash(h, n, seed);
                let row = |h: usize, i: usize| hash.hash(h, i) / cols;
                let mut need: Vec<usize> = (0..k).map(|j| row(j, z)).collect();
                need.sort_unstable();
                need.dedup();
                if need.contains(&row(k, z)) {
                    return None;
                }
                let mut list = vec![];
                for r in need {
                    list.push((0..n).find(|i| *i != z && row(0, *i) == r && !list.contains(i))?);
                }
                list.push(z);
                Some((hash, list))
            });
            let Some((hash, items)) = found else { skip() };
            let writes: Vec<bool> = (0..items.len()).map(|j| j + 1 == items.len() || first).collect();
            note(|| format!("{c:?} h={h} items={n} {rows}x{cols} copy {k} list={items:?} writes={writes:?}"));
            let mut o = World::new(c, rows, cols, hash);
            batch_call(&mut o, &items, &writes, k);
            batch_call(&mut o, &[z], &[false], k);
            o.finish();
        }
        8 => {
            scenario("any number of items, every item written");
            // all items of the table, a few per call, are overwritten and read back
            let (h, n, rows, cols) = pick(by_tier(
                &[(2usize, 3usize, 3usize, 2usize), (2, 5, 5, 2), (1, 7, 7, 1), (2, 9, 9, 2), (3, 12, 9, 4), (4, 17, 17, 4), (2, 33, 33, 2), (2, 66, 33, 4), (3, 100, 75, 4), (1, 130, 65, 2)][..],
                &[(2, 3, 3, 2), (2, 5, 5, 2), (3, 6, 9, 2), (1, 7, 7, 1), (2, 9, 9, 2), (4, 11, 11, 4), (3, 12, 9, 4), (2, 15, 15, 2), (4, 17, 17, 4), (2, 33, 33, 2), (4, 31, 31, 4), (2, 63, 63, 2), (2, 66, 33, 4), (3, 100, 75, 4), (1, 129, 129, 1), (1, 130, 65, 2), (2, 257, 257, 2), (8, 300, 75, 32)][..],
            ));
            let calls = if n > 40 { 1 } else { 3 };
            let c = lift(n, cfg(8, 8, 5, 5, 11, 8, 6, 2), cols, h, calls);
            pool(4, 1, 0);
            note(|| format!("{c:?} h={h} items={n} {rows}x{cols}"));
            let mut o = World::new(c, rows, cols, fixed_hash(h, n, 11));
            let mut left: Vec<usize> = (0..n).rev().collect();
            for k in 0..calls {
                // the last items first, then whatever fits
                let mut list: Vec<usize> = vec![];
                let mut map = std::collections::HashSet::new();
                for i in &left {
                    // (first free copy, as the placement does)
                    let t = (0..h).map(|x| o.hash.hash(x, *i) / cols).find(|r| !map.contains(r));
                    if let Some(r) = t {
                        map.insert(r);
                        list.push(*i);
                    }
                    if list.len() >= rows.min(if n > 40 { 9 } else { 20 }) {
                        break;
                    }
                }
                left.retain(|i| !list.contains(i));
                let writes = vec![true; list.len()];
                batch_call(&mut o, &list, &writes, k);
            }
            o.finish();
        }
        6 => {
            scenario("secure seeding and other deviations");
            let (h, n, rows, cols) = pick(&[(2usize, 2usize, 2usize, 2usize), (3, 8, 6, 4), (3, 2, 6, 1)]);
            let c = pick(&cfgs(by_tier(2, 6), 2, cols, 4));
            let seed = choose(by_tier(2, 6));
            let c = lift(h + seed + c.b, c, cols, h, 2);
            let p = seeding(&c);
            pool(3, 1, 0);
            let hash = fixed_hash(h, n, seed as u64);
            let items = pick(&[vec![], vec![0], vec![n - 1, 0], vec![0, n - 1]]);
            let mix = choose(3);
            let writes: Vec<bool> = (0..items.len()).map(|k| mix == 2 || (k + mix) % 2 == 0).collect();
            note(|| format!("{c:?} h={h} items={n} {rows}x{cols} list={items:?} writes={writes:?}"));
            let mut o = World::with(c, p, rows, cols, hash);
            batch_call(&mut o, &items, &writes, 0);
            batch_call(&mut o, &items, &writes, 1);
            o.finish();
        }
        7 => {
            scenario("shapes with many copies");
            // more copies than columns; every copy gets to serve a write
            let (h, n, rows, cols) = pick(&[(3usize, 4usize, 12usize, 1usize), (5, 3, 15, 1), (4, 3, 6, 2), (3, 4, 6, 2), (6, 4, 12, 2), (5, 8, 10, 4), (9, 4, 9, 4), (8, 4, 4, 8), (16, 2, 2, 16), (12, 3, 9, 4)]);
            let seed = choose(by_tier(8, 20));
            let c = lift(seed, varied(cols, 4, h + n + seed), cols, h, 1);
            pool(2, 1, 0);
            let hash = fixed_hash(h, n, seed as u64);
            let items = item_list(n.min(4), n.min(rows).min(4));
            let mix = choose(2);
            let writes: Vec<bool> = (0..items.len()).map(|k| mix == 0 || k + 1 == items.len()).collect();
            note(|| format!("h={h} items={n} {rows}x{cols} table={:?} list={items:?} writes={writes:?}", table(&hash)));
            let mut o = World::new(c, rows, cols, hash);
            batch_call(&mut o, &items, &writes, 0);
            o.finish();
        }
        4 => {
            scenario("long histories of batched calls");
            let (h, n, rows, cols) = pick(by_tier(
                &[(2usize, 2usize, 2usize, 2usize), (3, 2, 3, 2), (3, 4, 6, 2), (1, 4, 2, 2), (4, 4, 8, 2), (3, 8, 6, 4)][..],
                &[(2, 2, 2, 2), (3, 2, 3, 2), (3, 4, 6, 2), (1, 4, 2, 2), (4, 4, 8, 2), (3, 8, 6, 4), (2, 16, 8, 4), (5, 8, 10, 4), (3, 1, 3, 1)][..],
            ));
            let kind = choose(by_tier(2, 4));
            let calls = if n == 2 && rows == 2 { by_tier(1050, 2500) } else { by_tier(40, 250) };
            let c = lift(kind, cfg(8, 5, 9, 5, 11, 5, 11, 2), cols, h, calls);
            pool(4, 1, 0);
            let mut o = World::new(c, rows, cols, fixed_hash(h, n, 5 + kind as u64));
            for k in 0..calls {
                // a list the placement serves, of changing length and order
                let mut list: Vec<usize> = vec![];
                for j in 0..(k + kind) % (rows + 1) {
                    let i = (k * 3 + j * (1 + kind)) % n;
                    if !list.contains(&i) {
                        list.push(i);
                        if attempt(|| o.hash.hash_to_mapping(&list, cols)).is_err() {
                            list.pop();
                        }
                    }
                }
                let writes: Vec<bool> = (0..list.len()).map(|j| (k / 2 + j + kind) % 3 != 0).collect();
                note(|| format!("list={list:?} writes={writes:?}"));
                batch_call(&mut o, &list, &writes, k + 1);
            }
            o.finish();
        }
        5 => {
            scenario("larger rings, many rows and columns");
            let (ring, h, n, rows, cols) = pick(by_tier(
                &[(256usize, 3usize, 2usize, 3usize, 2usize), (2048, 2, 2, 2, 2), (8, 3, 32, 24, 4), (8, 2, 32, 2, 32), (8, 8, 8, 16, 4), (8, 3, 16, 48, 1), (8, 1, 64, 8, 8), (8, 12, 2, 12, 2), (8, 2, 64, 2, 64), (8, 2, 256, 2, 256), (8, 1, 1024, 1, 1024), (8, 2, 1024, 4, 512)][..],
                &[(256, 3, 8, 6, 4), (1024, 3, 4, 6, 2), (2048, 2, 2, 2, 2), (2048, 3, 8, 6, 4), (8, 3, 128, 24, 16), (8, 2, 128, 4, 64), (8, 8, 32, 16, 16), (8, 3, 64, 192, 1), (8, 1, 128, 16, 8), (8, 16, 4, 16, 4), (8, 2, 64, 2, 64), (8, 2, 256, 2, 256), (8, 1, 1024, 1, 1024), (8, 4, 2048, 4, 2048), (8, 1, 4096, 2, 2048)][..],
            ));
            let kind = choose(3);
            let c = lift(kind, cfg(ring, 5, 9, 5, 11, 5, 11, 2), cols, h, 2);
            pool(6, 2, 2);
            let mut o = World::new(c, rows, cols, fixed_hash(h, n, 9));
            for k in 0..2 {
                let mut list: Vec<usize> = vec![];
                for j in 0..n {
                    let i = match kind { 0 => j, 1 => n - 1 - j, _ => (j * 5 + 3 * k) % n };
                    if list.len() < rows && !list.contains(&i) {
                        list.push(i);
                        if attempt(|| o.hash.hash_to_mapping(&list, cols)).is_err() {
                            list.pop();
                        }
                    }
                }
                if list.len() > 8 {
                    list.drain(4..list.len() - 4);
                }
                let writes: Vec<bool> = (0..list.len()).map(|j| (k + j + kind) % 2 == 0).collect();
                note(|| format!("{c:?} h={h} items={n} {rows}x{cols} list={list:?} writes={writes:?}"));
                batch_call(&mut o, &list, &writes, 40 + k);
            }
            if cols <= 64 {
                o.finish();
            }
        }
        3 => {
            scenario("crowded shapes: every ordered list of up to 4 items, so that every copy gets to serve");
            let (h, n, rows, cols) = pick(&[(4, 4, 4, 4), (4, 4, 8, 2), (3, 4, 3, 4), (5, 4, 5, 4), (6, 2, 3, 4), (2, 4, 4, 2)]);
            let seed = choose(by_tier(12, 24));
            let c = lift(seed, varied(cols, 4, h * rows + seed), cols, h, 1);
            pool(4, 2, 1);
            let hash = fixed_hash(h, n, seed as u64);
            let items = item_list(n, rows);
            let mix = choose(3);
            let writes: Vec<bool> = (0..items.len()).map(|k| mix == 2 || (k + mix) % 2 == 0).collect();
            note(|| format!("h={h} items={n} {rows}x{cols} table={:?} list={items:?} writes={writes:?}", table(&hash)));
            let mut o = World::new(c, rows, cols, hash);
            batch_call(&mut o, &items, &writes, 0);
            o.finish();
        }
        0 => {
            scenario("one batched call, all hash tables, all item lists, all read/write mixes");
            let (h, n, rows, cols) = pick(&shapes());
            let hash = enum_hash(h, n);
            let key = hash.hash(0, 0);
            let c = lift(key, varied(cols, 4, 2 * h + n + rows + key), cols, h, 1);
            pool(3, 1, 0);
            let items = item_list(n, rows);
            let writes: Vec<bool> = items.iter().map(|_| choose(2) == 1).collect();
            note(|| format!("h={h} items={n} {rows}x{cols} table={:?} list={items:?} writes={writes:?}", table(&hash)));
            let mut o = World::new(c, rows, cols, hash);
            batch_call(&mut o, &items, &writes, 0);
            o.finish();
        }
        1 => {
            scenario("histories of two batched calls, all hash tables of 2 items in 2x2");
            let c = pick(&cfgs(by_tier(1, 3), 2, 2, 6));
            let (w, p, f) = pools();
            pool(w, p, f);
            let hash = enum_hash(2, 2);
            let c = lift(hash.hash(0, 0) + hash.hash(1, 0), c, 2, 2, 2);
            let mut o = World::new(c, 2, 2, hash);
            for k in 0..2 {
                let items = item_list(2, 2);
                let writes: Vec<bool> = items.iter().map(|_| choose(2) == 1).collect();
                note(|| format!("list={items:?} writes={writes:?}"));
                batch_call(&mut o, &items, &writes, k + 1);
            }
            o.finish();
        }
        _ => {
            scenario("larger shapes with fixed tables, all settings, every single item and every pair");
            let (h, n, rows, cols) = pick(by_tier(
                &[(3, 8, 6, 4), (4, 8, 8, 4), (2, 8, 2, 8)][..],
                &[(3, 8, 6, 4), (4, 8, 8, 4), (2, 8, 2, 8), (3, 16, 12, 4), (4, 16, 8, 8), (1, 16, 4, 4), (5, 8, 10, 4)][..],
            ));
            let c = pick(&cfgs(by_tier(5, 12), 2, cols, 4));
            pool(8, 2, 0);
            let hash = fixed_hash(h, n, pick(&[1u64, 2, 3]));
            let a = choose(n);
            let b = choose(n);
            let c = lift(a + b, c, cols, h, 1);
            let items = if a == b { vec![a] } else { vec![a, b] };
            let writes: Vec<bool> = items.iter().enumerate().map(|(k, _)| (a + b + k) % 2 == 0).collect();
            note(|| format!("{c:?} h={h} items={n} {rows}x{cols} list={items:?} writes={writes:?}"));
            let mut o = World::new(c, rows, cols, hash);
            batch_call(&mut o, &items, &writes, 0);
            o.finish();
        }
    }
}
pub fn c03_bounds() -> String {
    format!("shapes (h, items, rows, cols) {:?} with every permutation of the table, every ordered list of distinct items the placement accepts, every read/write mix; every pair of calls on 2x2; crowded shapes of 2 to 6 copies per item with {} fixed tables, every ordered list of up to 4 items and three read/write mixes; larger shapes with three fixed tables and every item pair, {} decomposition settings; histories of {} calls; shapes with 3 to 16 copies (few columns or few rows), every ordered list of up to 4 items; any number of items up to {}, all written; secure seeding and deviations to 2^-300; shapes of up to {} slots and rings up to 2048; plaintext moduli 2 (the whole database decrypted after every call) and 4, 2^4, 2^8 (every copy of every item read at the end, through a table of one copy per slot) in turn", shapes(), by_tier(12, 24), by_tier(5, 12), by_tier(1050, 2500), by_tier(130, 300), by_tier(2048, 8192))
}
