//! C30 (modes, preparation order and clients mixed freely), C31 (instances are independent).
use crate::common::*;
use crate::hom::check_rows;
use crate::oram::{batch_call, item_list, lift, long_op, pat, OpK, World};
use panacea::decision_tree::{compare_expand, encrypt_feature_vector, EncNode, Node};
use panacea::lwe::{conv_lwe_to_rlwe, LWECiphertext, LWESecretKey, LWEtoRLWEKeyswitchKey};
use panacea::oram::{Client, ClientQuery, Server};
use panacea::params::TFHEParameters;
use panacea::rlwe::{gen_all_subs_ksk, gen_all_subs_ksk_fourier, FourierRLWEKeyswitchKey};
use std::collections::HashMap;

// ---------------------------------------------------------------------- C30
/// How a list of queries is handed to the server.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Call {
    One(OpK),
    Multi(Vec<OpK>),
    Batch(Option<OpK>),
}
fn item(op: &OpK) -> usize {
    match op {
        OpK::R(i) | OpK::W(i, _) => *i,
    }
}
fn query(cl: &mut Client, o: &World, op: &OpK) -> ClientQuery {
    match op {
        OpK::R(i) => must("gen_read_query_one", || cl.gen_read_query_one(*i, &o.hash)),
        OpK::W(i, p) => {
            let d = pt(&pat(o.cfg.n, o.cfg.t, *p));
            must("gen_write_query_one", || cl.gen_write_query_one(*i, &d, &o.hash))
        }
    }
}
/// Hand prepared queries for `ops` to the server in the given mode and compare.
/// mode 0: one by one, 1: one multi-query call, 2: one batched call (a single query).
fn serve(o: &mut World, mode: usize, ops: &[OpK], qs: Vec<ClientQuery>) {
    let before = o.model.clone();
    let what = format!("{} {ops:?}", ["process_one", "process_multi", "process_batch"][mode]);
    let ys = match mode {
        0 => qs.into_iter().map(|q| must("process_one", || o.server.process_one(q).0)).collect(),
        1 => must("process_multi", || o.server.process_multi(qs).0),
        _ => must("process_batch", || o.server.process_batch(qs, &o.hash).0),
    };
    step();
    ensure!(mode == 2 || ys.len() == ops.len(), "{what}: {} responses", ys.len());
    for (k, op) in ops.iter().enumerate() {
        let i = item(op);
        let old = if mode == 0 { o.model[i].clone() } else { before[i].clone() };
        o.check_resp(&ys[k], &old, &format!("query {k} of {what}"));
        if let OpK::W(i, p) = op {
            o.model[*i] = pat(o.cfg.n, o.cfg.t, *p);
        }
    }
    o.check_db(&format!("after {what}"));
}
fn call(o: &mut World, c: &Call) {
    match c {
        Call::One(op) => o.one(*op),
        Call::Multi(ops) => o.multi(ops),
        Call::Batch(op) => {
            let items: Vec<usize> = op.iter().map(item).collect();
            let (writes, salt): (Vec<bool>, usize) = match op {
                Some(OpK::W(_, p)) => (vec![true], *p),
                Some(_) => (vec![false], 0),
                None => (vec![], 0),
            };
            batch_call(o, &items, &writes, salt)
        }
    }
}
fn pick_op(n: usize, value: usize) -> OpK {
    let i = choose(n);
    if choose(2) == 0 { OpK::R(i) } else { OpK::W(i, value) }
}
/// All orders of 0..n, by choice.
fn order(n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    (0..n).map(|_| left.remove(choose(left.len()))).collect()
}
fn settings(max: usize) -> Cfg {
    pick(&[cfg(8, 5, 9, 5, 11, 5, 11, 2), cfg(8, 14, 3, 5, 11, 16, 3, 2), cfg(16, 6, 7, 5, 11, 8, 6, 2), cfg(8, 7, 6, 5, 11, 9, 5, 2)][..max])
}
/// A second client of the same key.
fn other_client(o: &World) -> Client {
    let mut c = must("Client::new", || Client::new(o.rows, o.cols, o.cfg.params()));
    ensure!(key_words(&c.sk) == key_words(&o.client.sk), "a client made from equal parameters has another key");
    // the two clients' random sources differ from here on
    c.ctx.gen_pt();
    let mut x = RLWECiphertext::allocate(PolynomialSize(o.cfg.n));
    for _ in 0..37 {
        c.sk.encrypt_constant_rlwe(&mut x, &Plaintext(0), &mut c.ctx);
    }
    c
}
pub fn c30() {
    match choose(5) {
        0 => {
            scenario("single, multi-query and batched calls in any order");
            let n = pick(by_tier(&[1usize, 2][..], &[1, 2, 4][..]));
            let c = settings(by_tier(1, 2));
            let depth = by_tier([3, 2, 2][n / 2], [3, 3, 2][n / 2]);
            let (w, p) = pick(&[(1usize, 0u8), (3, 2)][..by_tier(1, 2)]);
            pool(w, p, 0);
            let calls: Vec<Call> = (0..depth)
                .map(|d| match choose(3) {
                    0 => Call::One(pick_op(n, 1 + d)),
                    1 => Call::Multi((0..choose(3)).map(|k| pick_op(n, 10 + 2 * d + k)).collect()),
                    _ => Call::Batch(if choose(2) == 0 { None } else { Some(pick_op(n, 20 + d)) }),
                })
                .collect();
            let writes = calls.iter().map(|x| match x {
                Call::One(op) | Call::Batch(Some(op)) => matches!(op, OpK::W(..)) as usize,
                Call::Multi(ops) => ops.iter().filter(|op| matches!(op, OpK::W(..))).count(),
                Call::Batch(None) => 0,
            });
            let c = lift(writes.sum(), c, n, 1, 2 * depth);
            note(|| format!("{c:?} items={n} {calls:?}"));
            let mut o = World::new(c, 1, n, fixed_hash(1, n, n as u64 + 3));
            calls.iter().for_each(|x| call(&mut o, x));
            o.finish();
        }
        1 => {
            scenario("queries prepared ahead, in any order, by either of two clients of one key, some never sent");
            let n = 2;
            let c = settings(by_tier(1, 3));
            pool(2, 1, 0);
            let ops: Vec<OpK> = (0..3).map(|k| pick_op(n, 1 + k)).collect();
            let prep = order(3);
            let who: Vec<usize> = (0..3).map(|_| choose(2)).collect();
            let mode = choose(4);
            let c = lift(mode, c, n, 1, 3);
            note(|| format!("{c:?} {ops:?} prepared in order {prep:?} by clients {who:?}, mode {mode}"));
            let mut o = World::new(c, 1, n, fixed_hash(1, n, 5));
            let mut clients = [other_client(&o), other_client(&o)];
            let mut ready: HashMap<usize, ClientQuery> = HashMap::new();
            for k in &prep {
                // and one that is never sent
                let _ = query(&mut clients[1 - who[*k]], &o, &OpK::W((*k + 1) % n, 77));
                let q = query(&mut clients[who[*k]], &o, &ops[*k]);
                ready.insert(*k, q);
            }
            let mut qs: Vec<ClientQuery> = (0..3).map(|k| ready.remove(&k).unwrap()).collect();
            match mode {
                0 | 1 => serve(&mut o, mode, &ops, qs),
                2 => {
                    let last = qs.split_off(1);
                    serve(&mut o, 2, &ops[..1], qs);
                    serve(&mut o, 1, &ops[1..], last);
                }
                _ => {
                    for (k, q) in qs.into_iter().enumerate() {
                        serve(&mut o, [0, 2, 1][k], &ops[k..k + 1], vec![q]);
                    }
                }
            }
            o.finish();
        }
        2 => {
            scenario("batches prepared ahead, in any order, their rows by either client");
            let (h, n, rows, cols) = pick(&[(2usize, 2usize, 2usize, 2usize), (1, 4, 2, 2), (3, 2, 3, 2), (1, 3, 3, 1)]);
            let c = lift(h, settings(by_tier(1, 2)), cols, h, 2);
            pool(3, 1, 0);
            let mut o = World::new(c, rows, cols, fixed_hash(h, n, 6));
            let lists: Vec<Vec<usize>> = (0..2).map(|_| item_list(n, rows.min(2))).collect();
            let maps: Vec<HashMap<usize, (usize, usize)>> = lists
                .iter()
                .map(|l| attempt(|| o.hash.hash_to_mapping(l, cols)).unwrap_or_else(|_| skip()))
                .collect();
            let late = choose(2);
            let mix = choose(4);
            let split = choose(2);
            note(|| format!("{c:?} h={h} {rows}x{cols} lists={lists:?} mix={mix} second first: {late} rows split: {split}"));
            let mut clients = [other_client(&o), other_client(&o)];
            let is_write = |k: usize, j: usize| (mix >> ((k + j) % 2)) & 1 == 1;
            let mut ready: Vec<Vec<ClientQuery>> = vec![vec![], vec![]];
            for k in if late == 1 { [1, 0] } else { [0, 1] } {
                let mut rowq: Vec<Option<ClientQuery>> = (0..rows).map(|_| None).collect();
                for (r, x) in must("gen_read_query_batch", || clients[0].gen_read_query_batch(&lists[k], &o.hash)).into_iter().enumerate() {
                    if split == 0 || r % 2 == 0 {
                        rowq[r] = Some(x);
                    }
                }
                for (r, x) in must("gen_read_query_batch", || clients[1].gen_read_query_batch(&lists[k], &o.hash)).into_iter().enumerate() {
                    if rowq[r].is_none() {
                        rowq[r] = Some(x);
                    }
                }
                for (r, (_, i)) in &maps[k] {
                    let j = lists[k].iter().position(|x| x == i).unwrap();
                    if is_write(k, j) {
                        let v = pt(&pat(c.n, c.t, 1 + 2 * k + j));
                        let cl = &mut clients[(split * r) % 2];
                        rowq[*r] = Some(must("gen_write_query_batch", || cl.gen_write_query_batch(&lists[k], &v, &o.hash)).swap_remove(*r));
                    }
                }
                ready[k] = rowq.into_iter().map(|q| q.unwrap()).collect();
            }
            for (k, qs) in ready.into_iter().enumerate() {
                let ys = must("process_batch", || o.server.process_batch(qs, &o.hash).0);
                step();
                ensure!(ys.len() == rows, "{} responses", ys.len());
                for (r, (_, i)) in &maps[k] {
                    o.check_resp(&ys[*r], &o.model[*i], &format!("call {k}, row {r}, item {i}"));
                }
                for (j, i) in lists[k].iter().enumerate() {
                    if is_write(k, j) {
                        o.model[*i] = pat(c.n, c.t, 1 + 2 * k + j);
                    }
                }
                o.check_db(&format!("after batch {k}"));
            }
            o.finish();
        }
        3 => {
            scenario("several rows: single and multi-query calls on the first row among batched calls on all");
            let (n, rows, cols) = pick(&[(4usize, 2usize, 2usize), (3, 3, 1), (8, 2, 4)][..by_tier(2, 3)]);
            let c = lift(n, settings(by_tier(1, 2)), cols, 1, 9);
            pool(3, 2, 0);
            let hash = fixed_hash(1, n, choose(by_tier(1, 2)) as u64);
            let mut o = World::new(c, rows, cols, hash);
            let first: Vec<usize> = (0..n).filter(|i| o.hash.hash(0, *i) < cols).collect();
            for d in 0..by_tier(if n == 4 { 2 } else { 3 }, if n == 3 { 3 } else { 2 + (n == 4) as usize }) {
                let kind = choose(3);
                if kind == 2 {
                    let list = item_list(n, 1 + (n < 4) as usize);
                    let mix = choose(2);
                    let writes = vec![mix == 0; list.len()];
                    note(|| format!("batch {list:?} {writes:?}"));
                    batch_call(&mut o, &list, &writes, d + 1);
                } else {
                    let i = pick(&first);
                    let op = if choose(2) == 0 { OpK::R(i) } else { OpK::W(i, 5 + d) };
                    note(|| format!("{kind} {op:?}"));
                    if kind == 0 {
                        o.one(op);
                    } else {
                        o.multi(&[op, OpK::R(first[0]), op]);
                    }
                }
            }
            o.finish();
        }
        _ => {
            scenario("long histories of mixed calls");
            let n = pick(&[1usize, 2, 4, 8]);
            let kind = choose(4);
            let turn = choose(3);
            let len = by_tier(400, 2500) / n;
            let c = lift(kind, cfg(8, 5, 9, 5, 11, 5, 11, 2), n, 1, 2 * len);
            pool(3, 1, 0);
            note(|| format!("items={n} order {kind} turns {turn}, {len} calls"));
            let mut o = World::new(c, 1, n, fixed_hash(1, n, 8));
            for k in 0..len {
                let op = long_op(n, kind, k);
                // alternating, in blocks, irregular
                match [k % 3, k / 17 % 3, (k * k / 5) % 3][turn] {
                    0 => o.one(op),
                    1 => {
                        let more = long_op(n, (kind + 1) % 4, k + 1);
                        o.multi(&[op, more][..1 + k % 2]);
                    }
                    _ => call(&mut o, &Call::Batch(Some(op))),
                }
            }
            o.finish();
        }
    }
}
pub fn c30_bounds() -> String {
    format!("every sequence of calls out of single, multi-query (0 to 2 queries) and batched: {}; three queries on two items in every order of preparation, by two clients of one key, with queries that are never sent, handed over in four ways; pairs of batches prepared in either order with rows from two clients, four shapes; two or three calls mixing the first row's single calls with batches on several rows; mixed histories of up to {} calls, four orders; the whole database decrypted after every call (binary plaintexts) or read through every copy at the end (moduli up to 2^8)", by_tier("3 calls on 1 item, 2 on 2", "3 calls on 1 and 2 items, 2 on 4"), by_tier(400, 2500))
}

// ---------------------------------------------------------------------- C31
trait Inst {
    fn step(&mut self, k: usize);
}
struct Single(World);
impl Inst for Single {
    fn step(&mut self, k: usize) {
        match k {
            0 => self.0.one(OpK::W(0, 3)),
            1 => self.0.multi(&[OpK::R(0), OpK::W(1, 4)]),
            _ => self.0.read_all(),
        }
    }
}
struct Batched(World);
impl Inst for Batched {
    fn step(&mut self, k: usize) {
        batch_call(&mut self.0, &[k % 2], &[k != 1], k + 1);
    }
}
/// Two servers with the same data and key, of the user's own making.
struct Replicas {
    a: World,
    b: World,
}
impl Replicas {
    fn new(c: Cfg, secure: bool) -> Self {
        let p = TFHEParameters { secure_seed: secure, ..c.params() };
        let mk = |key: Option<&Client>, salt: usize| {
            let mut client = must("Client::new", || Client::new(1, 2, p.clone()));
            says(&client.ctx, &c);
            if let Some(k) = key {
                client.sk = k.sk.clone();
            }
            let hash = fixed_hash(1, 2, 1);
            let mut data = vec![vec![RLWECiphertext::allocate(PolynomialSize(c.n)); 2]];
            let mut model = vec![];
            for i in 0..2 {
                let v = pat(c.n, c.t, i + salt);
                let at = hash.hash(0, i);
                client.sk.encode_encrypt_rlwe(&mut data[0][at], &pt(&v), &mut client.ctx);
                model.push(v);
            }
            let neg = must("gen_neg_sk", || client.gen_neg_sk());
            let server = must("Server::new", || Server::new(data, neg, p.clone()));
            World { cfg: c, rows: 1, cols: 2, client, server, hash, model }
        };
        let a = mk(None, 5);
        let b = mk(Some(&a.client), 5);
        a.check_db("a database of the user's own");
        b.check_db("a database of the user's own");
        Replicas { a, b }
    }
}
impl Inst for Replicas {
    fn step(&mut self, k: usize) {
        match k {
            0 => self.a.one(OpK::W(1, 9)),
            1 => {
                self.b.one(OpK::R(1));
                self.b.one(OpK::W(0, 10));
            }
            _ => {
                self.a.read_all();
                self.b.read_all();
            }
        }
    }
}
struct Tree {
    c: Cfg,
    ctx: Context,
    sk: RLWESecretKey,
    neg_s: RGSWCiphertext,
    ksk: HashMap<usize, FourierRLWEKeyswitchKey>,
    tree: Node,
}
impl Tree {
    fn new(c: Cfg, secure: bool, thr: [usize; 3]) -> Self {
        let mut ctx = Context::new(TFHEParameters { secure_seed: secure, ..c.params() });
        let sk = ctx.gen_rlwe_sk();
        let neg_s = sk.neg_gsw(&mut ctx);
        let ksk = gen_all_subs_ksk_fourier(&sk, &mut ctx);
        let tree = serde_json::from_str(&format!(
            r#"{{"internal":{{"threshold":{},"feature":0,"index":0,"op":"leq","left":{{"internal":{{"threshold":{},"feature":1,"index":1,"op":"leq","left":{{"leaf":1}},"right":{{"leaf":2}}}}}},"right":{{"internal":{{"threshold":{},"feature":1,"index":2,"op":"leq","left":{{"leaf":4}},"right":{{"leaf":7}}}}}}}}}}"#,
            thr[0], thr[1], thr[2]
        ))
        .unwrap_or_else(|e| fail(format!("tree: {e}")));
        Tree { c, ctx, sk, neg_s, ksk, tree }
    }
}
impl Inst for Tree {
    fn step(&mut self, k: usize) {
        let n = self.c.n;
        let flat = self.tree.flatten();
        for f in [vec![k, n - 1 - k], vec![n - 1, 2 * k], vec![2 + k, 3]] {
            let cts = must("encrypt_feature_vector", || encrypt_feature_vector(&self.sk, &f, &mut self.ctx));
            let root = must("compare_expand and EncNode::new", || {
                let mut bits = compare_expand(&flat, &cts, &self.neg_s, &self.ksk, &self.ctx);
                EncNode::new(&self.tree, &mut bits)
            });
            let mut buf = self.ctx.gen_fft_ctx();
            let out = must("EncNode::eval", || root.eval(&self.ctx, &mut buf));
            let got = out.iter().enumerate().map(|(b, y)| (decode(&self.sk, y, &self.ctx)[0] as usize) << b).sum::<usize>();
            let want = {
                // the meaning of the tree, not its code
                let thr: Vec<usize> = flat.iter().map(|x| x.threshold).collect();
                match (f[0] <= thr[0], f[1] <= thr[1], f[1] <= thr[2]) {
                    (true, true, _) => 1,
                    (true, false, _) => 2,
                    (false, _, true) => 4,
                    _ => 7,
                }
            };
            ensure!(got == want, "{:?}: tree on {f:?} evaluates to {got}, must be {want}", self.c);
            step();
        }
    }
}
struct Rings {
    c: Cfg,
    ctx: Context,
    sk: LWESecretKey,
    rsk: RLWESecretKey,
    conv: LWEtoRLWEKeyswitchKey,
    ksk: HashMap<usize, FourierRLWEKeyswitchKey>,
    g: RGSWCiphertext,
    buf: FftBuffer,
}
impl Rings {
    fn new(c: Cfg, secure: bool) -> Self {
        let mut ctx = Context::new(TFHEParameters { secure_seed: secure, ..c.params() });
        let sk = ctx.gen_lwe_sk();
        let rsk = sk.to_rlwe_sk();
        let mut conv = LWEtoRLWEKeyswitchKey::allocate(&ctx);
        conv.fill_with_keyswitching_key(&sk, &mut ctx);
        let ksk = gen_all_subs_ksk_fourier(&rsk, &mut ctx);
        let mut g = RGSWCiphertext::allocate(PolynomialSize(c.n), DecompositionBaseLog(c.b), DecompositionLevelCount(c.l));
        rsk.encrypt_constant_rgsw(&mut g, &Plaintext(1), &mut ctx);
        let buf = ctx.gen_fft_ctx();
        Rings { c, ctx, sk, rsk, conv, ksk, g, buf }
    }
}
impl Inst for Rings {
    fn step(&mut self, k: usize) {
        let (c, n) = (self.c, self.c.n);
        let s = key_words(&self.rsk);
        let m = pattern(n, c.t, k as u64 + 3);
        let mut x = RLWECiphertext::allocate(PolynomialSize(n));
        must("encode_encrypt_rlwe", || self.rsk.encode_encrypt_rlwe(&mut x, &pt(&m), &mut self.ctx));
        ensure!(decode(&self.rsk, &x, &self.ctx) == m, "{c:?}: decryption");
        let near = |what: &str, got: &[u64], want: &[u64], bound: f64| {
            let e = maxerr(got, want) as f64;
            ensure!(e <= bound, "{c:?}: {what} has error 2^{:.1}, the worst case is 2^{:.1}", e.log2(), bound.log2());
            step();
        };
        let ph = phase(&s, &x);
        let mut y = RLWECiphertext::allocate(PolynomialSize(n));
        must("external_product_with_buf", || self.g.external_product_with_buf(&mut y, &x, &mut self.buf));
        near("the external product by 1", &phase(&s, &y), &ph, ext_err(n, c.b, c.l, FRESH, 1.0, 0.0));
        let mut y = RLWECiphertext::allocate(PolynomialSize(n));
        must("trace1_fourier", || x.trace1_fourier(&mut y, &self.ksk));
        near("the trace", &phase(&s, &y), &unit(n, 0, ph[0].wrapping_mul(n as u64)), crate::hom::trace_err(n, c.kb, c.kl, FRESH, 0.0));
        let mut l = LWECiphertext::allocate(self.ctx.lwe_size());
        must("fill_with_sample_extract", || l.fill_with_sample_extract(&x, MonomialDegree(k)));
        let mut o = Plaintext(0);
        self.sk.decrypt_lwe(&mut o, &l);
        ensure!(o.0 == ph[k], "{c:?}: extraction of coefficient {k}");
        let y = must("conv_lwe_to_rlwe", || conv_lwe_to_rlwe(&self.conv, &l, &self.ctx));
        let bound = FRESH + n as f64 * (c.kl as f64 * (c.kb as f64 - 1.0).exp2() * FRESH + (63.0 - (c.kb * c.kl) as f64).exp2());
        near("LWE to RLWE", &phase(&s, &y), &unit(n, 0, ph[k]), bound);
    }
}
/// A context carries the settings it was made from.
fn says(ctx: &Context, c: &Cfg) {
    let want = [
        (c.n, ctx.poly_size.0),
        (c.b, ctx.base_log.0),
        (c.l, ctx.level_count.0),
        (c.kb, ctx.ks_base_log.0),
        (c.kl, ctx.ks_level_count.0),
        (c.nb, ctx.negs_base_log.0),
        (c.nl, ctx.negs_level_count.0),
        (c.t as usize, ctx.codec.pt_modulus() as usize),
    ];
    ensure!(want.iter().all(|(a, b)| a == b), "a context for {c:?} says {ctx}");
}
/// Everything a context's settings govern, checked against the settings themselves.
struct Governed {
    c: Cfg,
    std: f64,
    ctx: Context,
    sk: LWESecretKey,
    rsk: RLWESecretKey,
}
impl Governed {
    fn new(c: Cfg, std: f64, secure: bool, key: Option<&LWESecretKey>) -> Self {
        let mut ctx = Context::new(TFHEParameters { secure_seed: secure, standard_deviation: std, ..c.params() });
        let sk = key.cloned().unwrap_or_else(|| ctx.gen_lwe_sk());
        let rsk = sk.to_rlwe_sk();
        Governed { c, std, ctx, sk, rsk }
    }
}
impl Inst for Governed {
    fn step(&mut self, k: usize) {
        let (c, n) = (self.c, self.c.n);
        let what = format!("{c:?}, deviation 2^{}", self.std);
        let sigma = (64.0 + self.std).exp2();
        let f = 12.0 * sigma + 1.0;
        let s = key_words(&self.rsk);
        let near = |w: &str, got: &[u64], want: &[u64], bound: f64| {
            let e = maxerr(got, want) as f64;
            ensure!(e <= bound, "{what}: {w} has error 2^{:.1}, the worst case is 2^{:.1}", e.log2(), bound.log2());
            step();
        };
        let mut x = RLWECiphertext::allocate(PolynomialSize(n));
        let mut largest = 0;
        for r in 0..4 {
            let m = pattern(n, c.t, k as u64 + 3 + r);
            must("encode_encrypt_rlwe", || self.rsk.encode_encrypt_rlwe(&mut x, &pt(&m), &mut self.ctx));
            ensure!(decode(&self.rsk, &x, &self.ctx) == m, "{what}: decryption");
            let (got, want) = (phase(&s, &x), enc_of(&m, c.t));
            near("a fresh encryption", &got, &want, f);
            largest = largest.max(maxerr(&got, &want));
        }
        ensure!(largest as f64 > sigma / 64.0, "{what}: the largest error of {} fresh coefficients is {largest}", 4 * n);
        let ph = phase(&s, &x);
        match k {
            0 => {
                let mut g = RGSWCiphertext::allocate(PolynomialSize(n), DecompositionBaseLog(c.b), DecompositionLevelCount(c.l));
                must("encrypt_constant_rgsw", || self.rsk.encrypt_constant_rgsw(&mut g, &Plaintext(1), &mut self.ctx));
                check_rows(&what, &g, &unit(n, 0, 1), &s, c.b, c.l, f, f);
                let g = must("encrypt_constant_rgsw_vec", || self.rsk.encrypt_constant_rgsw_vec(&[Plaintext(0), Plaintext(1)], &mut self.ctx));
                check_rows(&what, &g[1], &unit(n, 0, 1), &s, c.b, c.l, f, f);
                let mut buf = self.ctx.gen_fft_ctx();
                let mut y = RLWECiphertext::allocate(PolynomialSize(n));
                must("external_product_with_buf", || g[1].external_product_with_buf(&mut y, &x, &mut buf));
                near("the external product by 1", &phase(&s, &y), &ph, ext_err(n, c.b, c.l, f, 1.0, 0.0));
                let g = must("neg_gsw", || self.rsk.neg_gsw(&mut self.ctx));
                check_rows(&what, &g, &pneg(&s), &s, c.nb, c.nl, f, f);
            }
            1 => {
                let want = unit(n, 0, ph[0].wrapping_mul(n as u64));
                let bound = crate::hom::trace_err(n, c.kb, c.kl, f, 0.0);
                let ksk = must("gen_all_subs_ksk_fourier", || gen_all_subs_ksk_fourier(&self.rsk, &mut self.ctx));
                let mut y = RLWECiphertext::allocate(PolynomialSize(n));
                must("trace1_fourier", || x.trace1_fourier(&mut y, &ksk));
                near("the trace", &phase(&s, &y), &want, bound);
                let ksk = must("gen_all_subs_ksk", || gen_all_subs_ksk(&self.rsk, &mut self.ctx));
                let y = must("trace1", || x.trace1(&ksk));
                near("the trace", &phase(&s, &y), &want, bound);
            }
            _ => {
                let mut conv = LWEtoRLWEKeyswitchKey::allocate(&self.ctx);
                must("fill_with_keyswitching_key", || conv.fill_with_keyswitching_key(&self.sk, &mut self.ctx));
                let mut l = LWECiphertext::allocate(self.ctx.lwe_size());
                let p = Plaintext(1);
                must("encode_encrypt_lwe", || self.sk.encode_encrypt_lwe(&mut l, &p, &mut self.ctx));
                let mut o = Plaintext(0);
                self.sk.decrypt_lwe(&mut o, &l);
                near("an LWE encryption", &[o.0], &[delta(c.t)], f);
                self.sk.decode_decrypt_lwe(&mut o, &l, &self.ctx);
                ensure!(o.0 == 1, "{what}: an LWE encryption of 1 decrypts to {}", o.0);
                self.sk.decrypt_lwe(&mut o, &l);
                let y = must("conv_lwe_to_rlwe", || conv_lwe_to_rlwe(&conv, &l, &self.ctx));
                let bound = f + n as f64 * (c.kl as f64 * (c.kb as f64 - 1.0).exp2() * f + (63.0 - (c.kb * c.kl) as f64).exp2());
                near("LWE to RLWE", &phase(&s, &y), &unit(n, 0, o.0), bound);
                says(&self.ctx, &c);
            }
        }
    }
}
/// A setting and those that differ from it in exactly one field.
fn neighbours() -> Vec<(Cfg, f64)> {
    let a = cfg(8, 9, 4, 5, 11, 6, 9, 16);
    let mut v = vec![(a, -55.0), (a, -40.0), (a, -61.0)];
    for x in [
        Cfg { n: 16, ..a }, Cfg { n: 32, ..a }, Cfg { b: 7, ..a }, Cfg { b: 12, ..a }, Cfg { l: 2, ..a }, Cfg { l: 6, ..a }, Cfg { kb: 4, ..a }, Cfg { kl: 7, ..a },
        Cfg { kl: 12, ..a }, Cfg { nb: 5, ..a }, Cfg { nl: 6, ..a }, Cfg { nl: 10, ..a }, Cfg { t: 2, ..a }, Cfg { t: 4, ..a }, Cfg { t: 1 << 20, ..a },
    ] {
        v.push((x, -55.0));
    }
    // the same digits split differently, and the settings of two purposes exchanged
    v.push((Cfg { b: 6, l: 6, ..a }, -55.0));
    v.push((Cfg { b: 4, l: 9, ..a }, -55.0));
    v.push((Cfg { b: 5, l: 11, kb: 9, kl: 4, ..a }, -55.0));
    v.push((Cfg { kb: 6, kl: 9, nb: 5, nl: 11, ..a }, -55.0));
    v
}
const KINDS: usize = 10;
fn make(kind: usize, secure: bool) -> Box<dyn Inst> {
    let a = cfg(8, 5, 9, 5, 11, 5, 11, 2);
    let b = cfg(8, 7, 6, 4, 13, 9, 5, 4);
    let c = cfg(16, 6, 7, 6, 9, 8, 6, 16);
    let world = |c: Cfg, rows: usize, h: usize| {
        let w = World::with(c, TFHEParameters { secure_seed: secure, ..c.params() }, rows, 2, fixed_hash(h, rows * 2 / h, 2 + secure as u64));
        says(&w.client.ctx, &c);
        w
    };
    match kind {
        0 => Box::new(Single(world(a, 1, 1))),
        1 => Box::new(Single(world(b, 1, 1))),
        2 => Box::new(Single(world(c, 1, 1))),
        3 => Box::new(Batched(world(a, 2, 2))),
        4 => Box::new(Batched(world(c, 3, 3))),
        5 => Box::new(Replicas::new(b, secure)),
        6 => Box::new(Tree::new(a, secure, [2, 3, 5])),
        7 => Box::new(Tree::new(cfg(16, 5, 9, 5, 11, 8, 7, 256), secure, [9, 12, 1])),
        8 => Box::new(Rings::new(cfg(8, 9, 4, 5, 11, 5, 11, 16), secure)),
        _ => Box::new(Rings::new(cfg(16, 4, 10, 7, 8, 5, 11, 4), secure)),
    }
}
/// The five events of an instance: creation, three steps, end.
struct Life {
    kind: usize,
    secure: bool,
    inst: Option<Box<dyn Inst>>,
    at: usize,
}
impl Life {
    fn new(kind: usize, secure: bool) -> Self {
        Life { kind, secure, inst: None, at: 0 }
    }
    fn go(&mut self) {
        match self.at {
            0 => self.inst = Some(make(self.kind, self.secure)),
            4 => self.inst = None,
            k => self.inst.as_mut().unwrap().step(k - 1),
        }
        self.at += 1;
    }
}
pub fn c31() {
    pool(3, 1, 0);
    match choose(4) {
        2 => {
            scenario("settings that differ in one field");
            let all = neighbours();
            let (i, j) = (choose(all.len()), choose(all.len()));
            if i == j {
                skip();
            }
            let key = choose(3);
            let order = choose(4);
            note(|| format!("{:?} then {:?}, key {key}, order {order}", all[i], all[j]));
            let mk = |q: (Cfg, f64), k: Option<&LWESecretKey>| must("Context::new", || Governed::new(q.0, q.1, key == 1, k));
            let mut a = mk(all[i], None);
            let same = (key == 2 && all[i].0.n == all[j].0.n).then(|| a.sk.clone());
            let all3 = |g: &mut Governed| (0..3).for_each(|k| g.step(k));
            match order {
                0 => {
                    all3(&mut a);
                    drop(a);
                    all3(&mut mk(all[j], same.as_ref()));
                }
                1 => {
                    let mut b = mk(all[j], same.as_ref());
                    for k in 0..3 {
                        a.step(k);
                        b.step(k);
                    }
                    all3(&mut a);
                }
                2 => {
                    let mut b = mk(all[j], same.as_ref());
                    drop(a);
                    all3(&mut b);
                }
                _ => {
                    all3(&mut a);
                    let mut b = mk(all[j], same.as_ref());
                    all3(&mut b);
                    all3(&mut a);
                    all3(&mut b);
                }
            }
            state(&(i, j, key, order));
        }
        3 => {
            scenario("hundreds of instances one after another");
            let kind = choose(KINDS + 1);
            let step = choose(3);
            note(|| format!("kind {kind}"));
            for i in 0..by_tier(160, 1100) {
                if kind == KINDS {
                    let all = neighbours();
                    let q = all[i * (step + 1) % all.len()];
                    let mut g = must("Context::new", || Governed::new(q.0, q.1, i % 3 == 0, None));
                    g.step((i + step) % 3);
                    g.step(2);
                } else {
                    let mut x = make(kind, i % 2 == step % 2);
                    x.step((i + step) % 3);
                }
            }
            state(&(kind, step));
        }
        0 => {
            scenario("two instances, every interleaving of their lives");
            let k = choose(KINDS);
            let j = choose(KINDS);
            if j < k {
                skip();
            }
            let mut v = [Life::new(k, false), Life::new(j, true)];
            let mut path = vec![];
            while v.iter().any(|x| x.at < 5) {
                let i = if v[0].at == 5 { 1 } else if v[1].at == 5 { 0 } else { choose(2) };
                path.push(i);
                note(|| format!("instance {i}, kind {}, event {}", v[i].kind, v[i].at));
                v[i].go();
            }
            state(&(k, j, path));
        }
        _ => {
            scenario("many instances in turn");
            let stride = 1 + choose(KINDS - 1);
            let late = choose(3);
            note(|| format!("stride {stride} late {late}"));
            let mut v: Vec<Life> = (0..by_tier(14, 40)).map(|i| Life::new(i * stride % KINDS, i % 3 == late)).collect();
            for round in 0..5 {
                let m = v.len();
                for i in 0..m {
                    let i = if round % 2 == 0 { i } else { m - 1 - i };
                    if late == 2 && round == 0 && i % 4 == 3 {
                        // made last, and lives through all its events later
                        continue;
                    }
                    v[i].go();
                }
            }
            v.iter_mut().for_each(|x| (x.at..5).for_each(|_| x.go()));
            state(&(stride, late));
        }
    }
}
pub fn c31_bounds() -> String {
    format!("all pairs of {KINDS} kinds of instance (single-row servers, batched servers, replicas over a database of the user's own, tree evaluation, ring conversions; four settings, two rings; fixed and secure seeding), each created, used three times and dropped, in every interleaving of these events; {} instances alive together in {} orders; all ordered pairs of {} settings that differ from one another in one or two fields, with three relations of the keys and four orders of creation, use and end, everything the settings govern checked against them; {} instances of every kind made and used one after another", by_tier(14, 40), 3 * (KINDS - 1), neighbours().len(), by_tier(160, 1100))
}
