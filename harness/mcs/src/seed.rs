//! C21: seeding and generated keys and plaintexts. Built in `mcs` so that contexts can be created
//! by concurrent threads under every bounded schedule of the real code's synchronisation.
use crate::common::*;
use panacea::lwe::{LWECiphertext, LWESecretKey};
use panacea::oram::Client;
use panacea::params::TFHEParameters as Params;
use panacea::rlwe::RLWEKeyswitchKey;
use concrete_core::prelude::LweSize;
use std::collections::HashMap;

const OPS: usize = 13;
const OP: [&str; OPS] = [
    "gen_rlwe_sk", "gen_lwe_sk", "gen_pt", "gen_binary_pt", "gen_ternary_ptxt", "gen_scalar_binary_pt", "encode_encrypt_rlwe", "encrypt_constant_rlwe",
    "encrypt_lwe", "encrypt_constant_rgsw", "neg_gsw", "keyswitch key", "encrypt_constant_rgsw_vec",
];
/// A context with its current keys.
struct S {
    c: Cfg,
    x: Context,
    sk: RLWESecretKey,
    lwe: LWESecretKey,
}
impl S {
    fn new(c: Cfg, p: Params) -> S {
        let mut x = must("Context::new", || Context::new(p));
        let sk = must("gen_rlwe_sk", || x.gen_rlwe_sk());
        let lwe = must("gen_lwe_sk", || x.gen_lwe_sk());
        S { c, x, sk, lwe }
    }
    fn key(&self) -> Vec<u64> {
        key_words(&self.sk)
    }
    fn op(&mut self, k: usize) -> Vec<u64> {
        let n = self.c.n;
        let (std, t) = (self.x.std, self.c.t);
        let range = |v: &[u64], what: &str, ok: fn(u64, u64) -> bool| {
            if let Some(bad) = v.iter().find(|w| !ok(**w, t)) {
                fail(format!("{what} with t={t} contains {bad:#x}"));
            }
        };
        must(OP[k], || match k {
            0 => {
                self.sk = self.x.gen_rlwe_sk();
                let w = self.key();
                range(&w, "an RLWE key", |w, _| w < 2);
                w
            }
            1 => {
                self.lwe = self.x.gen_lwe_sk();
                let w = key_words(&self.lwe.to_rlwe_sk());
                range(&w, "an LWE key", |w, _| w < 2);
                w
            }
            2 => {
                let w = vals(&self.x.gen_pt());
                range(&w, "a plaintext", |w, t| w < t);
                w
            }
            3 => {
                let w = vals(&self.x.gen_binary_pt());
                range(&w, "a binary plaintext", |w, _| w < 2);
                w
            }
            4 => {
                let w = vals(&self.x.gen_ternary_ptxt());
                range(&w, "a ternary plaintext", |w, _| w < 2 || w == u64::MAX);
                w
            }
            5 => {
                let w: Vec<u64> = (0..64).map(|_| self.x.gen_scalar_binary_pt().0).collect();
                range(&w, "a binary scalar", |w, _| w < 2);
                w
            }
            6 => {
                let mut ct = RLWECiphertext::allocate(PolynomialSize(n));
                self.sk.encode_encrypt_rlwe(&mut ct, &pt(&unit(n, 1, 1)), &mut self.x);
                [mask_of(&ct), body_of(&ct)].concat()
            }
            7 => {
                let mut ct = RLWECiphertext::allocate(PolynomialSize(n));
                self.sk.encrypt_constant_rlwe(&mut ct, &Plaintext(t - 1), &mut self.x);
                [mask_of(&ct), body_of(&ct)].concat()
            }
            8 => {
                let mut ct = LWECiphertext::allocate(LweSize(n + 1));
                self.lwe.encrypt_lwe(&mut ct, &Plaintext(1 << 60), std, &mut self.x.encryption_generator);
                ct.as_tensor().as_slice().to_vec()
            }
            9 => {
                let mut g = RGSWCiphertext::allocate(PolynomialSize(n), self.x.base_log, self.x.level_count);
                self.sk.encrypt_constant_rgsw(&mut g, &Plaintext(1), &mut self.x);
                gsw_words(&g)
            }
            10 => gsw_words(&self.sk.neg_gsw(&mut self.x)),
            11 => {
                let mut k = RLWEKeyswitchKey::allocate(self.x.ks_base_log, self.x.ks_level_count, PolynomialSize(n));
                let g = &mut self.x.encryption_generator;
                k.fill_with_keyswitch_key(&self.sk, &self.sk, std, g);
                gsw_words(&RGSWCiphertext::from_keyswitch_key(&k))
            }
            _ => self.sk.encrypt_constant_rgsw_vec(&vec![Plaintext(1), Plaintext(0)], &mut self.x).iter().flat_map(gsw_words).collect(),
        })
    }
}
fn gsw_words(g: &RGSWCiphertext) -> Vec<u64> {
    (0..2 * g.decomposition_level_count().0)
        .flat_map(|r| {
            let x = g.get_nth_row(r);
            [mask_of(&x), body_of(&x)].concat()
        })
        .collect()
}
fn secure(n: usize, t: u64) -> Params {
    // the default is secure seeding
    Params { polynomial_size: n, plaintext_modulus: t, ..Params::default() }
}
/// Draws of the three generators, each wide enough never to repeat by chance.
fn sample(p: Params) -> Vec<(&'static str, Vec<u64>)> {
    let n = p.polynomial_size;
    let mut x = must("Context::new", || Context::new(p));
    let sk = x.gen_rlwe_sk();
    let b = vals(&x.gen_binary_pt());
    let mut ct = RLWECiphertext::allocate(PolynomialSize(n));
    sk.encrypt_constant_rlwe(&mut ct, &Plaintext(0), &mut x);
    let k = key_words(&sk);
    let err = phase(&k, &ct);
    vec![("key", k), ("plaintext", b), ("mask", mask_of(&ct)), ("error", err)]
}
/// The words of a draw: masks and errors as they are, binary values as every run of 64.
fn pieces(name: &str, w: &[u64]) -> Vec<u64> {
    match name {
        "mask" => w.to_vec(),
        "key" | "plaintext" if w.len() >= 128 => w.windows(64).map(|b| b.iter().enumerate().fold(0, |a, (i, x)| a | (x & 1) << i)).collect(),
        _ => vec![],
    }
}
fn distinct(all: &[Vec<(&'static str, Vec<u64>)>]) {
    let mut words: HashMap<u64, usize> = HashMap::new();
    for (i, s) in all.iter().enumerate() {
        for (name, w) in s {
            for p in pieces(name, w) {
                if let Some(j) = words.insert(p, i) {
                    fail(format!("a part of the {name} of context {i} also occurs in context {j}, with secure seeding"));
                }
            }
        }
    }
    let mut seen: HashMap<&Vec<u64>, (usize, &str)> = HashMap::new();
    for (i, s) in all.iter().enumerate() {
        for (name, w) in s {
            if let Some((j, other)) = seen.insert(w, (i, name)) {
                fail(format!("context {i} has the same {name} as the {other} of context {j}, with secure seeding"));
            }
            ensure!(w.iter().any(|x| *x != w[0]), "the {name} of context {i} is constant");
        }
    }
}

pub fn c21() {
    pool(1, 0, 0);
    match choose(7) {
        6 => {
            scenario("long sequences of calls");
            let c = pick(&[cfg(64, 5, 9, 5, 11, 5, 11, 256), cfg(128, 7, 6, 9, 5, 4, 13, 1 << 40)]);
            let kind = choose(OPS + 2);
            let sec = choose(2) == 1;
            let len = by_tier(600, 5000);
            note(|| format!("{c:?} calls {kind} secure={sec}"));
            // one call repeated, or all of them in two orders
            let seq = |k: usize| if kind < OPS { kind } else if kind == OPS { k % OPS } else { (k * k / 3) % OPS };
            let mut a = S::new(c, Params { secure_seed: sec, ..c.params() });
            let mut b = S::new(c, Params { secure_seed: sec, ..c.params() });
            let mut seen = HashMap::new();
            for k in 0..len {
                let x = a.op(seq(k));
                let y = b.op(seq(k));
                step();
                ensure!((x == y) != sec, "{c:?} secure={sec}: call {k} ({}) gives {} results in two contexts", OP[seq(k)], if sec { "equal" } else { "different" });
                // 64 binary values and more never repeat
                for (who, w) in [(0, x), (1, y)] {
                    if who == 0 || sec {
                        // (with a fixed seed the generators of one context share it)
                        if let Some((j, w2)) = seen.insert((if sec { OPS } else { seq(k) }, w), (k, who)) {
                            fail(format!("{c:?} secure={sec}: call {k} ({}) in context {who} repeats the result of call {j} in context {w2}", OP[seq(k)]));
                        }
                    }
                }
            }
            state(&(c, kind, sec));
        }
        0 => {
            scenario("two contexts with fixed seed, in lock step");
            let c = pick(&[cfg(64, 5, 9, 5, 11, 5, 11, 256), cfg(8, 7, 6, 9, 5, 4, 13, 2), cfg(16, 4, 10, 5, 10, 25, 1, 4)][..by_tier(2, 3)]);
            let depth = 1 + choose(by_tier(3, 4));
            let seq: Vec<usize> = (0..depth).map(|_| choose(OPS)).collect();
            let alternate = choose(2) == 0;
            note(|| format!("{c:?} {:?} alternate={alternate}", seq.iter().map(|k| OP[*k]).collect::<Vec<_>>()));
            let mut a = S::new(c, c.params());
            let first: Vec<Vec<u64>>;
            let mut b;
            let second: Vec<Vec<u64>>;
            if alternate {
                b = S::new(c, c.params());
                let both: Vec<(Vec<u64>, Vec<u64>)> = seq.iter().map(|k| (a.op(*k), b.op(*k))).collect();
                (first, second) = both.into_iter().unzip();
            } else {
                first = seq.iter().map(|k| a.op(*k)).collect();
                b = S::new(c, c.params());
                second = seq.iter().map(|k| b.op(*k)).collect();
            }
            ensure!(a.key() == b.key() && key_words(&a.lwe.to_rlwe_sk()) == key_words(&b.lwe.to_rlwe_sk()), "equal parameters give different keys");
            for (k, (x, y)) in first.iter().zip(&second).enumerate() {
                ensure!(x == y, "{c:?}: call {k} ({}) of {:?} gives different results in two contexts", OP[seq[k]], seq);
                step();
            }
            state(&(c, &seq, alternate));
            // successive draws differ
            if c.n >= 64 {
                for i in 0..depth {
                    for j in 0..i {
                        if seq[i] == seq[j] {
                            ensure!(first[i] != first[j], "{} gives the same result twice ({seq:?})", OP[seq[i]]);
                        }
                    }
                }
            }
        }
        1 => {
            scenario("ranges and variety of generated values");
            let n = pick(&[8usize, 64, 256, 2048, 4096]);
            let tb = if n > 256 { pick(&[1, 8, 33, 62]) } else { 1 + choose(62) };
            let t = 1u64 << tb;
            let sec = choose(2) == 0;
            note(|| format!("N={n} t=2^{tb} secure={sec}"));
            let c = Cfg { n, t, ..cfg(8, 5, 9, 5, 11, 5, 11, 2) };
            let mut s = S::new(c, Params { secure_seed: sec, ..c.params() });
            for k in 0..6 {
                let all: Vec<u64> = (0..(1024 / n).max(1)).flat_map(|_| s.op(k)).collect();
                let top = if k == 2 { t - 1 } else if k == 4 { u64::MAX } else { 1 };
                let high = all.iter().any(|w| *w > top / 2);
                let low = all.iter().any(|w| *w <= top / 2);
                ensure!(high && low, "{} values of {} with t=2^{tb} leave out half of the range", all.len(), OP[k]);
                step();
            }
            // every position takes every value of every bit
            for (k, bits) in [(2usize, tb), (3, 1), (4, 2)] {
                let mut seen = vec![(0u64, 0u64, 0u8); n];
                for _ in 0..128 {
                    for (x, w) in seen.iter_mut().zip(s.op(k)) {
                        *x = (x.0 | w, x.1 | !w, x.2 | 1 << (w.wrapping_add(1) % 4));
                    }
                    step();
                }
                for (i, x) in seen.iter().enumerate() {
                    let all = (1u64 << bits) - 1;
                    let ok = if k == 4 { x.2 == 7 } else { x.0 & all == all && x.1 & all == all };
                    ensure!(ok, "N={n} t=2^{tb}: in 128 calls of {} coefficient {i} never took some of its values (bits set {:#x}, bits clear {:#x})", OP[k], x.0, x.1 & all);
                }
            }
            state(&(n, tb, sec));
            ensure!(vals(&s.x.gen_zero_pt()) == vec![0; n] && vals(&s.x.gen_unit_pt()) == unit(n, 0, 1), "constant plaintexts");
            ensure!(s.x.gen_scalar_unit_pt().0 == 1 && s.x.gen_scalar_zero_pt().0 == 0, "constant scalars");
            for i in 0..n {
                ensure!(vals(&s.x.gen_demuxed_pt(i)) == unit(n, i, 1), "gen_demuxed_pt({i})");
            }
        }
        2 => {
            scenario("many contexts with secure seeding");
            let n = pick(&[128usize, 256]);
            let k = by_tier(500, 5000);
            let mixed = choose(2) == 1;
            note(|| format!("{k} contexts, N={n}, mixed={mixed}"));
            let all: Vec<_> = (0..k)
                .map(|i| {
                    if mixed && i % 3 == 0 {
                        // contexts with fixed seed in between change nothing
                        let c = cfg(n, 5, 9, 5, 11, 5, 11, 2);
                        let _ = must("Context::new", || Context::new(c.params()));
                    }
                    sample(secure(n, 2 << (i % 3)))
                })
                .collect();
            steps(all.len() as u64);
            state(&(n, k, mixed));
            distinct(&all);
        }
        3 => {
            scenario("seeds have more than 32 bits");
            // by birthday, 32-bit seeds would give about 8 collisions (quick) among the masks
            let k = 1usize << by_tier(18, 20);
            note(|| format!("{k} contexts"));
            let mut seen = std::collections::HashSet::with_capacity(2 * k);
            let sk = key(&[0, 0]);
            for i in 0..k {
                let mut x = Context::new(secure(2, 2));
                let mut ct = RLWECiphertext::allocate(PolynomialSize(2));
                sk.encrypt_constant_rlwe(&mut ct, &Plaintext(0), &mut x);
                ensure!(seen.insert(mask_of(&ct)), "context {i} repeats the mask of an earlier one");
            }
            steps(k as u64);
            state(&k);
        }
        4 => {
            scenario("clients with secure seeding");
            let (rows, cols) = pick(&[(1usize, 1usize), (1, 4), (3, 2)]);
            note(|| format!("rows={rows} cols={cols}"));
            let mut clients: Vec<Client> = (0..by_tier(8, 64)).map(|_| must("Client::new", || Client::new(rows, cols, secure(128, 2)))).collect();
            let all: Vec<_> = clients.iter_mut().map(|c| vec![("key", key_words(&c.sk)), ("plaintext", vals(&c.ctx.gen_binary_pt()))]).collect();
            steps(all.len() as u64);
            state(&(rows, cols));
            distinct(&all);
        }
        _ => {
            scenario("contexts created by concurrent threads");
            let threads = 2 + choose(by_tier(2, 3));
            let each = 1 + choose(2);
            let baseline = choose(3) as u8;
            let before = choose(2) == 1;
            set_dev_bound(by_tier(2, 3));
            note(|| format!("{threads} threads, {each} contexts each, baseline {baseline}, one before: {before}"));
            let mut all = vec![];
            if before {
                all.push(sample(secure(128, 2)));
            }
            let r = crate::run(1, baseline, || {
                let hs: Vec<_> = (0..threads).map(|_| vstd::thread::spawn(move || (0..each).map(|_| sample(secure(128, 2))).collect::<Vec<_>>())).collect();
                hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| panic!("a thread failed"))).collect::<Vec<_>>()
            });
            all.extend(r.unwrap_or_else(|m| fail(format!("{threads} threads: {m}"))));
            ensure!(all.len() == threads * each + before as usize, "{} contexts", all.len());
            steps(all.len() as u64);
            state(&(threads, each, baseline, before, chosen().len()));
            distinct(&all);
        }
    }
}
pub fn c21_bounds() -> String {
    format!("two contexts with fixed seed in lock step over every sequence of at most {} of 13 generating calls for {} settings, alternating or one after the other; {} calls of each kind and of all in two orders, fixed and secure, every result new; every plaintext modulus 2^1..2^62 for rings 8, 64, 256 and four for rings 2048 and 4096, every bit of every generated coefficient taking both values; {} secure contexts with all keys, plaintexts, masks and errors pairwise different; 2^{} secure contexts with different masks; secure clients; up to {} controlled threads creating up to 2 contexts each, every schedule with at most {} deviations from three baselines", by_tier(3, 4), by_tier(2, 3), by_tier(600, 5000), by_tier(500, 5000), by_tier(18, 20), by_tier(3, 4), by_tier(2, 3))
}
