//! C27 (noise of encryptions), C28 (the server's work does not depend on the query), C29 (refusals).
use crate::common::*;
use crate::oram::{pat, OpK, World};
use crate::query::{live, record, traced, tracking};
use panacea::decision_tree::{
    bit_decomposed_rgsw, compare_expand, encrypt_feature_vector, EncNode, Internal, Node, Op,
};
use panacea::lwe::{LWECiphertext, LWESecretKey, LWEtoRLWEKeyswitchKey};
use panacea::oram::{setup_random_oram, Client, ClientQuery, Server};
use panacea::rlwe::{
    expand_slow, gen_all_subs_ksk, gen_all_subs_ksk_fourier, make_decomposed_rlwe_ct, make_decomposed_rlwe_ct2,
    FourierRLWECiphertext, RLWEKeyswitchKey,
};

// ---------------------------------------------------------------------- C27
/// Errors and masks collected from one kind of encryption.
struct Obs {
    err: Vec<Vec<i64>>,
    mask: Vec<u64>,
}
impl Obs {
    fn row(&mut self, s: &[u64], row: &[u64], grain: u32) {
        let n = s.len();
        let ph = psub(&row[n..], &pmul(&row[..n], s));
        self.err.push(ph.iter().map(|p| centre(*p, grain)).collect());
        self.mask.extend(&row[..n]);
    }
    fn ct(&mut self, s: &[u64], c: &RLWECiphertext, grain: u32) {
        let mut w = mask_of(c);
        w.extend(body_of(c));
        self.row(s, &w, grain);
    }
    fn heap<R>(&mut self, s: &[u64], grain: u32, what: &str, f: impl FnOnce() -> R) -> R {
        let (r, h) = record(s.len(), what, f);
        for row in h.blocks.iter().flat_map(|b| b.chunks(2 * s.len())) {
            self.row(s, row, grain);
        }
        r
    }
}
/// Distance to the nearest multiple of 2^grain.
fn centre(p: u64, grain: u32) -> i64 {
    let m = (1u64 << grain) - 1;
    let half = 1u64 << (grain - 1);
    ((p.wrapping_add(half) & m) as i64) - half as i64
}
/// Centred, of the configured deviation, uncorrelated, present in every coefficient.
fn check_errors(err: &[Vec<i64>], sigma: f64, what: &str) {
    let n = err[0].len();
    let cnt = (err.len() * n) as f64;
    let all = || err.iter().flatten().map(|e| *e as f64 / sigma);
    let rms = (all().map(|e| e * e).sum::<f64>() / cnt).sqrt();
    let lim = 14.0 / (2.0 * cnt).sqrt();
    ensure!(
        (rms - 1.0).abs() <= lim,
        "{what}: the error has deviation 2^{:.2}, configured is 2^{:.2} ({cnt} coefficients)", (rms * sigma).log2(), sigma.log2()
    );
    let max = all().fold(0.0f64, |a, e| a.max(e.abs()));
    ensure!(max <= 12.0, "{what}: an error is {max:.1} standard deviations");
    let mean = all().sum::<f64>() / cnt;
    ensure!(mean.abs() <= 10.0 / cnt.sqrt(), "{what}: the errors have mean {mean:.3} standard deviations");
    if n > 1 {
        for lag in [1, n / 2] {
            let c: f64 = err.iter().flat_map(|e| (lag..n).map(move |j| e[j] as f64 * e[j - lag] as f64)).sum::<f64>() / (sigma * sigma);
            let m = (err.len() * (n - lag)) as f64;
            ensure!(c.abs() <= 12.0 * m.sqrt(), "{what}: errors {lag} coefficients apart are correlated ({:.2})", c / m);
        }
    }
    for (i, w) in err.windows(2).enumerate() {
        ensure!(w[0].len() < 4 || w[0] != w[1], "{what}: ciphertexts {i} and {} have the same error", i + 1);
    }
    // a coefficient that never gets (real) noise
    if err.len() >= 12 {
        for j in 0..n {
            ensure!(err.iter().any(|e| (e[j] as f64).abs() > sigma / 64.0), "{what}: coefficient {j} is encrypted without noise");
        }
    }
}
fn check_masks(mask: &[u64], what: &str) {
    let cnt = mask.len() as f64;
    for b in 0..64 {
        let ones = mask.iter().filter(|w| *w >> b & 1 == 1).count() as f64;
        ensure!(
            (ones - cnt / 2.0).abs() <= 6.0 * cnt.sqrt(),
            "{what}: bit {b} of the mask words is set in {ones} of {cnt}"
        );
    }
    let mut s = mask.to_vec();
    s.sort_unstable();
    ensure!(s.windows(2).all(|w| w[0] != w[1]), "{what}: two mask words are equal");
}
const KINDS: [&str; 21] = [
    "encrypt_rlwe", "encode_encrypt_rlwe", "ternary_encrypt_rlwe", "encrypt_constant_rlwe", "encrypt_lwe",
    "encode_encrypt_lwe", "encrypt_constant_rgsw", "encrypt_rgsw", "encrypt_constant_rgsw_vec", "neg_gsw",
    "fill_with_keyswitch_key", "gen_all_subs_ksk", "LWE to RLWE key", "make_decomposed_rlwe_ct",
    "make_decomposed_rlwe_ct2", "encrypt_feature_vector", "read query", "write query", "database",
    "bit_decomposed_rgsw", "fill_with_subs_keyswitch_key",
];
pub fn c27() {
    match choose(3) {
        0 => {
            scenario("every way of encrypting x deviations x ring sizes");
            let kind = choose(KINDS.len());
            let sd = pick(by_tier(&[-55.0f64, -42.5, -59.5, -32.0][..], &[-55.0, -50.0, -45.25, -42.5, -59.5, -32.0, -58.0, -37.75][..]));
            let n = pick(if sd == -55.0 && !matches!(kind, 11 | 12) { by_tier(&[64usize, 256, 2048, 4096][..], &[8, 32, 64, 256, 1024, 2048, 4096][..]) } else { by_tier(&[64usize, 256][..], &[8, 32, 64, 256, 1024][..]) });
            let what = format!("{} (N={n}, deviation 2^{sd})", KINDS[kind]);
            noise(kind, sd, n, &what);
        }
        1 => {
            scenario("Fourier substitution keys, read out through substitutions");
            let sd = pick(by_tier(&[-40.0f64][..], &[-42.0, -40.0, -36.5][..]));
            let n = pick(by_tier(&[64usize][..], &[32, 64, 256][..]));
            let (kb, kl) = (5usize, 4usize);
            let mut p = cfg(n, 5, 4, kb, kl, 5, 4, 2).params();
            p.standard_deviation = sd;
            let mut ctx = Context::new(p);
            let sk = ctx.gen_rlwe_sk();
            let s = key_words(&sk);
            let what = format!("gen_all_subs_ksk_fourier (N={n}, deviation 2^{sd})");
            let keys = must("gen_all_subs_ksk_fourier", || gen_all_subs_ksk_fourier(&sk, &mut ctx));
            ensure!(!keys.is_empty(), "no substitution keys");
            let mut err = vec![];
            let mut ks: Vec<_> = keys.keys().copied().collect();
            ks.sort_unstable();
            for k in ks {
                for level in 1..=kl {
                    // the mask is one unit of this level: the result carries exactly that row's error
                    let c = ct_of(&unit(2 * n, 0, 1u64 << (64 - kb * level)));
                    let mut o = FourierRLWECiphertext::new(n);
                    must("subs", || keys[&k].subs(&mut o, &c));
                    let o = o.backward_as_torus();
                    let want = psubst(&phase(&s, &c), k);
                    err.push(psub(&phase(&s, &o), &want).iter().map(|x| *x as i64).collect::<Vec<i64>>());
                    step();
                }
            }
            state(&(n, sd.to_bits()));
            check_errors(&err, (sd + 64.0).exp2(), &what);
        }
        _ => {
            scenario("secret keys are balanced");
            let n = pick(&[8usize, 64, 1024]);
            let secure = choose(2) == 1;
            let mut p = cfg(n, 5, 9, 5, 11, 5, 11, 2).params();
            p.secure_seed = secure;
            let mut ctx = Context::new(p);
            let reps = by_tier(8192, 65536) / n;
            for lwe in [false, true] {
                let (mut ones, mut at) = (0u64, vec![0u64; n]);
                for _ in 0..reps {
                    let w = if lwe { key_words(&ctx.gen_lwe_sk().to_rlwe_sk()) } else { key_words(&ctx.gen_rlwe_sk()) };
                    for (j, b) in w.iter().enumerate() {
                        ensure!(*b < 2, "a key coefficient is {b:#x}");
                        ones += b;
                        at[j] += b;
                    }
                    step();
                }
                let cnt = (reps * n) as f64;
                ensure!((ones as f64 - cnt / 2.0).abs() <= 6.0 * cnt.sqrt(), "LWE {lwe}: {ones} of {cnt} key coefficients are set");
                if reps >= 100 {
                    for (j, a) in at.iter().enumerate() {
                        ensure!((*a as f64 - reps as f64 / 2.0).abs() <= 6.0 * (reps as f64).sqrt(), "LWE {lwe}: key coefficient {j} is set in {a} of {reps} keys");
                    }
                }
            }
            state(&(n, secure));
        }
    }
}
fn noise(kind: usize, sd: f64, n: usize, what: &str) {
    // explicit deviation parameters are used as given, not that of the context
    let explicit = matches!(kind, 0 | 4 | 10 | 20);
    let (b, l, kb, kl, nb, nl) = (4usize, 4usize, 6usize, 3usize, 8usize, 2usize);
    let mut p = cfg(n, b, l, kb, kl, nb, nl, 4).params();
    p.standard_deviation = if explicit { -61.0 } else { sd };
    let mut ctx = Context::new(p.clone());
    let sk = ctx.gen_rlwe_sk();
    let s = key_words(&sk);
    let d = LogStandardDev(sd);
    let ps = PolynomialSize(n);
    let mut o = Obs { err: vec![], mask: vec![] };
    let g = |b: usize, l: usize| 64 - (b * l) as u32;
    let logn = n.trailing_zeros();
    let want = by_tier(4096, 16384).max(16 * n);
    let mut client = Client::new(1, 2, p.clone());
    let cs = key_words(&client.sk);
    let hash = fixed_hash(1, 2, 1);
    let lwe_sk = LWESecretKey::generate_binary(concrete_core::prelude::LweDimension(n), &mut ctx.secret_generator);
    let ls = key_words(&lwe_sk.to_rlwe_sk());
    let mut rep = 0u64;
    let mut lwe_err: Vec<i64> = vec![];
    while o.err.len() * n < want && lwe_err.len() < 4096 {
        let bit = rep % 2;
        let alloc = |b: usize, l: usize| RGSWCiphertext::allocate(ps, DecompositionBaseLog(b), DecompositionLevelCount(l));
        let mut c = ct_of(&words(2 * n, rep));
        let rows = |o: &mut Obs, r: &RGSWCiphertext, gr: u32| {
            (0..r.ciphertext_count().0).for_each(|k| o.ct(&s, &r.get_nth_row(k), gr))
        };
        match kind {
            0 => { sk.encrypt_rlwe(&mut c, &pt(&vec![bit << 62; n]), d, &mut ctx.encryption_generator); o.ct(&s, &c, 62) }
            1 => { sk.encode_encrypt_rlwe(&mut c, &pt(&pattern(n, 4, rep)), &mut ctx); o.ct(&s, &c, 62) }
            2 => {
                // the ternary code is not a power of two apart: encrypt zero and subtract the code of one
                sk.ternary_encrypt_rlwe(&mut c, &pt(&vec![0; n]), &mut ctx);
                o.ct(&s, &c, 60);
            }
            3 => { sk.encrypt_constant_rlwe(&mut c, &Plaintext(bit << 63), &mut ctx); o.ct(&s, &c, 63) }
            4 | 5 => {
                let mut c = LWECiphertext::allocate(ctx.lwe_size());
                if kind == 4 {
                    lwe_sk.encrypt_lwe(&mut c, &Plaintext(bit << 62), d, &mut ctx.encryption_generator);
                } else {
                    lwe_sk.encode_encrypt_lwe(&mut c, &Plaintext(rep % 4), &mut ctx);
                }
                let w = c.as_tensor().as_slice();
                let ph = (0..n).fold(w[n], |x, i| x.wrapping_sub(w[i].wrapping_mul(ls[i])));
                lwe_err.push(centre(ph, 62));
                if o.mask.len() < 1 << 16 {
                    o.mask.extend(&w[..n]);
                }
            }
            6 => { let mut r = alloc(b, l); sk.encrypt_constant_rgsw(&mut r, &Plaintext(bit), &mut ctx); rows(&mut o, &r, g(b, l)) }
            7 => { let mut r = alloc(b, l); sk.encrypt_rgsw(&mut r, &pt(&pattern(n, 2, rep)), &mut ctx); rows(&mut o, &r, g(b, l)) }
            8 => {
                for r in sk.encrypt_constant_rgsw_vec(&[Plaintext(0), Plaintext(1), Plaintext(1)], &mut ctx) {
                    rows(&mut o, &r, g(b, l));
                }
            }
            9 => { let r = sk.neg_gsw(&mut ctx); rows(&mut o, &r, g(nb, nl)) }
            10 => {
                let from = key(&pattern(n, 2, 500 + rep));
                let mut k = RLWEKeyswitchKey::allocate(DecompositionBaseLog(kb), DecompositionLevelCount(kl), ps);
                o.heap(&s, g(kb, kl), what, || { k.fill_with_keyswitch_key(&from, &sk, d, &mut ctx.encryption_generator); k.clone() });
            }
            11 => { o.heap(&s, g(kb, kl), what, || gen_all_subs_ksk(&sk, &mut ctx)); }
            12 => {
                o.heap(&ls, g(kb, kl), what, || {
                    let mut k = LWEtoRLWEKeyswitchKey::allocate(&ctx);
                    k.fill_with_keyswitching_key(&lwe_sk, &mut ctx);
                    k
                });
            }
            13 => { for c in make_decomposed_rlwe_ct(&sk, bit, &mut ctx) { o.ct(&s, &c, g(b, l) - logn) } }
            14 => { for c in make_decomposed_rlwe_ct2(&sk, bit, &mut ctx) { o.ct(&s, &c, g(b, l)) } }
            15 => {
                for v in encrypt_feature_vector(&sk, &vec![0, n - 1, rep as usize % n], &mut ctx) {
                    v.iter().for_each(|c| o.ct(&s, c, g(b, l) - logn));
                }
            }
            16 => { o.heap(&cs, g(b, l), what, || client.gen_read_query_one(rep as usize % 2, &hash)); }
            17 => { o.heap(&cs, g(b, l), what, || client.gen_write_query_one(rep as usize % 2, &pt(&pattern(n, 4, rep)), &hash)); }
            18 => {
                let (_, db) = client.gen_dummy_database(&hash);
                db.iter().flatten().for_each(|c| o.ct(&cs, c, 62));
            }
            19 => { for r in bit_decomposed_rgsw(rep as usize % 8, 8, &sk, &mut ctx) { rows(&mut o, &r, g(b, l)) } }
            _ => {
                let mut from = key(&vec![0; n]);
                let mut k = RLWEKeyswitchKey::allocate(DecompositionBaseLog(kb), DecompositionLevelCount(kl), ps);
                let e = 2 * (rep as usize % n) + 1;
                o.heap(&s, g(kb, kl), what, || { k.fill_with_subs_keyswitch_key(&mut from, &sk, e, d, &mut ctx.encryption_generator); k.clone() });
            }
        }
        rep += 1;
        step();
        ensure!(rep < 20_000, "harness: no ciphertexts seen for {what}");
    }
    if matches!(kind, 4 | 5) {
        let rows: Vec<Vec<i64>> = lwe_err.iter().map(|e| vec![*e]).collect();
        check_errors(&rows, (sd + 64.0).exp2(), what);
    } else {
        check_errors(&o.err, (sd + 64.0).exp2(), what);
    }
    check_masks(&o.mask, what);
    state(&(kind, sd.to_bits(), n));
}
pub fn c27_bounds() -> String {
    format!("{} ways of encrypting (every encryption, key-generation and query function) x {} deviations x {} ring sizes, each observed on at least {} error coefficients: deviation within 14, mean within 10 and neighbour correlation within 12 standard errors, no coefficient without noise, mask bits balanced and words distinct; Fourier substitution keys read out row by row; key coefficients balanced overall and per position", KINDS.len(), by_tier(4, 8), by_tier(4, 7), by_tier(4096, 16384))
}

// ---------------------------------------------------------------------- C28
/// The contents of all heap blocks of the size of one ciphertext.
/// that decrypt to something encoded (plaintext modulus 2), so that other buffers do not count.
fn cells(s: &[u64]) -> Vec<Vec<u64>> {
    let n = s.len();
    live(|v| {
        let addrs: std::collections::HashSet<u64> = v.iter().map(|x| x.0 as u64).collect();
        v.iter()
            .filter(|(p, s)| *s == 16 * n && p % 8 == 0)
            .map(|(p, _)| unsafe { std::slice::from_raw_parts(*p as *const u64, 2 * n) }.to_vec())
            .filter(|w| !w.iter().any(|x| addrs.contains(x)) && w[..n].iter().any(|x| *x != 0))
            .filter(|w| {
                let ph = psub(&w[n..], &pmul(&w[..n], s));
                ph.iter().all(|p| centre(*p, 63).unsigned_abs() < 1 << 52)
            })
            .collect()
    })
}
/// What an observer of the server sees during one call.
#[derive(PartialEq, Eq)]
struct Seen {
    allocs: Vec<usize>,
    frees: Vec<usize>,
    stored: usize,
    unchanged: usize,
    responses: usize,
}
fn kind_query(cl: &mut Client, kind: usize, i: usize, data: usize, hash: &NaiveHash) -> ClientQuery {
    let n = cl.sk.polynomial_size().0;
    match kind {
        0 => cl.gen_read_query_one(i, hash),
        _ => cl.gen_write_query_one(i, &pt(&pat(n, 2, data)), hash),
    }
}
pub fn c28() {
    pool(1, 0, 0);
    // caches of the transform library are filled by the first use
    let n = pick(by_tier(&[8usize, 64][..], &[8, 16, 64, 256][..]));
    let c = pick(&[cfg(n, 5, 9, 5, 11, 5, 11, 2), cfg(n, 9, 4, 5, 11, 12, 3, 2)]);
    match choose(3) {
        0 => {
            scenario("single queries: every index and operation against a read of item 0");
            let items = pick(by_tier(&[1usize, 2, 4, 8][..], &[1, 2, 4, 8, 16, 32][..]));
            let i = choose(items);
            let kind = choose(3); // read, write new data, write the data already there
            let mode = choose(2);
            note(|| format!("{c:?} items={items} index={i} kind={kind} mode={mode}"));
            let run = |i: usize, kind: usize| {
                let hash = fixed_hash(1, items, 4);
                observe(c, 1, items, &hash, |cl, sv, pts| {
                    let q = match kind {
                        2 => cl.gen_write_query_one(i, &pts[i], &hash),
                        k => kind_query(cl, k, i, 5, &hash),
                    };
                    let mut sv = sv;
                    let call: Box<dyn FnOnce(&mut Server) -> usize> = if mode == 0 {
                        Box::new(move |s| { s.process_one(q); 1 })
                    } else {
                        Box::new(move |s| s.process_multi(vec![q]).0.len())
                    };
                    watch(&mut sv, &key_words(&cl.sk), call)
                })
            };
            compare(run(i, kind), run(0, 0), run(i, kind), &format!("kind {kind}, index {i} of {items}"));
        }
        1 => {
            scenario("calls of two queries: every pair against two reads of item 0");
            let items = pick(&[2usize, 4]);
            let q: Vec<(usize, usize)> = (0..2).map(|_| (choose(2), choose(items))).collect();
            note(|| format!("{c:?} items={items} {q:?}"));
            let run = |q: &[(usize, usize)]| {
                let hash = fixed_hash(1, items, 4);
                observe(c, 1, items, &hash, |cl, sv, _| {
                    let qs: Vec<_> = q.iter().map(|(k, i)| kind_query(cl, *k, *i, 5, &hash)).collect();
                    let mut sv = sv;
                    watch(&mut sv, &key_words(&cl.sk), Box::new(move |s| s.process_multi(qs).0.len()))
                })
            };
            compare(run(&q), run(&[(0, 0), (0, 0)]), run(&q), &format!("{q:?}"));
        }
        _ => {
            scenario("batches: every list of up to two items, read or written, against an empty batch");
            let (h, items, rows, cols) = pick(&[(1usize, 4usize, 2usize, 2usize), (2, 2, 2, 2), (3, 2, 3, 2), (3, 4, 6, 2)]);
            let write = choose(2) == 1;
            let hash = fixed_hash(h, items, 1 + choose(3) as u64);
            let list = crate::oram::item_list(items, 2);
            if attempt(|| hash.hash_to_mapping(&list, cols)).is_err() {
                skip();
            }
            note(|| format!("{c:?} {h} copies, {items} items, {rows}x{cols}, {list:?} write={write}"));
            let run = |list: &[usize]| {
                observe(c, rows, cols, &hash, |cl, sv, _| {
                    let q = if write && !list.is_empty() {
                        cl.gen_write_query_batch(list, &pt(&pat(n, 2, 3)), &hash)
                    } else {
                        cl.gen_read_query_batch(list, &hash)
                    };
                    let mut sv = sv;
                    let hs = hash.clone();
                    watch(&mut sv, &key_words(&cl.sk), Box::new(move |s| s.process_batch(q, &hs).0.len()))
                })
            };
            compare(run(&list), run(&[]), run(&list), &format!("batch {list:?} (write {write})"));
        }
    }
}
fn observe(
    c: Cfg, rows: usize, cols: usize, hash: &NaiveHash,
    f: impl FnOnce(&mut Client, Server, &[Pt]) -> Seen,
) -> Seen {
    tracking(|| {
        let (mut cl, sv, pts) = must("setup_random_oram", || setup_random_oram(rows, cols, hash, c.params()));
        f(&mut cl, sv, &pts)
    })
}
fn watch(sv: &mut Server, s: &[u64], call: Box<dyn FnOnce(&mut Server) -> usize>) -> Seen {
    let before = cells(s);
    let (responses, allocs, frees) = traced("server call", || call(sv));
    let after = cells(s);
    step();
    let old: std::collections::HashSet<&Vec<u64>> = before.iter().collect();
    Seen {
        allocs,
        frees,
        stored: before.len(),
        unchanged: after.iter().filter(|c| old.contains(c)).count(),
        responses,
    }
}
fn compare(_warm: Seen, a: Seen, b: Seen, what: &str) {
    ensure!(a.responses == b.responses, "{what}: {} responses instead of {}", b.responses, a.responses);
    ensure!(
        b.unchanged == 0 && a.unchanged == 0,
        "{what}: {} of {} stored ciphertexts are left as they were ({} for the reference query): an observer of the memory learns which",
        b.unchanged, b.stored, a.unchanged
    );
    let d = a.allocs.iter().zip(&b.allocs).position(|(x, y)| x != y);
    ensure!(
        a.allocs == b.allocs && a.frees == b.frees,
        "{what}: the server's memory operations differ from those of the reference query ({} and {} allocations, first difference at {d:?})",
        b.allocs.len(), a.allocs.len()
    );
    state(&(what, a.stored, b.allocs.len()));
}
pub fn c28_bounds() -> String {
    format!("N in {}, two decomposition settings; up to {} items with every index, read, write of new data and write of the data already stored, through both entry points; every pair of queries of a call on 2 and 4 items; four batch shapes x three tables x every ordered list of up to two items, read and written. Compared with a reference query of the same shape: the sequence of allocation and release sizes of the server, the number of responses, and that no stored ciphertext survives the call bit for bit", by_tier("{8, 64}", "{8, 16, 64, 256}"), by_tier(8, 32))
}

// ---------------------------------------------------------------------- C29
/// One way of misusing the server. Returns what was tried.
fn foreign_query(n: usize, cols: usize, i: usize, write: bool) -> ClientQuery {
    let hash = fixed_hash(1, cols, 9);
    let mut cl = Client::new(1, cols, cfg(n, 5, 9, 5, 11, 5, 11, 2).params());
    kind_query(&mut cl, write as usize, i, 7, &hash)
}
fn words_of(y: &RLWECiphertext) -> Vec<u64> {
    let mut w = mask_of(y);
    w.extend(body_of(y));
    w
}
pub fn c29() {
    let n = 8;
    match choose(4) {
        0 => {
            scenario("a query made for another number of columns or another ring, at every position of a call");
            let items = pick(&[1usize, 2, 4, 8]);
            let (on, oc) = pick(&[(8usize, 1usize), (8, 2), (8, 4), (8, 8), (8, 16), (16, 0), (32, 0)]);
            let oc = if oc == 0 { items } else { oc };
            if on == 8 && oc == items {
                skip();
            }
            if on != 8 && items == 1 {
                // no selector bits: only the update could notice, and what the locks then hold
                // is no concern of the property
                skip();
            }
            let oi = pick(&[0, oc - 1]);
            let write = choose(2) == 1;
            let len = choose(by_tier(3, 4)); // 0: process_one
            let pos = if len == 0 { 0 } else { choose(len) };
            let workers = pick(&[1usize, 3]);
            pool(workers, 1, 0);
            let c = cfg(n, 5, 9, 5, 11, 5, 11, 2);
            let what = format!("items={items}: query for {oc} columns, N={on} (index {oi}, write {write}) at position {pos} of {len}");
            note(|| what.clone());
            let run = |bad: bool| -> Vec<Vec<u64>> {
                let mut o = World::new(c, 1, items, fixed_hash(1, items, 2));
                o.one(OpK::W(0, 3));
                let mut out = vec![];
                if bad {
                    let q = foreign_query(on, oc, oi, write);
                    if len == 0 {
                        must_refuse(&what, || o.server.process_one(q));
                    } else {
                        // the other queries come from a second client with the same key
                        let mut twin = Client::new(1, items, c.params());
                        let mut qs: Vec<ClientQuery> = (1..len).map(|k| kind_query(&mut twin, k % 2, k % items, 9, &o.hash)).collect();
                        qs.insert(pos, q);
                        must_refuse(&what, || o.server.process_multi(qs));
                    }
                    step();
                    o.check_db(&format!("after refusing {what}"));
                }
                finish(&mut o, &mut out);
                out
            };
            let (a, b) = (run(false), run(true));
            ensure!(a == b, "{what}: after the refusal the server answers differently");
            state(&(items, on, oc, oi, write, len, pos, workers));
        }
        1 => {
            scenario("batches with a wrong number of queries or a foreign query");
            let (h, items, rows, cols) = pick(&[(1usize, 4usize, 2usize, 2usize), (2, 2, 2, 2), (3, 2, 3, 2), (2, 4, 4, 2), (1, 2, 1, 2), (1, 2, 2, 1)]);
            let c = cfg(n, 5, 9, 5, 11, 5, 11, 2);
            let count = choose(rows + 3); // == rows: a foreign query instead
            let pos = choose(rows);
            let write = choose(2) == 1;
            pool(pick(&[1usize, 2]), 2, 0);
            if count != rows && pos != 0 {
                skip();
            }
            let what = format!("{h} copies, {items} items, {rows}x{cols}: batch of {count} queries{}", if count == rows { format!(", number {pos} foreign") } else { String::new() });
            note(|| what.clone());
            let run = |bad: bool| {
                let hash = fixed_hash(h, items, 3);
                let mut o = World::new(c, rows, cols, hash);
                let mut out = vec![];
                if bad {
                    let mut twin = Client::new(rows, cols, c.params());
                    let data = pt(&pat(n, 2, 5));
                    let make = |cl: &mut Client| if write { cl.gen_write_query_batch(&[items - 1], &data, &o.hash) } else { cl.gen_read_query_batch(&[0], &o.hash) };
                    let mut qs: Vec<ClientQuery> = vec![];
                    while qs.len() < count {
                        qs.extend(make(&mut twin));
                    }
                    qs.truncate(count);
                    if count == rows {
                        qs[pos] = foreign_query(n, if cols == 1 { 2 } else { 2 * cols }, 0, write);
                    }
                    must_refuse(&what, || o.server.process_batch(qs, &o.hash));
                    step();
                    o.check_db(&format!("after refusing {what}"));
                }
                for k in 0..3 {
                    let i = k % items;
                    let v = pat(n, 2, 20 + k);
                    let map = o.hash.hash_to_mapping(&[i], cols);
                    let q = o.client.gen_write_query_batch(&[i], &pt(&v), &o.hash);
                    let ys = must("process_batch", || o.server.process_batch(q, &o.hash).0);
                    for (r, (_, x)) in map {
                        let want = o.model[x].clone();
                        o.check_resp(&ys[r], &want, &format!("later call {k}"));
                    }
                    out.extend(ys.iter().map(words_of));
                    o.model[i] = v;
                    o.check_db(&format!("after later call {k}"));
                    step();
                }
                out
            };
            let (a, b) = (run(false), run(true));
            ensure!(a == b, "{what}: after the refusal the server answers differently");
            state(&(h, items, rows, cols, count, pos, write));
        }
        3 => {
            scenario("operands outside their range, keys and selectors that are missing");
            misuse();
        }
        _ => {
            scenario("clients refuse unknown items, unservable lists and values outside the plaintext space");
            let (h, items, rows, cols) = pick(&[(1usize, 1usize, 1usize, 1usize), (1, 4, 1, 4), (1, 4, 2, 2), (2, 2, 2, 2), (3, 2, 3, 2)]);
            let t = pick(&[2u64, 4, 256]);
            let c = cfg(n, 5, 9, 5, 11, 5, 11, t);
            let hash = fixed_hash(h, items, 3);
            let mut cl = Client::new(rows, cols, c.params());
            let good = pt(&pat(n, t, 1));
            let which = choose(3);
            note(|| format!("{h} copies, {items} items, {rows}x{cols}, t={t}, misuse {which}"));
            match which {
                0 => {
                    for i in [items, items + 1, 2 * items, 7 * items + 3, usize::MAX / 8] {
                        must_refuse(&format!("read of item {i} of {items}"), || cl.gen_read_query_batch(&[i], &hash));
                        must_refuse(&format!("write of item {i} of {items}"), || cl.gen_write_query_batch(&[i], &good, &hash));
                        must_refuse(&format!("read of items 0, {i} of {items}"), || cl.gen_read_query_batch(&[0, i], &hash));
                        if rows == 1 {
                            must_refuse(&format!("single read of item {i} of {items}"), || cl.gen_read_query_one(i, &hash));
                            must_refuse(&format!("single write of item {i} of {items}"), || cl.gen_write_query_one(i, &good, &hash));
                        }
                        ensure!(hash.checked_hash(0, i).is_none(), "checked_hash accepts item {i}");
                        steps(3);
                    }
                }
                1 => {
                    // the lists the placement cannot serve: more items than rows
                    let list: Vec<usize> = (0..rows + 1).collect();
                    if items <= rows {
                        skip();
                    }
                    must_refuse(&format!("batch of {list:?} for {rows} rows"), || cl.gen_read_query_batch(&list, &hash));
                    must_refuse(&format!("writing {list:?} for {rows} rows"), || cl.gen_write_query_batch(&list, &good, &hash));
                    steps(2);
                }
                _ => {
                    for at in 0..n {
                        for v in [t, t + 1, 2 * t, 1 << 63, u64::MAX] {
                            let mut d = vec![0; n];
                            d[at] = v;
                            must_refuse(&format!("writing {v:#x} at coefficient {at} with t={t}"), || cl.gen_write_query_batch(&[0], &pt(&d), &hash));
                            step();
                        }
                    }
                }
            }
            // the client still works
            let q = must("read after a refusal", || cl.gen_read_query_batch(&[0], &hash));
            ensure!(q.len() == rows, "{} queries for {rows} rows", q.len());
            state(&(h, items, rows, cols, t, which));
        }
    }
}
/// A fixed tail of valid operations; every response word is recorded.
fn finish(o: &mut World, out: &mut Vec<Vec<u64>>) {
    let items = o.hash.input_domain();
    for k in 0..3 {
        let i = k % items;
        let q = o.client.gen_write_query_one(i, &pt(&pat(o.cfg.n, o.cfg.t, 30 + k)), &o.hash);
        let y = must("process_one", || o.server.process_one(q).0);
        let want = o.model[i].clone();
        o.check_resp(&y, &want, &format!("later operation {k}"));
        out.push(words_of(&y));
        o.model[i] = pat(o.cfg.n, o.cfg.t, 30 + k);
        o.check_db(&format!("after later operation {k}"));
        step();
    }
    let q: Vec<_> = (0..2).map(|k| o.client.gen_read_query_one(k % items, &o.hash)).collect();
    let ys = must("process_multi", || o.server.process_multi(q).0);
    for (k, y) in ys.iter().enumerate() {
        let want = o.model[k % items].clone();
        o.check_resp(y, &want, &format!("later read {k}"));
        out.push(words_of(y));
    }
}
pub fn c29_bounds() -> String {
    format!("single and multi-query servers of 1 to 8 items with a query for 1 to 16 columns or (servers of 2 to 8 items) for rings of 16 and 32, at every position of calls of up to {} queries; six batch shapes with every wrong number of queries up to two too many and a foreign query in every row; clients with five items outside the range, too long lists, five values outside the plaintext space at every coefficient; for three ring sizes: comparisons and features with seven values outside the ring, non-bits, every missing or misfiled trace key, missing selectors and features, thresholds outside the ring, wrong level counts and dimensions, twelve non-power-of-two moduli, even substitutions. After every refusal by a server, its later answers are compared bit for bit with those of an identical server that never saw the refused request", by_tier(2, 3))
}

fn leaf(x: usize) -> Option<Node> {
    Some(Node::Leaf(x))
}
fn inner(feature: usize, threshold: usize, left: Option<Node>, right: Option<Node>) -> Node {
    Node::Internal(Box::new(Internal { threshold, feature, index: 0, op: Op::LEQ, left, right }))
}
fn misuse() {
    let n = pick(&[8usize, 16, 64]);
    let which = choose(9);
    note(|| format!("N={n}, misuse {which}"));
    let c = cfg(n, 5, 9, 5, 11, 5, 11, 2);
    let mut ctx = c.ctx();
    let sk = ctx.gen_rlwe_sk();
    let neg = sk.neg_gsw(&mut ctx);
    let out_of = [n, n + 1, 2 * n - 1, 2 * n, 3 * n + 2, 1 << 20, usize::MAX];
    match which {
        0 => {
            for d in out_of {
                for eq in [false, true] {
                    let mut x = ct_of(&words(2 * n, 3));
                    must_refuse(&format!("N={n}: comparing with {d} (eq {eq})"), || if eq { x.eq_to(d) } else { x.less_eq_than(d) });
                    ensure!(words_of(&x) == words(2 * n, 3), "N={n}: a refused comparison changed the ciphertext");
                    step();
                }
            }
        }
        1 => {
            for v in out_of {
                must_refuse(&format!("N={n}: encrypting the feature {v}"), || encrypt_feature_vector(&sk, &vec![v], &mut ctx));
                must_refuse(&format!("N={n}: encrypting the features 0, {v}"), || encrypt_feature_vector(&sk, &vec![0, v], &mut ctx));
                step();
            }
        }
        2 => {
            for bit in [2u64, 3, 1 << 32, u64::MAX] {
                must_refuse(&format!("make_decomposed_rlwe_ct({bit})"), || make_decomposed_rlwe_ct(&sk, bit, &mut ctx));
                must_refuse(&format!("make_decomposed_rlwe_ct2({bit})"), || make_decomposed_rlwe_ct2(&sk, bit, &mut ctx));
                step();
            }
            // no room for the factor N
            let mut big = cfg(n, 7, 9, 5, 11, 5, 11, 2).ctx();
            must_refuse(&format!("N={n}: decomposing a bit with 2^7 and 9 levels"), || make_decomposed_rlwe_ct(&sk, 1, &mut big));
        }
        3 => {
            // every single missing key of the set
            let all = gen_all_subs_ksk(&sk, &mut ctx);
            let ks: Vec<usize> = all.keys().copied().collect();
            let x = ct_of(&words(2 * n, 3));
            let needed = (1..=n.trailing_zeros()).map(|i| n / (1 << (i - 1)) + 1);
            for k in needed {
                ensure!(ks.contains(&k), "N={n}: no substitution key for {k}");
                let mut m = all.clone();
                m.remove(&k);
                must_refuse(&format!("N={n}: trace without the key for {k}"), || x.trace1(&m));
                // a key generated for another substitution, filed under k
                let mut m = all.clone();
                let other = m[&if k == 3 { 5 } else { 3 }].clone();
                m.insert(k, other);
                must_refuse(&format!("N={n}: trace with a wrong key for {k}"), || x.trace1(&m));
                step();
            }
            must("trace1", || x.trace1(&all));
        }
        4 => {
            let all = gen_all_subs_ksk_fourier(&sk, &mut ctx);
            let x = ct_of(&words(2 * n, 3));
            let mut o = x.clone();
            must("trace1_fourier", || x.trace1_fourier(&mut o, &all));
            for k in (1..=n.trailing_zeros()).map(|i| n / (1 << (i - 1)) + 1) {
                let mut m = gen_all_subs_ksk_fourier(&sk, &mut ctx);
                m.remove(&k);
                must_refuse(&format!("N={n}: trace without the key for {k}"), || x.trace1_fourier(&mut o, &m));
                let mut m = gen_all_subs_ksk_fourier(&sk, &mut ctx);
                let other = m.remove(&if k == 3 { 5 } else { 3 }).unwrap();
                m.insert(k, other);
                must_refuse(&format!("N={n}: trace with a wrong key for {k}"), || x.trace1_fourier(&mut o, &m));
                step();
            }
        }
        5 => {
            // too few selectors for a tree
            let tree = inner(0, 3, Some(inner(1, 2, leaf(1), leaf(0))), Some(inner(0, 1, leaf(0), Some(inner(2, 0, leaf(1), leaf(1))))));
            for have in 0..4 {
                let g = sk.encrypt_constant_rgsw_vec(&vec![Plaintext(1); have], &mut ctx);
                must_refuse(&format!("a tree of 4 inner nodes with {have} selectors"), || EncNode::new(&tree, &mut g.into_iter()));
                step();
            }
            let g = sk.encrypt_constant_rgsw_vec(&vec![Plaintext(1); 4], &mut ctx);
            must("EncNode::new", || EncNode::new(&tree, &mut g.into_iter()));
            let g = sk.encrypt_constant_rgsw_vec(&[Plaintext(1)], &mut ctx);
            must_refuse("a tree that is a leaf", || EncNode::new(&Node::Leaf(1), &mut g.into_iter()));
            must_refuse("indexing a leaf", || Node::Leaf(1).fix_index());
            must_refuse("the inner value of a leaf", || Node::Leaf(1).inner_value());
        }
        6 => {
            // features the tree asks for but the vector does not have; thresholds out of range
            let keys = gen_all_subs_ksk_fourier(&sk, &mut ctx);
            for have in 0..3usize {
                let f = vec![1; have];
                let tree = inner(0, 3, Some(inner(2, 2, leaf(1), leaf(0))), leaf(1));
                must_refuse(&format!("evaluating feature 2 of {have}"), || tree.eval(&f));
                let cts = encrypt_feature_vector(&sk, &f, &mut ctx);
                let flat = tree.flatten();
                must_refuse(&format!("comparing feature 2 of {have}"), || compare_expand(&flat, &cts, &neg, &keys, &ctx).count());
                step();
            }
            let cts = encrypt_feature_vector(&sk, &vec![1], &mut ctx);
            for d in out_of {
                let flat = inner(0, d, leaf(1), leaf(0)).flatten();
                must_refuse(&format!("N={n}: a node with threshold {d}"), || compare_expand(&flat, &cts, &neg, &keys, &ctx).count());
                step();
            }
        }
        7 => {
            let lwe = LWESecretKey::generate_binary(concrete_core::prelude::LweDimension(n), &mut ctx.secret_generator);
            let rk = lwe.to_rlwe_sk();
            let mut k = LWEtoRLWEKeyswitchKey::allocate(&ctx);
            must("fill_with_keyswitching_key", || k.fill_with_keyswitching_key(&lwe, &mut ctx));
            let neg = rk.neg_gsw(&mut ctx);
            let cs = make_decomposed_rlwe_ct2(&rk, 1, &mut ctx);
            for len in [1usize, 8, 10, 18] {
                let v: Vec<_> = (0..len).map(|i| cs[i % 9].clone()).collect();
                must_refuse(&format!("N={n}: slow conversion of {len} levels, 9 needed"), || expand_slow(&v, &k, &neg, &ctx));
                step();
            }
            must("expand_slow", || expand_slow(&cs, &k, &neg, &ctx));
            for m in [n / 2, 2 * n] {
                let other = LWESecretKey::generate_binary(concrete_core::prelude::LweDimension(m), &mut ctx.secret_generator);
                must_refuse(&format!("N={n}: switching key for an LWE key of dimension {m}"), || k.fill_with_keyswitching_key(&other, &mut ctx));
            }
        }
        _ => {
            for t in [0u64, 3, 5, 6, 7, 10, 100, 255, 257, u64::MAX, u64::MAX - 1, 3 << 40] {
                must_refuse(&format!("plaintext modulus {t}"), || panacea::codec::Codec::new(t));
                must_refuse(&format!("context with plaintext modulus {t}"), || Context::new(Cfg { t, ..c }.params()));
                step();
            }
            must_refuse("a hash without functions", || NaiveHash::new(0, 4));
            for items in 1..5 {
                let h = fixed_hash(2, items, 1);
                must_refuse("a hash value past the end", || h.hash(0, items));
                ensure!(h.checked_hash(2, 0).is_none() && h.checked_hash(0, items).is_none(), "checked_hash accepts invalid arguments");
            }
            for k in [0usize, 2, 4, n] {
                let mut from = key(&vec![0; n]);
                let mut sw = RLWEKeyswitchKey::allocate(DecompositionBaseLog(5), DecompositionLevelCount(3), PolynomialSize(n));
                must_refuse(&format!("a substitution key for X^{k}"), || {
                    sw.fill_with_subs_keyswitch_key(&mut from, &sk, k, ctx.std, &mut ctx.encryption_generator)
                });
                step();
            }
        }
    }
    state(&(n, which));
}
