//! C08, C11-C16: homomorphic operations against exact ring arithmetic and worst-case errors.
use crate::common::*;
use panacea::decision_tree::{bit_decomposed_rgsw, demux, demux_with};
use crate::alg::{lwe_of, lwe_phase};
use panacea::lwe::{conv_lwe_to_rlwe, LWEtoRLWEKeyswitchKey};
use panacea::rlwe::{
    decomposed_rlwe_to_rgsw, expand, expand_fourier, expand_slow, gen_all_subs_ksk,
    gen_all_subs_ksk_fourier, make_decomposed_rlwe_ct, make_decomposed_rlwe_ct2,
    FourierRLWECiphertext, FourierRLWEKeyswitchKey, RLWEKeyswitchKey,
};
use std::collections::HashMap;

/// Largest fresh error at this log standard deviation (12 sigma and integer rounding).
pub fn fresh(std: f64) -> f64 {
    12.0 * (64.0 + std).exp2() + 2.0
}
fn ctx_of(c: &Cfg, std: f64) -> Context {
    let mut p = c.params();
    p.standard_deviation = std;
    Context::new(p)
}
fn rgsw(n: usize, b: usize, l: usize) -> RGSWCiphertext {
    RGSWCiphertext::allocate(PolynomialSize(n), DecompositionBaseLog(b), DecompositionLevelCount(l))
}
fn zero_ct(n: usize) -> RLWECiphertext {
    RLWECiphertext::allocate(PolynomialSize(n))
}
fn same(a: &RLWECiphertext, b: &RLWECiphertext) -> bool {
    mask_of(a) == mask_of(b) && body_of(a) == body_of(b)
}
/// Equal up to the rounding of the transform.
fn near(x: &RLWECiphertext, y: &RLWECiphertext, n: usize, b: usize, l: usize) -> bool {
    let e = maxerr(&mask_of(x), &mask_of(y)).max(maxerr(&body_of(x), &body_of(y))) as f64;
    e <= fft_err(n, 2 * l, b as f64 - 1.0)
}
/// Ciphertexts to operate on: trivial, structured and arbitrary.
fn cts(n: usize, s: &[u64]) -> Vec<RLWECiphertext> {
    let mut v = vec![];
    for k in 0..3 {
        v.push(ct_of(&words(2 * n, 40 + k)));
    }
    // extreme mask coefficients
    v.push(ct_of(&[vec![1 << 63; n], vec![u64::MAX; n]].concat()));
    v.push(ct_of(&[vec![(1 << 63) - 1; n], vec![1 << 62; n]].concat()));
    // trivial encryption and a sparse mask
    v.push(ct_of(&[vec![0; n], words(n, 9)].concat()));
    let mut masks = vec![unit(n, n / 2, 0x8888_8888_8888_8888)];
    // digits of the highest, of the middle and of the lowest levels only
    masks.push(unit(n, 1, 1 << 63));
    masks.push(words(n, 15).iter().map(|w| w << 50).collect());
    masks.push(words(n, 16).iter().map(|w| w << 44 >> 20).collect());
    masks.push(words(n, 17).iter().map(|w| w >> 34).collect());
    for a in masks {
        let b = padd(&pmul(&a, s), &words(n, 18));
        v.push(ct_of(&[a, b].concat()));
    }
    v
}
/// Large rings, with few keys and settings each.
fn rings() -> Vec<usize> {
    by_tier(vec![256usize, 1024, 2048, 4096], vec![128, 256, 512, 1024, 2048, 4096])
}
fn keys(n: usize, all: bool) -> Vec<u64> {
    if n > 64 {
        return pick(&by_tier(vec![pattern(n, 2, 4)], vec![pattern(n, 2, 4), vec![1; n]]));
    }
    if all && n == 8 {
        let w = choose(256) as u64;
        return (0..8).map(|i| (w >> i) & 1).collect();
    }
    match choose(by_tier(4, 6)) {
        0 => vec![1; n],
        1 => unit(n, n - 1, 1),
        2 => vec![0; n],
        k => pattern(n, 2, k as u64),
    }
}
/// A polynomial for a message: whole if it is short.
fn brief(v: &[u64]) -> String {
    if v.len() <= 64 {
        return format!("{v:x?}");
    }
    format!("{:x?} and {} more, {} of them not zero", &v[..8], v.len() - 8, v[8..].iter().filter(|x| **x != 0).count())
}
fn close(what: &str, got: &[u64], want: &[u64], bound: f64) {
    let e = maxerr(got, want) as f64;
    ensure!(
        e <= bound,
        "{what}: error 2^{:.1}, the worst case is 2^{:.1} (got {}, exact value {})",
        e.log2(),
        bound.log2(),
        brief(got),
        brief(want)
    );
}
/// Every row of an RGSW ciphertext of `m`: top rows -m s g_j, bottom rows m g_j.
pub fn check_rows(what: &str, g: &RGSWCiphertext, m: &[u64], s: &[u64], b: usize, l: usize, top: f64, bottom: f64) {
    ensure!(g.ciphertext_count().0 == 2 * l && g.decomposition_base_log().0 == b && g.decomposition_level_count().0 == l, "{what}: wrong shape");
    let ms = pneg(&pmul(m, s));
    for j in 0..l {
        let f = 1u64 << (64 - b * (j + 1));
        close(&format!("{what}, mask row of level {}", j + 1), &phase(s, &g.get_nth_row(2 * j)), &pscale(&ms, f), top);
        close(&format!("{what}, body row of level {}", j + 1), &phase(s, &g.get_nth_row(2 * j + 1)), &pscale(m, f), bottom);
    }
}
/// The RGSW acts as the polynomial m in an external product and, for bits, as a selector.
fn check_acts(what: &str, g: &RGSWCiphertext, m: &[u64], s: &[u64], b: usize, l: usize, rows: f64) {
    let n = s.len();
    let norm: f64 = m.iter().map(|x| (*x as i64).unsigned_abs() as f64).sum();
    let bound = ext_err(n, b, l, rows, norm, 0.0);
    let xs = cts(n, s);
    for (i, x) in xs.iter().enumerate() {
        let mut o = zero_ct(n);
        must(what, || g.external_product(&mut o, x));
        close(&format!("{what}: external product with ciphertext {i}"), &phase(s, &o), &pmul(m, &phase(s, x)), bound);
        step();
    }
    if m[1..].iter().all(|x| *x == 0) && m[0] < 2 {
        let (x, y) = (&xs[0], &xs[1]);
        let mut o = ct_of(&words(2 * n, 3));
        must(what, || g.cmux(&mut o, x, y));
        close(&format!("{what}: selector on bit {}", m[0]), &phase(s, &o), &phase(s, if m[0] == 0 { x } else { y }), bound);
        step();
    }
}

const DEC: [(usize, usize); 14] = [
    (4, 4), (5, 9), (7, 6), (5, 3), (9, 7), (1, 1), (10, 1), (3, 2), (16, 3), (1, 40), (2, 31), (7, 9), (20, 2), (25, 1),
];

// ---------------------------------------------------------------- C12
/// Ciphertexts of different decompositions, rings and keys used in turn on one thread, with
/// scratch buffers kept across: a product depends on its own operands only.
fn c12_turns() {
    scenario("different decompositions and rings in turn");
    let mut sets = vec![];
    for n in [8usize, 16, 64] {
        for (b, l) in [(4usize, 4usize), (7, 4), (5, 9), (7, 9), (12, 1), (25, 1), (3, 2), (16, 3)] {
            sets.push((n, b, l));
        }
    }
    let len = by_tier(2, 3);
    let mut used: Vec<_> = (0..len).map(|_| pick(&sets)).collect();
    used.push(used[0]);
    note(|| format!("settings {used:?}"));
    let ops: Vec<_> = used
        .iter()
        .enumerate()
        .map(|(k, &(n, b, l))| {
            let s = pattern(n, 2, 3 + k as u64);
            let sk = key(&s);
            let mut ctx = ctx_of(&cfg(n, 5, 9, 5, 11, 5, 11, 2), -55.0);
            let mut g = rgsw(n, b, l);
            let bit = (k % 2) as u64;
            if k % 3 == 2 {
                must("encrypt_rgsw", || sk.encrypt_rgsw(&mut g, &pt(&unit(n, 0, bit)), &mut ctx));
            } else {
                must("encrypt_constant_rgsw", || sk.encrypt_constant_rgsw(&mut g, &Plaintext(bit), &mut ctx));
            }
            let x = ct_of(&words(2 * n, 31 + k as u64));
            let y = ct_of(&words(2 * n, 57 + k as u64));
            let buf = ctx.gen_fft_ctx();
            (n, b, l, s, g, bit, x, y, buf)
        })
        .collect();
    // one buffer per ring size, reused by every later operation of that ring
    let mut bufs: HashMap<usize, FftBuffer> = HashMap::new();
    let mut ops = ops;
    for (n, b, l, s, g, bit, x, y, buf) in ops.drain(..) {
        let buf = bufs.entry(n).or_insert(buf);
        let bound = ext_err(n, b, l, fresh(-55.0), 1.0, 0.0);
        let what = format!("N={n} base 2^{b} levels {l}, in turn with others");
        let want = phase(&s, if bit == 0 { &x } else { &y });
        let mut o = zero_ct(n);
        must(&what, || g.cmux(&mut o, &x, &y));
        close(&format!("{what}: selector"), &phase(&s, &o), &want, bound);
        let mut o = zero_ct(n);
        must(&what, || g.cmux_with_buf(&mut o, &x, &y, buf));
        close(&format!("{what}: selector, kept buffer"), &phase(&s, &o), &want, bound);
        let want = pscale(&phase(&s, &x), bit);
        let mut o = zero_ct(n);
        must(&what, || g.external_product(&mut o, &x));
        close(&format!("{what}: product"), &phase(&s, &o), &want, bound);
        let mut o = zero_ct(n);
        must(&what, || g.external_product_with_buf(&mut o, &x, buf));
        close(&format!("{what}: product, kept buffer"), &phase(&s, &o), &want, bound);
        steps(4);
    }
    state(&used);
}
pub fn c12() {
    if choose(2) == 1 {
        return c12_turns();
    }
    let (all, large, sc) = pick(&[
        (true, false, "every key, two settings"),
        (false, false, "every setting and ring size"),
        (false, true, "large rings"),
    ]);
    scenario(sc);
    let n = if all { 8 } else if large { pick(&rings()) } else { pick(by_tier(&[8usize, 16, 64][..], &[8, 16, 32, 64][..])) };
    let (b, l) = if all {
        pick(&[(4usize, 4usize), (7, 6)])
    } else if large {
        pick(by_tier(&[(5usize, 9usize), (16, 3)][..], &[(5, 9), (16, 3), (7, 6), (1, 40)][..]))
    } else {
        pick(&DEC[..by_tier(10, 14)])
    };
    let std = if large { -55.0 } else { pick(&[-55.0f64, -90.0]) };
    let s = keys(n, all);
    let sk = key(&s);
    let c = cfg(n, b, l, 5, 11, 5, 11, 2);
    let mut ctx = ctx_of(&c, std);
    note(|| format!("{c:?} std 2^{std} key {}", brief(&s)));
    // messages: bits as constants, monomials of both signs and small polynomials
    let mut ms: Vec<(Vec<u64>, bool)> = vec![(vec![0; n], true), (unit(n, 0, 1), true)];
    let exps: Vec<usize> = if n <= 16 { (0..n).collect() } else { vec![1, n / 2, n - 1] };
    for e in exps {
        ms.push((unit(n, e, 1), false));
        ms.push((unit(n, e, u64::MAX), false));
    }
    ms.push((unit(n, 0, 3), true));
    ms.push((unit(n, 0, u64::MAX), true));
    let f = fresh(std);
    let xs = cts(n, &s);
    let mut buf = ctx.gen_fft_ctx();
    for (m, constant) in &ms {
        let mut g = rgsw(n, b, l);
        if *constant {
            must("encrypt_constant_rgsw", || sk.encrypt_constant_rgsw(&mut g, &Plaintext(m[0]), &mut ctx));
        } else {
            must("encrypt_rgsw", || sk.encrypt_rgsw(&mut g, &pt(m), &mut ctx));
        }
        let norm: f64 = m.iter().map(|x| (*x as i64).unsigned_abs() as f64).sum();
        let bound = ext_err(n, b, l, f, norm, 0.0);
        for (i, x) in xs.iter().enumerate() {
            let what = format!("external product, message {m:?}, ciphertext {i}");
            let before = ct_of(&words(2 * n, 70 + i as u64));
            let before = if i % 2 == 0 { zero_ct(n) } else { before };
            let x0 = x.clone();
            let mut o = before.clone();
            must(&what, || g.external_product(&mut o, x));
            close(&what, &phase(&s, &o), &padd(&phase(&s, &before), &pmul(m, &phase(&s, x))), bound);
            ensure!(same(x, &x0), "{what}: the input was changed");
            // reused and fresh scratch buffers
            let mut o2 = before.clone();
            must(&what, || g.external_product_with_buf(&mut o2, x, &mut buf));
            let mut o3 = before.clone();
            let mut fb = ctx.gen_fft_ctx();
            must(&what, || g.external_product_with_buf(&mut o3, x, &mut fb));
            ensure!(near(&o, &o2, n, b, l), "{what}: a reused scratch buffer changes the result");
            ensure!(near(&o, &o3, n, b, l), "{what}: a fresh scratch buffer changes the result");
            step();
            if *constant && m[0] < 2 {
                // two others, and the ciphertext itself with another mask, another body, and as it is
                let other = &xs[(i + 1) % xs.len()];
                let alike = [ct_of(&[mask_of(other), body_of(x)].concat()), ct_of(&[mask_of(x), body_of(other)].concat()), x.clone()];
                for j in [(i + 1) % xs.len(), (i + 3) % xs.len(), xs.len(), xs.len() + 1, xs.len() + 2] {
                    if j >= xs.len() && i > 2 {
                        continue;
                    }
                    let (x, y) = (&xs[i], if j < xs.len() { &xs[j] } else { &alike[j - xs.len()] });
                    let y0 = y.clone();
                    let what = format!("selector, bit {}, ciphertexts {i} and {j}", m[0]);
                    let mut o = ct_of(&words(2 * n, 90));
                    must(&what, || g.cmux(&mut o, x, y));
                    close(&what, &phase(&s, &o), &phase(&s, if m[0] == 0 { x } else { y }), bound);
                    ensure!(same(x, &x0) && same(y, &y0), "{what}: an input was changed");
                    let mut o2 = zero_ct(n);
                    must(&what, || g.cmux_with_buf(&mut o2, x, y, &mut buf));
                    ensure!(near(&o, &o2, n, b, l), "{what}: the scratch buffer or the previous output changes the result");
                    step();
                }
            }
        }
        state(&(c, std.to_bits(), &s, m));
    }
}
pub fn c12_bounds() -> String {
    format!("all 256 keys at N=8 with two settings; {} gadget settings (1 to 40 levels, bases 2^1..2^25) for N up to 64, rings up to {} with fewer, with error deviations 2^-55 and none; messages 0, 1, 3, -1 and every +-X^k; seven ciphertexts including extreme masks; accumulation, cmux, buffers; every sequence of {} of 24 (ring, decomposition) settings and back, used in turn on one thread with scratch buffers kept across", by_tier(10, 14), by_tier(2048, 4096), by_tier(2, 3))
}

// ---------------------------------------------------------------- C16
/// Every small polynomial: the encryption is that polynomial's, not one of something like it.
fn c16_small() {
    scenario("every small polynomial");
    let n = pick(&[1usize, 2, 4, 8, 16]);
    let (b, l) = pick(&[(4usize, 4usize), (7, 3), (20, 2)]);
    let s = if n >= 8 { pattern(n, 2, 5) } else { (0..n).map(|_| choose(2) as u64).collect() };
    let sk = key(&s);
    let mut ctx = ctx_of(&cfg(n, 5, 9, 6, 7, b, l, 2), -90.0);
    let f = fresh(-90.0);
    let mut ms: Vec<Vec<u64>> = vec![];
    if n <= 4 {
        let dom = [0u64, 1, u64::MAX, 2, 1 << 63];
        for w in 0..5usize.pow(n as u32) {
            ms.push((0..n).map(|i| dom[w / 5usize.pow(i as u32) % 5]).collect());
        }
    } else {
        for i in 0..n {
            for j in 0..i {
                for (x, y) in [(1, 1), (1, u64::MAX), (u64::MAX, 1), (u64::MAX, u64::MAX), (2, u64::MAX - 1), (1, 2)] {
                    ms.push(padd(&unit(n, i, x), &unit(n, j, y)));
                }
            }
        }
    }
    note(|| format!("N={n} base 2^{b} levels {l} key {}", brief(&s)));
    for m in &ms {
        let mut g = rgsw(n, b, l);
        must("encrypt_rgsw", || sk.encrypt_rgsw(&mut g, &pt(m), &mut ctx));
        check_rows(&format!("RGSW base 2^{b} levels {l} of {}", brief(m)), &g, m, &s, b, l, f, f);
        if n == 8 && m.iter().all(|x| *x < 2 || *x == u64::MAX) {
            check_acts("RGSW", &g, m, &s, b, l, f);
        }
        step();
    }
    state(&(n, b, l, &s));
}
pub fn c16() {
    if choose(2) == 1 {
        return c16_small();
    }
    let (all, large, sc) = pick(&[
        (true, false, "every key"),
        (false, false, "every decomposition and ring size"),
        (false, true, "large rings"),
    ]);
    scenario(sc);
    let n = if all { 8 } else if large { pick(&rings()) } else { pick(by_tier(&[4usize, 8, 16, 64][..], &[2, 4, 8, 16, 32, 64][..])) };
    let mut decs: Vec<(usize, usize)> = vec![(4, 4), (7, 6)];
    if large {
        decs = vec![(5, 11), (25, 2)];
    } else if !all {
        decs = (1..=31).map(|b| (b, (63 / b).min(by_tier(12, 63)))).collect();
        decs.extend(DEC);
        decs.extend([(5, 1), (5, 2), (31, 2), (32, 1), (62, 1), (6, 10), (32, 2), (16, 4), (8, 8)]);
    }
    let (b, l) = pick(&decs);
    // the context's own settings differ from those of the ciphertext
    let (cb, cl) = if large { (5, 9) } else { pick(&[(5usize, 9usize), (11, 3)]) };
    let std = if large { -55.0 } else { pick(&[-55.0f64, -90.0]) };
    let s = keys(n, all);
    let sk = key(&s);
    let c = cfg(n, cb, cl, 6, 7, b, l, 2);
    let mut ctx = ctx_of(&c, std);
    let f = fresh(std);
    note(|| format!("ciphertext base 2^{b} levels {l}, context {c:?} std 2^{std} key {}", brief(&s)));
    // (a gadget that covers all 64 bits can be encrypted but not decomposed)
    let act = n >= 8 && b * l < 64;
    let mut ms = vec![words(n, 3), vec![u64::MAX; n], unit(n, n - 1, 1), unit(n, 1 % n, u64::MAX), pattern(n, 2, 8), unit(n, 0, 1), vec![0; n]];
    ms.push(pneg(&s));
    for m in &ms {
        let mut g = rgsw(n, b, l);
        must("encrypt_rgsw", || sk.encrypt_rgsw(&mut g, &pt(m), &mut ctx));
        let what = format!("RGSW base 2^{b} levels {l} of {} (context base 2^{cb})", brief(m));
        check_rows(&what, &g, m, &s, b, l, f, f);
        step();
        if act && m.iter().all(|x| *x < 2 || *x == u64::MAX) {
            check_acts(&what, &g, m, &s, b, l, f);
        }
    }
    for k in [0u64, 1, 2, u64::MAX, 12345] {
        let mut g = rgsw(n, b, l);
        must("encrypt_constant_rgsw", || sk.encrypt_constant_rgsw(&mut g, &Plaintext(k), &mut ctx));
        check_rows(&format!("constant RGSW of {k}"), &g, &unit(n, 0, k), &s, b, l, f, f);
        step();
    }
    // RGSW(-s) uses the -s settings, encrypt_constant_rgsw_vec the context's
    let g = must("neg_gsw", || sk.neg_gsw(&mut ctx));
    check_rows(&format!("RGSW(-s), base 2^{b} levels {l}"), &g, &pneg(&s), &s, b, l, f, f);
    if act {
        check_acts("RGSW(-s)", &g, &pneg(&s), &s, b, l, f);
    }
    let v = must("encrypt_constant_rgsw_vec", || sk.encrypt_constant_rgsw_vec(&[Plaintext(1), Plaintext(0), Plaintext(7)], &mut ctx));
    ensure!(v.len() == 3, "encrypt_constant_rgsw_vec returned {}", v.len());
    for (g, k) in v.iter().zip([1u64, 0, 7]) {
        check_rows("encrypt_constant_rgsw_vec", g, &unit(n, 0, k), &s, cb, cl, f, f);
    }
    ensure!(key_words(&sk) == s, "the key was changed");
    steps(4);
    state(&(c, std.to_bits(), &s));
}
pub fn c16_bounds() -> String {
    format!("all 256 keys at N=8 with two decompositions; bases 2^1..2^32 with up to {} levels and single-level settings, N up to 64 and rings up to {} with two decompositions, two context settings, error deviation 2^-55 and none; arbitrary, monomial, binary, -s messages, every polynomial with coefficients 0, 1, -1, 2, 2^63 for N up to 4 and every sum of two small monomials for N 8 and 16; every row compared with the scaled message", by_tier(12, 63), by_tier(2048, 4096))
}

// ---------------------------------------------------------------- C13
fn fourier_zero(n: usize, junk: bool) -> FourierRLWECiphertext {
    let mut f = FourierRLWECiphertext::new(n);
    if junk {
        for (i, x) in f.mask.data.iter_mut().chain(f.body.data.iter_mut()).enumerate() {
            x.re = 0.125 * i as f64;
            x.im = -0.25;
        }
    }
    f
}
/// Every ordered pair of switches of different settings and forms.
fn c13_pairs() {
    scenario("every pair of settings and forms in turn");
    // the last two differ from the first in their keys only
    let sets = [(8usize, 5usize, 11usize, 1u64), (8, 4, 4, 1), (8, 4, 3, 2), (16, 5, 11, 1), (16, 7, 9, 3), (64, 20, 2, 1), (8, 5, 11, 2), (8, 5, 11, 3)];
    let f = fresh(-55.0);
    let made: Vec<_> = sets
        .iter()
        .map(|&(n, kb, kl, seed)| {
            let mut ctx = ctx_of(&cfg(n, 8, 3, kb, kl, 6, 9, 2), -55.0);
            let (old, new) = (pattern(n, 2, 20 + seed), pattern(n, 2, 30 + seed));
            let (sk_old, sk_new) = (key(&old), key(&new));
            let mut ksk = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, PolynomialSize(n));
            ksk.fill_with_keyswitch_key(&sk_old, &sk_new, ctx.std, &mut ctx.encryption_generator);
            let fk = ksk.clone().into_fourier();
            let gk = RGSWCiphertext::from_keyswitch_key(&ksk);
            let lsk = ctx.gen_lwe_sk();
            let mut lk = LWEtoRLWEKeyswitchKey::allocate(&ctx);
            lk.fill_with_keyswitching_key(&lsk, &mut ctx);
            let ls = key_words(&lsk.to_rlwe_sk());
            let buf = std::cell::RefCell::new(ctx.gen_fft_ctx());
            (n, kb, kl, old, new, ksk, fk, gk, ls, lk, ctx, buf)
        })
        .collect();
    let run = |a: usize, form: usize, seed: u64, what: &str| {
        let (n, kb, kl, old, new, ksk, fk, gk, ls, lk, ctx, buf) = &made[a];
        let n = *n;
        let x = ct_of(&words(2 * n, seed));
        let mut o = zero_ct(n);
        if form == 4 {
            let l = lwe_of(&words(n + 1, seed));
            let o = must("conv_lwe_to_rlwe", || conv_lwe_to_rlwe(lk, &l, ctx));
            let bound = FRESH + n as f64 * (*kl as f64 * (*kb as f64 - 1.0).exp2() * FRESH + (63.0 - (kb * kl) as f64).exp2());
            return close(what, &phase(ls, &o), &unit(n, 0, lwe_phase(&l, ls)), bound);
        }
        match form {
            0 => must("keyswitch_ciphertext", || ksk.keyswitch_ciphertext(&mut o, &x)),
            1 => {
                let mut fo = FourierRLWECiphertext::new(n);
                must("Fourier keyswitch_ciphertext", || fk.keyswitch_ciphertext(&mut fo, &x));
                o = fo.backward_as_torus();
            }
            2 => must("RGSW keyswitch_ciphertext", || gk.keyswitch_ciphertext(&mut o, &x)),
            _ => must("RGSW keyswitch_ciphertext_with_buf", || gk.keyswitch_ciphertext_with_buf(&mut o, &x, &mut buf.borrow_mut())),
        }
        let bound = if form < 2 { ks_err(n, *kb, *kl, f, 0.0) } else { ext_err(n, *kb, *kl, f, 1.0, 0.0) };
        close(what, &phase(new, &o), &phase(old, &x), bound);
    };
    let first = choose(sets.len() * 5);
    for second in 0..sets.len() * 5 {
        note(|| format!("{:?} form {}, then {:?} form {}", sets[first / 5], first % 5, sets[second / 5], second % 5));
        run(first / 5, first % 5, 11 + second as u64, "the first switch");
        run(second / 5, second % 5, 12 + first as u64, &format!("{:?} (N, base, levels, key) form {} after {:?} form {}", sets[second / 5], second % 5, sets[first / 5], first % 5));
        steps(2);
        state(&(first, second));
    }
}
pub fn c13() {
    let part = choose(5);
    if part == 4 {
        return c13_pairs();
    }
    if part == 3 {
        scenario("from LWE keys to RLWE keys");
        return crate::alg::lwe_conversion();
    }
    let (all, sc) = [(true, "every old key"), (false, "every decomposition, odd and even, and ring size"), (false, "large rings")][part];
    let large = part == 2;
    scenario(sc);
    let n = if all { 8 } else if large { pick(&rings()) } else { pick(by_tier(&[8usize, 16, 64][..], &[8, 16, 32, 64][..])) };
    let decs: Vec<(usize, usize)> = if all {
        vec![(4, 5), (7, 4)]
    } else if large {
        vec![(5, 11), (10, 4), (20, 2)]
    } else {
        let mut v: Vec<(usize, usize)> = (1..=12).map(|l| (5, l)).collect();
        v.extend([(4, 4), (4, 3), (1, 20), (1, 33), (10, 1), (12, 4), (16, 3), (7, 9), (20, 2), (21, 3), (3, 10)]);
        v
    };
    let (kb, kl) = pick(&decs);
    let std = pick(&[-55.0f64, -90.0]);
    let old = keys(n, all);
    let new = match choose(3) {
        0 => pattern(n, 2, 21),
        1 => old.clone(),
        _ => pattern(n, 2, 22),
    };
    let (sk_old, sk_new) = (key(&old), key(&new));
    let c = cfg(n, 8, 3, kb, kl, 6, 9, 2);
    let mut ctx = ctx_of(&c, std);
    let f = fresh(std);
    note(|| format!("{c:?} std 2^{std} from {old:?} to {new:?}"));
    let mut ksk = RLWEKeyswitchKey::allocate(DecompositionBaseLog(kb), DecompositionLevelCount(kl), PolynomialSize(n));
    must("fill_with_keyswitch_key", || ksk.fill_with_keyswitch_key(&sk_old, &sk_new, ctx.std, &mut ctx.encryption_generator));
    ensure!(ksk.decomposition_base_log().0 == kb && ksk.decomposition_level_count().0 == kl && ksk.polynomial_size().0 == n, "key parameters");
    let fk = must("into_fourier", || ksk.clone().into_fourier());
    let gk = must("from_keyswitch_key", || RGSWCiphertext::from_keyswitch_key(&ksk));
    let mut buf = ctx.gen_fft_ctx();
    let b1 = ks_err(n, kb, kl, f, 0.0);
    let b2 = ext_err(n, kb, kl, f, 1.0, 0.0);
    for (i, x) in cts(n, &old).iter().enumerate() {
        let x0 = x.clone();
        let want = phase(&old, x);
        let mut o = ct_of(&words(2 * n, 60));
        must("keyswitch_ciphertext", || ksk.keyswitch_ciphertext(&mut o, x));
        close(&format!("standard key switch of ciphertext {i}, base 2^{kb} levels {kl}"), &phase(&new, &o), &want, b1);
        let mut fo = fourier_zero(n, i % 2 == 0);
        must("Fourier keyswitch_ciphertext", || fk.keyswitch_ciphertext(&mut fo, x));
        let o = must("backward_as_torus", || fo.backward_as_torus());
        close(&format!("Fourier key switch of ciphertext {i}, base 2^{kb} levels {kl}"), &phase(&new, &o), &want, b1);
        let mut o = zero_ct(n);
        must("RGSW keyswitch_ciphertext", || gk.keyswitch_ciphertext(&mut o, x));
        close(&format!("RGSW key switch of ciphertext {i}, base 2^{kb} levels {kl}"), &phase(&new, &o), &want, b2);
        let mut o2 = zero_ct(n);
        must("RGSW keyswitch_ciphertext_with_buf", || gk.keyswitch_ciphertext_with_buf(&mut o2, x, &mut buf));
        close(&format!("RGSW key switch of ciphertext {i} with a buffer"), &phase(&new, &o2), &want, b2);
        ensure!(same(x, &x0), "the ciphertext to switch was changed");
        steps(4);
    }
    ensure!(key_words(&sk_old) == old && key_words(&sk_new) == new, "a key was changed");
    state(&(c, std.to_bits(), &old, &new));
}
pub fn c13_bounds() -> String {
    format!("all 256 old keys at N=8 with an odd and an even number of levels; 23 decompositions (1..12 levels of base 2^5 and others) for N up to 64 and three for rings up to {}; equal and different new keys; standard, Fourier and RGSW forms, and from LWE to RLWE with eight decompositions; every ordered pair of eight settings (N 8, 16, 64) and five forms; error deviation 2^-55 and none", by_tier(2048, 4096))
}

// ---------------------------------------------------------------- C14
pub fn trace_err(n: usize, kb: usize, kl: usize, f: f64, e0: f64) -> f64 {
    let mut e = e0;
    for _ in 0..n.trailing_zeros() {
        e = 2.0 * e + ks_err(n, kb, kl, f, 0.0);
    }
    e
}
/// Every ordered pair of calls: what a call gives must not depend on the one before.
fn c14_pairs() {
    scenario("every pair of calls in turn");
    let (n, other) = pick(&[(8usize, 16usize), (16, 8), (16, 16)]);
    let setting = |n: usize, kb: usize, kl: usize| {
        let s = pattern(n, 2, 4);
        let sk = key(&s);
        let mut ctx = ctx_of(&cfg(n, 8, 3, kb, kl, 6, 9, 2), -55.0);
        let mut ks: HashMap<usize, RLWEKeyswitchKey> = HashMap::new();
        for k in (1..2 * n).step_by(2) {
            let mut ksk = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, PolynomialSize(n));
            let mut dummy = key(&words(n, 77));
            ksk.fill_with_subs_keyswitch_key(&mut dummy, &sk, k, ctx.std, &mut ctx.encryption_generator);
            ks.insert(k, ksk);
        }
        let fs: HashMap<usize, FourierRLWEKeyswitchKey> = ks.iter().map(|(k, x)| (*k, x.clone().into_fourier())).collect();
        (n, s, ks, fs, kb, kl)
    };
    let (kb, kl) = pick(&[(5usize, 11usize), (7, 5)]);
    let a = setting(n, kb, kl);
    let b = setting(other, 4, 9);
    let f = fresh(-55.0);
    // operation: 2i, 2i+1 = substitution by 2i+1, standard and Fourier; then the traces
    type S = (usize, Vec<u64>, HashMap<usize, RLWEKeyswitchKey>, HashMap<usize, FourierRLWEKeyswitchKey>, usize, usize);
    let run = |x: &S, op: usize, seed: u64, after: &str| {
        let (n, s, ks, fs, kb, kl) = x;
        let (n, k) = (*n, 2 * (op / 2) + 1);
        let c = ct_of(&words(2 * n, seed));
        let ph = phase(s, &c);
        if op < 2 * n {
            let mut o = zero_ct(n);
            if op % 2 == 0 {
                must("subs", || ks[&k].subs(&mut o, &c));
            } else {
                let mut fo = FourierRLWECiphertext::new(n);
                must("Fourier subs", || fs[&k].subs(&mut fo, &c));
                o = fo.backward_as_torus();
            }
            close(&format!("N={n} operation {op}, substitution X^{k}{after}"), &phase(s, &o), &psubst(&ph, k), ks_err(n, *kb, *kl, f, 0.0));
        } else {
            let mut o = zero_ct(n);
            if op % 2 == 0 {
                o = must("trace1", || c.trace1(ks));
            } else {
                must("trace1_fourier", || c.trace1_fourier(&mut o, fs));
            }
            close(&format!("N={n} operation {op}, trace{after}"), &phase(s, &o), &unit(n, 0, ph[0].wrapping_mul(n as u64)), trace_err(n, *kb, *kl, f, 0.0));
        }
        step();
    };
    let first = choose(2 * other + 2);
    for second in 0..2 * n + 2 {
        note(|| format!("N={other} operation {first}, then N={n} operation {second}"));
        run(&b, first, 31 + second as u64, "");
        run(&a, second, 71 + first as u64, &format!(" after N={other} operation {first}"));
        state(&(n, other, kb, kl, first, second));
    }
}
pub fn c14() {
    let part = choose(5);
    if part == 4 {
        return c14_pairs();
    }
    let large = part >= 2;
    match part {
        0 | 2 => {
            scenario(if large { "substitution in large rings" } else { "substitution of every odd exponent" });
            let n = if large { pick(&rings()) } else { pick(by_tier(&[8usize, 16, 32][..], &[8, 16, 32, 64][..])) };
            let (kb, kl) = if large { (5, 11) } else { pick(&[(5usize, 11usize), (4, 4), (7, 5), (3, 6), (1, 30), (20, 2), (12, 1)]) };
            let std = if large { -55.0 } else { pick(&[-55.0f64, -90.0]) };
            // the exponents the trace uses, their inverses and others
            let k = if large {
                let i = choose(n.trailing_zeros() as usize);
                pick(&[(n >> i) + 1, 2 * n - (n >> i) - 1, (1 << i) * 2 + 1, 2 * n - 1 - 2 * i])
            } else {
                2 * choose(n) + 1
            };
            let s = keys(n, false);
            let sk = key(&s);
            let c = cfg(n, 8, 3, kb, kl, 6, 9, 2);
            let mut ctx = ctx_of(&c, std);
            note(|| format!("{c:?} std 2^{std} k={k} key {}", brief(&s)));
            let mut ksk = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, PolynomialSize(n));
            let mut dummy = key(&words(n, 77));
            must("fill_with_subs_keyswitch_key", || ksk.fill_with_subs_keyswitch_key(&mut dummy, &sk, k, ctx.std, &mut ctx.encryption_generator));
            ensure!(ksk.get_subs_k() == k, "get_subs_k");
            let fk = must("into_fourier", || ksk.clone().into_fourier());
            ensure!(fk.get_subs_k() == k, "the Fourier key has exponent {}, must be {k}", fk.get_subs_k());
            let bound = ks_err(n, kb, kl, fresh(std), 0.0);
            for (i, x) in cts(n, &s).iter().enumerate() {
                let x0 = x.clone();
                let want = psubst(&phase(&s, x), k);
                let mut o = ct_of(&words(2 * n, 61));
                must("subs", || ksk.subs(&mut o, x));
                close(&format!("substitution X^{k}, ciphertext {i}"), &phase(&s, &o), &want, bound);
                let mut fo = fourier_zero(n, true);
                must("Fourier subs", || fk.subs(&mut fo, x));
                let o = must("backward_as_torus", || fo.backward_as_torus());
                close(&format!("Fourier substitution X^{k}, ciphertext {i}"), &phase(&s, &o), &want, bound);
                ensure!(same(x, &x0), "the ciphertext was changed");
                steps(2);
            }
            state(&(c, std.to_bits(), &s, k));
        }
        _ => {
            scenario(if large { "trace in large rings" } else { "trace of every unit and arbitrary message" });
            let n = if large { pick(&rings()) } else { pick(by_tier(&[8usize, 16, 32, 64][..], &[8, 16, 32, 64][..])) };
            let (kb, kl) = if large { pick(&[(5usize, 11usize), (10, 4)]) } else { pick(&[(5usize, 11usize), (4, 4), (7, 5), (1, 30), (20, 2)]) };
            let std = if large { -55.0 } else { pick(&[-55.0f64, -90.0]) };
            let s = keys(n, n == 8 && kl == 4);
            let sk = key(&s);
            let c = cfg(n, 8, 3, kb, kl, 6, 9, 2);
            let mut ctx = ctx_of(&c, std);
            note(|| format!("{c:?} std 2^{std} key {}", brief(&s)));
            let map = must("gen_all_subs_ksk", || gen_all_subs_ksk(&sk, &mut ctx));
            let fmap = must("gen_all_subs_ksk_fourier", || gen_all_subs_ksk_fourier(&sk, &mut ctx));
            for i in 0..n.trailing_zeros() {
                let k = n / (1 << i) + 1;
                ensure!(map.get(&k).map(|x| x.get_subs_k()) == Some(k), "the key set has no key for {k}");
                ensure!(fmap.get(&k).map(|x| x.get_subs_k()) == Some(k), "the Fourier key set has no key for {k}");
            }
            let f = fresh(std);
            let bound = trace_err(n, kb, kl, f, 0.0);
            let mut xs = cts(n, &s);
            for i in 0..n.min(16) {
                let a = words(n, 300 + i as u64);
                let b = padd(&pmul(&a, &s), &unit(n, i, 1 << 55));
                xs.push(ct_of(&[a, b].concat()));
            }
            for (i, x) in xs.iter().enumerate() {
                let x0 = x.clone();
                let want = unit(n, 0, phase(&s, x)[0].wrapping_mul(n as u64));
                let o = must("trace1", || x.trace1(&map));
                close(&format!("trace of ciphertext {i} (N={n})"), &phase(&s, &o), &want, bound);
                let mut o = ct_of(&words(2 * n, 62));
                must("trace1_fourier", || x.trace1_fourier(&mut o, &fmap));
                close(&format!("Fourier trace of ciphertext {i} (N={n})"), &phase(&s, &o), &want, bound);
                ensure!(same(x, &x0), "the ciphertext was changed");
                steps(2);
            }
            state(&(c, std.to_bits(), &s));
        }
    }
}
pub fn c14_bounds() -> String {
    format!("every odd k < 2N for N up to {}, seven key-switching decompositions; traces for N up to 64 of unit, extreme and arbitrary ciphertexts, all 256 keys at N=8; standard and Fourier; error deviation 2^-55 and none; the trace's exponents and others, and traces, in rings up to {}; every ordered pair of substitutions and traces at N 8 and 16, the first in the same or the other ring", by_tier(32, 64), by_tier(2048, 4096))
}

// ---------------------------------------------------------------- C15
pub fn c15() {
    let route = pick(&["trace", "fourier trace", "slow", "direct"]);
    scenario(route);
    let mut ns = by_tier(vec![8usize, 16], vec![8, 16, 32, 64]);
    if route != "slow" {
        ns.extend(by_tier(vec![256, 1024], vec![128, 512, 1024, 2048]));
    }
    let n = pick(&ns);
    // (gadget, key switching, -s)
    let (b, l, kb, kl, nb, nl) = if n > 64 { (5, 9, 5, 11, 5, 11) } else { pick(&[
        (5usize, 9usize, 5usize, 11usize, 5usize, 11usize),
        (4, 4, 4, 9, 7, 6),
        (7, 6, 6, 8, 4, 10),
        (5, 3, 8, 6, 10, 5),
        (9, 2, 3, 16, 25, 1),
        (12, 1, 5, 10, 6, 7),
        (3, 8, 7, 7, 5, 9),
        // many levels
        (3, 16, 3, 17, 3, 19),
        (2, 24, 4, 14, 2, 28),
        (1, 40, 1, 48, 1, 50),
        (4, 12, 2, 25, 5, 12),
    ]) };
    let std = if n > 64 { -55.0 } else { pick(&[-55.0f64, -90.0]) };
    let c = cfg(n, b, l, kb, kl, nb, nl, 2);
    let mut ctx = ctx_of(&c, std);
    let f = fresh(std);
    let (lwe, s) = if route == "slow" {
        let k = choose(by_tier(4, 12));
        let mut lsk = ctx.gen_lwe_sk();
        for _ in 0..k {
            lsk = ctx.gen_lwe_sk();
        }
        let s = key_words(&lsk.to_rlwe_sk());
        (Some(lsk), s)
    } else {
        (None, keys(n, n == 8 && l == 4 && std < -60.0))
    };
    let sk = key(&s);
    note(|| format!("{route} {c:?} std 2^{std} key {}", brief(&s)));
    let neg_s = must("neg_gsw", || sk.neg_gsw(&mut ctx));
    let snorm: f64 = s.iter().sum::<u64>() as f64;
    for bit in [0u64, 1] {
        let m = unit(n, 0, bit);
        let (g, bottom) = match route {
            "trace" => {
                let map = gen_all_subs_ksk(&sk, &mut ctx);
                let cs = must("make_decomposed_rlwe_ct", || make_decomposed_rlwe_ct(&sk, bit, &mut ctx));
                ensure!(cs.len() == l, "{} ciphertexts", cs.len());
                (must("expand", || expand(&cs, &map, &neg_s, &ctx)), trace_err(n, kb, kl, f, f))
            }
            "fourier trace" => {
                let map = gen_all_subs_ksk_fourier(&sk, &mut ctx);
                let cs = must("make_decomposed_rlwe_ct", || make_decomposed_rlwe_ct(&sk, bit, &mut ctx));
                (must("expand_fourier", || expand_fourier(&cs, &map, &neg_s, &ctx)), trace_err(n, kb, kl, f, f))
            }
            "slow" => {
                let mut k = LWEtoRLWEKeyswitchKey::allocate(&ctx);
                must("fill_with_keyswitching_key", || k.fill_with_keyswitching_key(lwe.as_ref().unwrap(), &mut ctx));
                let cs = must("make_decomposed_rlwe_ct2", || make_decomposed_rlwe_ct2(&sk, bit, &mut ctx));
                let e = f + n as f64 * (kl as f64 * (kb as f64 - 1.0).exp2() * f + (63.0 - (kb * kl) as f64).exp2());
                (must("expand_slow", || expand_slow(&cs, &k, &neg_s, &ctx)), e)
            }
            _ => {
                let cs: Vec<RLWECiphertext> = (1..=l)
                    .map(|j| {
                        let mut x = zero_ct(n);
                        sk.encrypt_constant_rlwe(&mut x, &Plaintext(bit << (64 - b * j)), &mut ctx);
                        x
                    })
                    .collect();
                let mut buf = ctx.gen_fft_ctx();
                (must("decomposed_rlwe_to_rgsw", || decomposed_rlwe_to_rgsw(&cs, &neg_s, &ctx, &mut buf)), f)
            }
        };
        let top = ext_err(n, nb, nl, f, snorm, bottom);
        let what = format!("{route}, bit {bit}");
        check_rows(&what, &g, &m, &s, b, l, top, bottom);
        step();
        check_acts(&what, &g, &m, &s, b, l, top.max(bottom));
        state(&(route, c, std.to_bits(), &s, bit));
    }
}
pub fn c15_bounds() -> String {
    format!("trace (standard, Fourier), slow and direct conversion of both bits, eleven combinations (1 to 40 levels) of gadget, key-switching and -s decompositions with N {:?} (the default one also with rings up to {}, except the slow route), all 256 keys at N=8 for one setting; every row compared with the scaled bit, then external products and selectors", by_tier(&[8usize, 16][..], &[8, 16, 32, 64][..]), by_tier(1024, 2048))
}

// ---------------------------------------------------------------- C11
/// Every ordered pair of comparisons, the first in the same or another ring.
fn c11_pairs() {
    scenario("every pair of comparisons in turn");
    let (n, other) = pick(&[(16usize, 16usize), (16, 32), (32, 16), (8, 64)]);
    let mut ctx = cfg(n, 5, 9, 5, 11, 5, 11, 4).ctx();
    let mut octx = cfg(other, 5, 9, 5, 11, 5, 11, 4).ctx();
    let (sk, osk) = (ctx.gen_rlwe_sk(), octx.gen_rlwe_sk());
    let m = choose(n);
    let (mut x, mut y) = (zero_ct(n), zero_ct(other));
    sk.encode_encrypt_rlwe(&mut x, &pt(&unit(n, m, 1)), &mut ctx);
    let om = (m * 7 + 3) % other;
    osk.encode_encrypt_rlwe(&mut y, &pt(&unit(other, om, 1)), &mut octx);
    for d1 in 0..other {
        for d2 in 0..n {
            for ops in 0..4 {
                note(|| format!("N={other} d={d1}, then N={n} m={m} d={d2}, {ops}"));
                let mut c = y.clone();
                must("the first comparison", || if ops & 1 == 0 { c.less_eq_than(d1) } else { c.eq_to(d1) });
                let want = if ops & 1 == 0 { om <= d1 } else { om == d1 };
                let got = decode(&osk, &c, &octx)[0];
                ensure!(got == want as u64, "N={other} m={om} d={d1} kind {}: {got}", ops & 1);
                let mut c = x.clone();
                must("the second comparison", || if ops & 2 == 0 { c.less_eq_than(d2) } else { c.eq_to(d2) });
                let want = if ops & 2 == 0 { m <= d2 } else { m == d2 };
                let got = decode(&sk, &c, &ctx)[0];
                ensure!(got == want as u64, "N={n} m={m} d={d2} kind {} (0 is <=, 1 is =) after a comparison with {d1} at N={other}: {got}, must be {}", ops / 2, want as u64);
                steps(2);
            }
        }
        state(&(n, other, m, d1));
    }
}
pub fn c11() {
    let kind = choose(4);
    if kind == 3 {
        return c11_pairs();
    }
    let big = kind == 1;
    let n = match kind {
        1 => pick(by_tier(&[512usize, 1024, 2048][..], &[512, 1024, 2048, 4096][..])),
        2 => pick(by_tier(&[512usize, 2048][..], &[512, 1024, 2048, 4096][..])),
        _ => pick(by_tier(&[8usize, 16, 32, 64, 128][..], &[8, 16, 32, 64, 128, 256, 512][..])),
    };
    scenario(["all m and d", "boundary values of large rings", "every operand for large rings"][kind]);
    let t = if kind == 2 { 4 } else { pick(&[2u64, 4, 256]) };
    let mut ctx = cfg(n, 5, 9, 5, 11, 5, 11, t).ctx();
    let vals_: Vec<usize> = if big {
        let mut v = vec![0, 1, 2, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1];
        if tier() == Tier::Thorough {
            v.extend([3, n / 4, 3 * n / 4, n - 3]);
        }
        v
    } else {
        (0..n).collect()
    };
    let sk = ctx.gen_rlwe_sk();
    // pairs (m, d): one m with every d, or every d of a range with an m at a fixed distance
    let pairs: Vec<(usize, usize)> = if kind == 2 {
        let part = choose(n / 64);
        let off = pick(by_tier(&[0usize, n - 1][..], &[0, 1, n - 1, n / 2, n / 2 - 1, 63, n - 64][..]));
        (64 * part..64 * part + 64).map(|d| ((d + off) % n, d)).collect()
    } else {
        let m = pick(&vals_);
        vals_.iter().map(|d| (m, *d)).collect()
    };
    note(|| format!("N={n} t={t} from m={} d={}", pairs[0].0, pairs[0].1));
    let mut x = zero_ct(n);
    let mut last = usize::MAX;
    for (m, d) in pairs {
        if m != last {
            must("encode_encrypt_rlwe", || sk.encode_encrypt_rlwe(&mut x, &pt(&unit(n, m, 1)), &mut ctx));
            last = m;
        }
        let bound = FRESH * (d + 1) as f64 + (1.0 + n as f64).sqrt() * fft_err(n, 1, 0.0);
        let check = |what: &str, c: &RLWECiphertext, want: u64| {
            let got = decode(&sk, c, &ctx)[0];
            ensure!(got == want, "{what}: N={n} t={t} m={m} d={d}: the constant coefficient decodes to {got}, must be {want}");
            let p = phase_by(&sk, c)[0];
            let e = (p.wrapping_sub(want.wrapping_mul(delta(t))) as i64).unsigned_abs() as f64;
            ensure!(e <= bound, "{what}: N={n} m={m} d={d}: error 2^{:.1}, the worst case is 2^{:.1}", e.log2(), bound.log2());
        };
        let mut c = x.clone();
        must("less_eq_than", || c.less_eq_than(d));
        check("<=", &c, (m <= d) as u64);
        let mut c = x.clone();
        must("eq_to", || c.eq_to(d));
        check("=", &c, (m == d) as u64);
        steps(2);
        state(&(n, t, m, d));
    }
    for d in [n, n + 1, 2 * n, usize::MAX] {
        let mut c = x.clone();
        must_refuse(&format!("N={n}: <= {d}"), || c.less_eq_than(d));
        let mut c = x.clone();
        must_refuse(&format!("N={n}: = {d}"), || c.eq_to(d));
    }
}
pub fn c11_bounds() -> String {
    format!("all m, d < N for N 8..{}, boundary values for N 512 to {}, every d of these rings with m at {} distances from it, every ordered pair of comparisons of both kinds at N 8 to 64, moduli 2, 4, 256, d >= N refused", by_tier(128, 512), by_tier(2048, 4096), by_tier(2, 7))
}

// ---------------------------------------------------------------- C08
/// Wide indices: every index up to 2^9 (2^11), then those around the powers of two.
fn c08_wide() {
    scenario("wide indices");
    let k = 7 + choose(by_tier(6, 8));
    let width = 1usize << k;
    let full = k <= by_tier(9, 11);
    let n = 8;
    let c = cfg(n, 15, 2, 5, 11, 5, 11, 2);
    let mut ctx = ctx_of(&c, -60.0);
    let s = pattern(n, 2, 4 + k as u64);
    let sk = key(&s);
    let list: Vec<usize> = if full {
        let chunks = (width / 32).max(1);
        let a = choose(chunks);
        (a * (width / chunks)..(a + 1) * (width / chunks)).collect()
    } else {
        let j = choose(k);
        let mut v: Vec<usize> = vec![1 << j, (1 << j) - 1, (1 << j) + 1, width - (1 << j), (width / 3) ^ (1 << j)];
        v.retain(|x| *x < width);
        v
    };
    let f = fresh(-60.0);
    let bound = (0..k).fold(0.0, |e, _| e + ext_err(n, c.b, c.l, f, 1.0, e));
    let mut buf = ctx.gen_fft_ctx();
    let x = ct_of(&[vec![0; n], words(n, 9)].concat());
    let px = phase(&s, &x);
    for i in list {
        note(|| format!("width {width} index {i}"));
        let bits = must("bit_decomposed_rgsw", || bit_decomposed_rgsw(i, width, &sk, &mut ctx));
        ensure!(bits.len() == k, "width {width}: {} encrypted bits, must be {k}", bits.len());
        let out = must("demux_with", || demux_with(x.clone(), &bits, &ctx, &mut buf));
        ensure!(out.len() == width, "width {width}: demux_with returns {} ciphertexts", out.len());
        let zero = vec![0; n];
        for (j, o) in out.iter().enumerate() {
            let want = if i == j { &px } else { &zero };
            close(&format!("demux_with width {width} index {i} position {j}"), &phase(&s, o), want, bound);
        }
        step();
        state(&(k, i));
    }
}

/// Every ordered pair of demultiplexings with one scratch buffer.
fn c08_pairs() {
    scenario("every pair of widths and indices in turn");
    let n = 8;
    let c = cfg(n, 5, 9, 5, 11, 5, 11, 2);
    let mut ctx = ctx_of(&c, -60.0);
    let s = pattern(n, 2, 5);
    let sk = key(&s);
    let max = by_tier(4, 5);
    let all: Vec<(usize, usize)> = (0..=max).flat_map(|k| (0..1usize << k).map(move |i| (k, i))).collect();
    // encrypted before any is used
    let bits: Vec<Vec<RGSWCiphertext>> = all.iter().map(|(k, i)| must("bit_decomposed_rgsw", || bit_decomposed_rgsw(*i, 1 << k, &sk, &mut ctx))).collect();
    let f = fresh(-60.0);
    let mut buf = ctx.gen_fft_ctx();
    let a = choose(all.len());
    let (x, y) = (ct_of(&words(2 * n, 17)), ct_of(&words(2 * n, 18)));
    for b in 0..all.len() {
        for (which, j, c_in) in [("first", a, &x), ("second", b, &y)] {
            let (k, i) = all[j];
            note(|| format!("{:?} then {:?}", all[a], all[b]));
            let bound = (0..k).fold(0.0, |e, _| e + ext_err(n, c.b, c.l, f, 1.0, e));
            let out = must("demux_with", || demux_with(c_in.clone(), &bits[j], &ctx, &mut buf));
            ensure!(out.len() == 1 << k, "width {}: demux_with returns {} ciphertexts", 1 << k, out.len());
            for (q, o) in out.iter().enumerate() {
                let want = if i == q { phase(&s, c_in) } else { vec![0; n] };
                close(&format!("{:?} then {:?} (bits, index): position {q} of the {which}", all[a], all[b]), &phase(&s, o), &want, bound);
            }
            step();
        }
        state(&(a, b));
    }
}
pub fn c08() {
    match choose(3) {
        1 => return c08_wide(),
        2 => return c08_pairs(),
        _ => (),
    }
    let n = pick(by_tier(&[8usize, 64][..], &[8, 16, 64, 256][..]));
    let (b, l) = pick(&[(5usize, 9usize), (4, 8), (7, 6), (9, 5), (3, 16), (12, 3)]);
    let std = pick(&[-55.0f64, -90.0]);
    let c = cfg(n, b, l, 5, 11, 5, 11, 2);
    let k = choose(1 + by_tier(if n == 8 { 6 } else { 3 }, if n == 8 { 8 } else { 5 }));
    let t = pick(&[2u64, 16]);
    scenario("every width and index");
    let mut c = c;
    c.t = t;
    let mut ctx = ctx_of(&c, std);
    let width = 1usize << k;
    let s = pattern(n, 2, 4 + k as u64);
    let sk = key(&s);
    note(|| format!("{c:?} width {width}"));
    let f = fresh(std);
    let derr = |e_in: f64| (0..k).fold(e_in, |e, _| e + ext_err(n, b, l, f, 1.0, e));
    let (bound, bound_enc) = (derr(0.0), derr(0.0));
    ensure_cfg(derr(0.0) < delta(t) as f64 / 2.0, &c, k);
    let mut buf = ctx.gen_fft_ctx();
    for i in 0..width {
        let bits = must("bit_decomposed_rgsw", || bit_decomposed_rgsw(i, width, &sk, &mut ctx));
        ensure!(bits.len() == k, "width {width}: {} encrypted bits, must be {k}", bits.len());
        let out = must("demux", || demux(&bits, &ctx, &mut buf));
        ensure!(out.len() == width, "width {width}: demux returns {} ciphertexts", out.len());
        for (j, o) in out.iter().enumerate() {
            let want = unit(n, 0, (i == j) as u64);
            ensure!(decode(&sk, o, &ctx) == want, "width {width} index {i}: position {j} decrypts to {:?}", decode(&sk, o, &ctx));
            close(&format!("demux width {width} index {i} position {j}"), &phase(&s, o), &enc_of(&want, t), bound);
        }
        for x in [ct_of(&words(2 * n, i as u64 + 1)), ct_of(&[vec![0; n], words(n, 3)].concat())] {
            let out = must("demux_with", || demux_with(x.clone(), &bits, &ctx, &mut buf));
            ensure!(out.len() == width, "width {width}: demux_with returns {} ciphertexts", out.len());
            for (j, o) in out.iter().enumerate() {
                let want = if i == j { phase(&s, &x) } else { vec![0; n] };
                close(&format!("demux_with width {width} index {i} position {j}"), &phase(&s, o), &want, bound_enc);
            }
        }
        steps(3);
        state(&(c, std.to_bits(), k, i));
    }
}
fn ensure_cfg(ok: bool, c: &Cfg, k: usize) {
    if !ok {
        let _ = (c, k);
        skip();
    }
}
pub fn c08_bounds() -> String {
    format!("every width 1..2^{} at N=8 (up to 2^{} for larger N), every index, six gadget settings, demux and demux_with on arbitrary ciphertexts; at N=8 every index of widths up to 2^{} and the indices around the powers of two of widths up to 2^{}; every ordered pair of widths up to 2^{} and their indices with one scratch buffer; settings whose worst-case error exceeds half a plaintext step are outside", by_tier(6, 8), by_tier(3, 5), by_tier(9, 11), by_tier(12, 14), by_tier(4, 5))
}
