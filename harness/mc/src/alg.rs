//! C18, C19: encryption formats and ciphertext arithmetic.
use crate::common::*;
use panacea::codec::Codec;
use panacea::lwe::{conv_lwe_to_rlwe, LWECiphertext, LWESecretKey, LWEtoRLWEKeyswitchKey};
use panacea::rlwe::{naive_update_with_mul, naive_update_with_mul_acc};

fn keys(n: usize, count: usize) -> Vec<u64> {
    // every binary key for N = 8, otherwise zero, one, units and patterns
    if n == 8 && count >= 256 {
        let w = choose(256) as u64;
        (0..8).map(|i| (w >> i) & 1).collect()
    } else {
        match choose(count) {
            0 => vec![0; n],
            1 => vec![1; n],
            2 => unit(n, n - 1, 1),
            k => pattern(n, 2, k as u64),
        }
    }
}
fn messages(n: usize, t: u64) -> Vec<Vec<u64>> {
    let mut v = vec![vec![0; n], vec![t - 1; n], vec![t / 2; n]];
    if n <= 64 {
        v.extend((0..n).map(|i| unit(n, i, t - 1)));
    } else {
        v.extend([0, 1, n / 2, n - 1].map(|i| unit(n, i, t - 1)));
    }
    v.extend((0..4).map(|s| pattern(n, t, s + 11)));
    v
}
/// LWE phase b - <a, s>.
pub fn lwe_phase(c: &LWECiphertext, s: &[u64]) -> u64 {
    let w = c.as_tensor().as_slice();
    let n = w.len() - 1;
    (0..n).fold(w[n], |x, i| x.wrapping_sub(w[i].wrapping_mul(s[i])))
}
pub fn lwe_of(w: &[u64]) -> LWECiphertext {
    let mut c = LWECiphertext::allocate(concrete_core::prelude::LweSize(w.len()));
    c.fill_with_tensor(&Tensor::from_container(w.to_vec()));
    c
}

pub fn c18() {
    match choose(4) {
        0 => {
            scenario("RLWE: raw, encoded, constant and ternary encryption, every key");
            let n = pick(by_tier(&[8usize, 16, 64, 512, 2048][..], &[8, 16, 64, 128, 512, 1024, 2048, 4096][..]));
            let s = keys(n, if n == 8 { 256 } else if n > 64 { by_tier(1, 4) } else { 6 });
            let s = if n > 64 && s.iter().all(|x| *x == 0) { pattern(n, 2, 77) } else { s };
            let sk = key(&s);
            note(|| format!("N={n} key={s:?}"));
            for t in [2u64, 4, 16, 256, 1 << 12, 1 << 40] {
                let mut ctx = cfg(n, 5, 9, 5, 11, 5, 11, t).ctx();
                for m in messages(n, t) {
                    let mut c = ct_of(&words(2 * n, 99)); // previous contents must not matter
                    must("encode_encrypt_rlwe", || sk.encode_encrypt_rlwe(&mut c, &pt(&m), &mut ctx));
                    let mut o = pt(&words(n, 5));
                    must("decrypt_decode_rlwe", || sk.decrypt_decode_rlwe(&mut o, &c, &ctx));
                    ensure!(vals(&o) == m, "key {s:?} t={t}: {m:?} decrypts to {:?}", vals(&o));
                    let e = maxerr(&phase(&s, &c), &enc_of(&m, t)) as f64;
                    ensure!(e <= FRESH, "key {s:?} t={t}: the encryption of {m:?} has error 2^{}", e.log2());
                    step();
                }
                state(&(n, &s, t));
            }
            let mut ctx = cfg(n, 5, 9, 5, 11, 5, 11, 256).ctx();
            let mut raws = vec![vec![0; n], vec![u64::MAX; n], vec![1 << 63; n], words(n, 1), words(n, 2)];
            raws.extend((0..n.min(16)).map(|i| unit(n, i, 1 << 62)));
            for m in raws {
                let mut c = ct_of(&words(2 * n, 98));
                must("encrypt_rlwe", || sk.encrypt_rlwe(&mut c, &pt(&m), ctx.std, &mut ctx.encryption_generator));
                ensure!(phase_by(&sk, &c) == phase(&s, &c), "key {s:?}: decrypt_rlwe differs from body - mask*key");
                let e = maxerr(&phase(&s, &c), &m) as f64;
                ensure!(e <= FRESH, "key {s:?}: raw message {m:?} decrypts with error 2^{}", e.log2());
                let mut c = ct_of(&words(2 * n, 97));
                must("encrypt_constant_rlwe", || sk.encrypt_constant_rlwe(&mut c, &Plaintext(m[0]), &mut ctx));
                let e = maxerr(&phase_by(&sk, &c), &unit(n, 0, m[0])) as f64;
                ensure!(e <= FRESH, "key {s:?}: constant {} decrypts with error 2^{}", m[0], e.log2());
                steps(2);
            }
            for p in 0..6u64 {
                let m: Vec<u64> = match p {
                    0 => vec![0; n],
                    1 => vec![1; n],
                    2 => vec![u64::MAX; n],
                    p => pattern(n, 3, p).iter().map(|x| if *x == 2 { u64::MAX } else { *x }).collect(),
                };
                let mut c = ct_of(&words(2 * n, 96));
                must("ternary_encrypt_rlwe", || sk.ternary_encrypt_rlwe(&mut c, &pt(&m), &mut ctx));
                let mut o = pt(&words(n, 6));
                must("ternary_decrypt_rlwe", || sk.ternary_decrypt_rlwe(&mut o, &c));
                ensure!(vals(&o) == m, "key {s:?}: ternary {m:?} decrypts to {:?}", vals(&o));
                let want: Vec<u64> = m.iter().map(|x| { let mut y = *x; Codec::ternary_encode(&mut y); y }).collect();
                let e = maxerr(&phase(&s, &c), &want) as f64;
                ensure!(e <= FRESH, "key {s:?}: ternary encryption error 2^{}", e.log2());
                step();
            }
        }
        1 => {
            scenario("LWE encryption under generated keys");
            let n = pick(&[1usize, 2, 8, 64]);
            let t = pick(&[2u64, 16, 256, 1 << 20]);
            let mut ctx = cfg(n.max(8), 5, 9, 5, 11, 5, 11, t).ctx();
            note(|| format!("dimension {n} t={t}"));
            for k in 0..by_tier(8, 40) {
                let sk = LWESecretKey::generate_binary(concrete_core::prelude::LweDimension(n), &mut ctx.secret_generator);
                ensure!(sk.key_size().0 == n, "key_size() is {}", sk.key_size().0);
                let s = key_words(&sk.to_rlwe_sk());
                ensure!(s.len() == n && s.iter().all(|x| *x < 2), "LWE key {s:?} is not binary");
                for m in (0..t.min(20)).chain(t - t.min(20)..t) {
                    let mut c = lwe_of(&words(n + 1, 4));
                    must("encode_encrypt_lwe", || sk.encode_encrypt_lwe(&mut c, &Plaintext(m), &mut ctx));
                    let mut o = Plaintext(17);
                    must("decode_decrypt_lwe", || sk.decode_decrypt_lwe(&mut o, &c, &ctx));
                    ensure!(o.0 == m, "LWE dimension {n} t={t}: {m} decrypts to {}", o.0);
                    let e = (lwe_phase(&c, &s).wrapping_sub(m.wrapping_mul(delta(t))) as i64).unsigned_abs() as f64;
                    ensure!(e <= FRESH, "LWE error 2^{}", e.log2());
                    step();
                }
                for m in words(8, k as u64) {
                    let mut c = lwe_of(&words(n + 1, 4));
                    must("encrypt_lwe", || sk.encrypt_lwe(&mut c, &Plaintext(m), ctx.std, &mut ctx.encryption_generator));
                    let mut o = Plaintext(3);
                    must("decrypt_lwe", || sk.decrypt_lwe(&mut o, &c));
                    ensure!(o.0 == lwe_phase(&c, &s), "decrypt_lwe differs from body - <mask, key>");
                    let e = (o.0.wrapping_sub(m) as i64).unsigned_abs() as f64;
                    ensure!(e <= FRESH, "LWE raw error 2^{}", e.log2());
                    ensure!(c.lwe_size().0 == n + 1 && c.get_body().0 == c.as_tensor().as_slice()[n], "LWE layout");
                    let mut z = c.clone();
                    z.clear();
                    ensure!(z.as_tensor().as_slice().iter().all(|x| *x == 0), "LWE clear");
                    step();
                }
                state(&(n, t, k));
            }
        }
        2 => {
            scenario("sample extraction of every coefficient, exactly");
            let n = pick(by_tier(&[2usize, 8, 16, 32, 1024, 2048][..], &[2, 4, 8, 16, 32, 64, 256, 1024, 2048, 4096][..]));
            let mut ctx = cfg(n.max(8), 5, 9, 5, 11, 5, 11, 256).ctx();
            note(|| format!("N={n}"));
            for k in 0..if n > 64 { 4 } else { by_tier(16u64, 60) } {
                let sk = LWESecretKey::generate_binary(concrete_core::prelude::LweDimension(n), &mut ctx.secret_generator);
                let rsk = sk.to_rlwe_sk();
                let s = key_words(&rsk);
                let c = if k % 2 == 0 {
                    ct_of(&words(2 * n, k + 1))
                } else {
                    let mut c = RLWECiphertext::allocate(PolynomialSize(n));
                    rsk.encrypt_rlwe(&mut c, &pt(&words(n, k)), ctx.std, &mut ctx.encryption_generator);
                    c
                };
                let ph = phase(&s, &c);
                for j in 0..n {
                    let mut l = lwe_of(&words(n + 1, 8));
                    must("fill_with_sample_extract", || l.fill_with_sample_extract(&c, MonomialDegree(j)));
                    let mut o = Plaintext(0);
                    sk.decrypt_lwe(&mut o, &l);
                    ensure!(o.0 == ph[j], "N={n}: extracting coefficient {j} gives {:#x}, the ciphertext holds {:#x} (key {s:?})", o.0, ph[j]);
                    step();
                }
                let mut l = lwe_of(&words(n + 1, 9));
                must("fill_with_const_sample_extract", || l.fill_with_const_sample_extract(&c));
                let mut o = Plaintext(0);
                sk.decrypt_lwe(&mut o, &l);
                ensure!(o.0 == ph[0], "N={n}: constant extraction gives {:#x}, must be {:#x}", o.0, ph[0]);
                state(&(n, k));
            }
        }
        _ => {
            scenario("LWE to RLWE conversion");
            lwe_conversion();
        }
    }
}
pub fn lwe_conversion() {
    let n = pick(by_tier(&[8usize, 16, 1024][..], &[8, 16, 32, 64, 1024, 2048][..]));
    let c = if n >= 1024 {
        // (a key of this size takes seconds)
        let (kb, kl) = pick(by_tier(&[(18usize, 2usize)][..], &[(18, 2), (26, 1)][..]));
        cfg(n, 5, 9, kb, kl, 6, 9, 4)
    } else {
        let (kb, kl) = pick(&[(5usize, 11usize), (4, 4), (7, 5), (3, 20), (20, 2), (10, 1), (1, 30), (12, 5)]);
        cfg(n, pick(&[5usize, 8]), pick(&[9usize, 3]), kb, kl, 6, 9, 4)
    };
    let (kb, kl) = (c.kb, c.kl);
    let mut ctx = c.ctx();
    note(|| format!("{c:?}"));
    // l digits of at most 2^(kb-1) per mask coefficient, each times a row error, and rounding
    let bound = FRESH + n as f64 * (kl as f64 * (kb as f64 - 1.0).exp2() * FRESH + (63.0 - (kb * kl) as f64).exp2());
    for k in 0..if n >= 1024 { 1 } else { by_tier(3u64, 12) } {
        let sk = must("gen_lwe_sk", || ctx.gen_lwe_sk());
        let rsk = sk.to_rlwe_sk();
        let s = key_words(&rsk);
        let mut ksk = LWEtoRLWEKeyswitchKey::allocate(&ctx);
        must("fill_with_keyswitching_key", || ksk.fill_with_keyswitching_key(&sk, &mut ctx));
        for m in [0u64, 1 << 62, 1 << 63, 3 << 62, 12345 << 40].into_iter().chain(words(3, k)).skip(if n >= 1024 { 7 } else { 0 }) {
            for raw in 0..5u64 {
                let l = if raw > 0 {
                    // arbitrary; every power of two; small elements; elements with a few top bits
                    let mut w = words(n + 1, m ^ k);
                    match raw {
                        1 => {}
                        2 => (0..n).for_each(|i| w[i] = 1 << ((i as u64 * 7 + m + k) % 64)),
                        3 => (0..n).for_each(|i| w[i] >>= 20 + i % 40),
                        _ => (0..n).for_each(|i| w[i] = if i % 3 == 0 { 0 } else { w[i] << (20 + i % 44) }),
                    }
                    lwe_of(&w)
                } else {
                    let mut l = LWECiphertext::allocate(ctx.lwe_size());
                    sk.encrypt_lwe(&mut l, &Plaintext(m), ctx.std, &mut ctx.encryption_generator);
                    l
                };
                let want = unit(n, 0, lwe_phase(&l, &s));
                let r = must("conv_lwe_to_rlwe", || conv_lwe_to_rlwe(&ksk, &l, &ctx));
                let got = phase(&s, &r);
                let e = maxerr(&got, &want) as f64;
                ensure!(e <= bound, "{c:?}: the converted ciphertext has error 2^{:.1}, the worst case is 2^{:.1}", e.log2(), bound.log2());
                step();
                state(&(c, k, m, raw));
            }
        }
    }
}
pub fn c18_bounds() -> String {
    format!("N=8 with all 256 binary keys and N 16, 64, 512, 2048{} with patterned keys; moduli 2..2^40; unit, constant and patterned messages; LWE dimensions 1, 2, 8, 64; extraction of every coefficient of arbitrary and encrypted ciphertexts in rings up to {}; LWE to RLWE with eight key-switching decompositions, and in the ring of 1024{}", by_tier("", ", 128, 1024, 4096"), by_tier(2048, 4096), by_tier("", " and 2048"))
}

// ---------------------------------------------------------------- C19
const NOPS: usize = 18;
pub fn c19() {
    match choose(4) {
        3 => structured(),
        0 => {
            scenario("every sequence of operations");
            let n = pick(by_tier(&[8usize][..], &[8, 16][..]));
            let seed = choose(2) as u64;
            let depth = by_tier(3, 4);
            let s = pattern(n, 2, 3 + seed);
            let mut c = ct_of(&words(2 * n, seed + 1));
            let (mut a, mut b) = (mask_of(&c), body_of(&c));
            let small: Vec<u64> = pattern(n, 7, seed + 2).iter().map(|x| x.wrapping_sub(3)).collect();
            for d in 0..depth {
                let o = ct_of(&words(2 * n, seed + 50 + d as u64));
                let (oa, ob) = (mask_of(&o), body_of(&o));
                let op = choose(NOPS);
                note(|| format!("operation {op}"));
                let mut tol = 0.0;
                let p = poly(&oa);
                let mut w = words(n, seed + 200 + d as u64);
                match op {
                    0 => { must("update_with_add", || c.update_with_add(&o)); a = padd(&a, &oa); b = padd(&b, &ob); }
                    1 => { must("update_with_sub", || c.update_with_sub(&o)); a = psub(&a, &oa); b = psub(&b, &ob); }
                    2 => { must("update_mask_with_add", || c.update_mask_with_add(&p)); a = padd(&a, &oa); }
                    3 => { must("update_mask_with_sub", || c.update_mask_with_sub(&p.as_view())); a = psub(&a, &oa); }
                    4 => { must("update_body_with_add", || c.update_body_with_add(&p)); b = padd(&b, &oa); }
                    5 => { must("update_body_with_sub", || c.update_body_with_sub(&p.as_view())); b = psub(&b, &oa); }
                    6 => { let q = Polynomial::from_container(&mut w[..]); must("update_mask_with_mul", || c.update_mask_with_mul(&q)); a = pmul(&a, q.as_tensor().as_slice()); }
                    7 => { let q = Polynomial::from_container(&mut w[..]); must("update_body_with_mul", || c.update_body_with_mul(&q)); b = pmul(&b, q.as_tensor().as_slice()); }
                    8 | 9 => { // divide by a monomial
                        let m = if op == 8 { 1 + d } else { 2 * n - 1 - 3 * d };
                        must("update_with_monomial_div", || c.update_with_monomial_div(MonomialDegree(m)));
                        a = pmono(&a, -(m as i64)); b = pmono(&b, -(m as i64));
                    }
                    10 => { must("not_in_place", || c.not_in_place()); a = pneg(&a); b = pneg(&b); b[0] = b[0].wrapping_add(1 << 63); }
                    11 => {
                        let before = (mask_of(&c), body_of(&c));
                        let r = must("not", || c.not());
                        ensure!((mask_of(&c), body_of(&c)) == before, "not() changed its operand");
                        c = r; a = pneg(&a); b = pneg(&b); b[0] = b[0].wrapping_add(1 << 63);
                    }
                    12 => { must("clear", || c.clear()); a = vec![0; n]; b = vec![0; n]; }
                    13 => { must("fill_with_copy", || c.fill_with_copy(&o)); a = oa.clone(); b = ob.clone(); }
                    14 => { let q = poly(&small); must("update_mask_with_mul_with_buf", || c.update_mask_with_mul_with_buf(&q.as_view())); a = pmul(&a, &small); tol = fft_err(n, 1, 2.0); }
                    15 => { let q = poly(&small); must("update_body_with_mul_with_buf", || c.update_body_with_mul_with_buf(&q.as_view())); b = pmul(&b, &small); tol = fft_err(n, 1, 2.0); }
                    16 => { let r = c.clone(); must("clear", || c.clear()); must("update_with_sub", || c.update_with_sub(&r)); a = pneg(&a); b = pneg(&b); }
                    _ => { let r = c.clone(); must("update_with_add", || c.update_with_add(&r)); a = padd(&a, &a); b = padd(&b, &b); }
                }
                step();
                let (ga, gb) = (mask_of(&c), body_of(&c));
                let e = maxerr(&ga, &a).max(maxerr(&gb, &b)) as f64;
                ensure!(e <= tol, "operation {op} after {:?}: mask {ga:?} body {gb:?}, must be {a:?} {b:?}{}", chosen(), if tol > 0.0 { " (up to rounding)" } else { "" });
                ensure!(c.polynomial_size().0 == n, "polynomial size changed");
                // the other operand is untouched, decryption follows
                ensure!(mask_of(&o) == oa && body_of(&o) == ob, "operation {op} changed its other operand");
                ensure!(phase_by(&key(&s), &c) == psub(&gb, &pmul(&ga, &s)), "decryption after operation {op}");
                a = ga;
                b = gb;
            }
            state(&chosen());
        }
        1 => {
            scenario("division by every monomial, products with every monomial and arbitrary polynomials");
            let n = pick(by_tier(&[8usize, 16, 32, 512, 2048][..], &[8, 16, 32, 64, 128, 512, 1024, 2048][..]));
            let i = if n > 128 { pick(by_tier(&[0, 1, n - 1][..], &[0, 1, 2, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1][..])) } else { choose(n) };
            note(|| format!("N={n} exponent {i}"));
            let c0 = ct_of(&words(2 * n, 31));
            let s = pattern(n, 2, 7);
            let ph = phase(&s, &c0);
            for i in [i, n + i, 2 * n + i, 3 * n + i, 4 * n + i, (1 << 20) * n + i] {
                let mut c = c0.clone();
                must("update_with_monomial_div", || c.update_with_monomial_div(MonomialDegree(i)));
                ensure!(phase(&s, &c) == pmono(&ph, -((i % (2 * n)) as i64)), "N={n}: dividing by X^{i}");
                step();
            }
            for sign in [1u64, u64::MAX] {
                for kind in 0..2 {
                    let p = if kind == 0 { unit(n, i, sign) } else { pscale(&words(n, i as u64), sign) };
                    let (mut p1, mut p2) = (p.clone(), p.clone());
                    let mut c = c0.clone();
                    must("update_mask_with_mul", || c.update_mask_with_mul(&Polynomial::from_container(&mut p1[..])));
                    must("update_body_with_mul", || c.update_body_with_mul(&Polynomial::from_container(&mut p2[..])));
                    ensure!(p1 == p && p2 == p, "the multiplier was changed");
                    ensure!(phase(&s, &c) == pmul(&ph, &p), "N={n}: multiplying mask and body by {p:?}");
                    let mut o = poly(&words(n, 3));
                    let before = o.as_tensor().as_slice().to_vec();
                    must("naive_update_with_mul_acc", || naive_update_with_mul_acc(&mut o, &poly(&ph), &poly(&p)));
                    ensure!(o.as_tensor().as_slice() == padd(&before, &pmul(&ph, &p)), "naive_update_with_mul_acc");
                    let mut o = poly(&ph);
                    must("naive_update_with_mul", || naive_update_with_mul(&mut o, &poly(&p)));
                    ensure!(o.as_tensor().as_slice() == pmul(&ph, &p), "naive_update_with_mul");
                    steps(4);
                }
                // FFT products with integer polynomials of growing coefficients
                for lg in [0usize, 3, 8, 16] {
                    let p: Vec<u64> = if lg == 0 { unit(n, i, sign) } else { pattern(n, 2 << lg, i as u64).iter().map(|x| x.wrapping_sub(1 << lg).wrapping_mul(sign)).collect() };
                    let mut c = c0.clone();
                    must("update_mask_with_mul_with_buf", || c.update_mask_with_mul_with_buf(&poly(&p).as_view()));
                    must("update_body_with_mul_with_buf", || c.update_body_with_mul_with_buf(&poly(&p).as_view()));
                    let e = maxerr(&mask_of(&c), &pmul(&mask_of(&c0), &p)).max(maxerr(&body_of(&c), &pmul(&body_of(&c0), &p))) as f64;
                    ensure!(e <= fft_err(n, 1, lg as f64), "N={n}: FFT product with {p:?} is off by 2^{:.1}, rounding allows 2^{:.1}", e.log2(), fft_err(n, 1, lg as f64).log2());
                    steps(2);
                }
            }
            state(&(n, i));
        }
        _ => {
            scenario("RGSW addition, negated bits, copies");
            let n = pick(&[8usize, 16]);
            let (b, l) = pick(&[(5usize, 9usize), (4, 4), (7, 3), (10, 1), (2, 6)]);
            let m1 = choose(3) as u64;
            let m2 = choose(3) as u64;
            let mut ctx = cfg(n, b, l, 5, 11, 5, 11, 2).ctx();
            let s = pattern(n, 2, m1 + 3 * m2 + 1);
            let sk = key(&s);
            note(|| format!("N={n} base 2^{b} levels {l} messages {m1} {m2}"));
            let enc = |m: u64, ctx: &mut Context| {
                let mut g = RGSWCiphertext::allocate(PolynomialSize(n), DecompositionBaseLog(b), DecompositionLevelCount(l));
                sk.encrypt_constant_rgsw(&mut g, &Plaintext(m), ctx);
                g
            };
            let g1 = enc(m1, &mut ctx);
            let g2 = enc(m2, &mut ctx);
            let mut g = g1.clone();
            must("RGSW update_with_add", || g.update_with_add(&g2));
            ensure!(g.ciphertext_count().0 == 2 * l, "{} rows", g.ciphertext_count().0);
            for r in 0..2 * l {
                let (x, y, z) = (g1.get_nth_row(r), g2.get_nth_row(r), g.get_nth_row(r));
                ensure!(mask_of(&z) == padd(&mask_of(&x), &mask_of(&y)) && body_of(&z) == padd(&body_of(&x), &body_of(&y)), "RGSW addition, row {r}");
                step();
            }
            let lr = g.get_last_row();
            let nr = g.get_nth_row(2 * l - 1);
            ensure!(mask_of(&lr) == mask_of(&nr) && body_of(&lr) == body_of(&nr), "get_last_row");
            // NOT of an encrypted bit
            for bit in [0u64, 1] {
                let mut c = RLWECiphertext::allocate(PolynomialSize(n));
                let mut v = vec![0; n];
                v[0] = bit;
                sk.encode_encrypt_rlwe(&mut c, &pt(&v), &mut ctx);
                let r = must("not", || c.not());
                v[0] = 1 - bit;
                ensure!(decode(&sk, &r, &ctx) == v, "NOT of {bit} decrypts to {:?}", decode(&sk, &r, &ctx));
                must("not_in_place", || c.not_in_place());
                ensure!(mask_of(&c) == mask_of(&r) && body_of(&c) == body_of(&r), "not() and not_in_place() differ");
                step();
            }
            state(&(n, b, l, m1, m2));
        }
    }
}
/// Words of special shape: constant, a single coefficient, ramps, arbitrary.
fn shapes(n: usize) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = [0, 1, 2, u64::MAX, 1 << 63, (1 << 63) - 1, (1 << 62) + 1, 3 << 61, 0x5555_5555_5555_5555].iter().map(|x| vec![*x; n]).collect();
    for (i, x) in [(0, 1), (n - 1, u64::MAX), (n / 2, 1 << 63), (1 % n, (1 << 62) + 12345)] {
        v.push(unit(n, i, x));
    }
    v.push((0..n as u64).collect());
    v.push((0..n as u64).map(|i| i.wrapping_neg() << 40).collect());
    v.push((0..n).map(|i| if i % 2 == 0 { 1 << 63 } else { u64::MAX }).collect());
    v.push(words(n, 71));
    v
}
fn structured() {
    scenario("operands of special shape in every ring");
    let n = pick(by_tier(&[2usize, 8, 64, 512, 1024, 2048, 4096][..], &[2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192][..]));
    let v = shapes(n);
    let i = choose(v.len());
    note(|| format!("N={n} shape {i}"));
    let a0 = v[i].clone();
    for (j, o) in v.iter().enumerate() {
        let b0 = &v[(i + 2 * j) % v.len()];
        let c0 = ct_of(&[a0.clone(), b0.clone()].concat());
        let (p, q) = (o, &v[(j + 1) % v.len()]);
        let oc = ct_of(&[p.clone(), q.clone()].concat());
        let is = |what: &str, c: &RLWECiphertext, a: &[u64], b: &[u64]| {
            ensure!(mask_of(c) == a && body_of(c) == b, "N={n}: {what}, shape {i}, operand {j} (mask {:x?}.., body {:x?}.., operand {:x?}..)", &a0[..2], &b0[..2], &p[..2]);
            ensure!(c.polynomial_size().0 == n, "N={n}: {what} changed the polynomial size");
            step();
        };
        let run = |what: &str, f: &dyn Fn(&mut RLWECiphertext)| {
            let mut c = c0.clone();
            must(what, || f(&mut c));
            c
        };
        let pp = poly(p);
        is("update_with_add", &run("update_with_add", &|c| c.update_with_add(&oc)), &padd(&a0, p), &padd(b0, q));
        is("update_with_sub", &run("update_with_sub", &|c| c.update_with_sub(&oc)), &psub(&a0, p), &psub(b0, q));
        is("update_mask_with_add", &run("update_mask_with_add", &|c| c.update_mask_with_add(&pp)), &padd(&a0, p), b0);
        is("update_mask_with_sub", &run("update_mask_with_sub", &|c| c.update_mask_with_sub(&pp.as_view())), &psub(&a0, p), b0);
        is("update_body_with_add", &run("update_body_with_add", &|c| c.update_body_with_add(&pp)), &a0, &padd(b0, p));
        is("update_body_with_sub", &run("update_body_with_sub", &|c| c.update_body_with_sub(&pp.as_view())), &a0, &psub(b0, p));
        is("fill_with_copy", &run("fill_with_copy", &|c| c.fill_with_copy(&oc)), p, q);
        ensure!(mask_of(&oc) == *p && body_of(&oc) == *q, "N={n}: an operation changed its other operand");
        let one = |x: Vec<u64>| { let mut x = x; x[0] = x[0].wrapping_add(1 << 63); x };
        let want = (pneg(&a0), one(pneg(b0)));
        is("not", &must("not", || c0.not()), &want.0, &want.1);
        is("not_in_place", &run("not_in_place", &|c| c.not_in_place()), &want.0, &want.1);
        is("clear", &run("clear", &|c| c.clear()), &vec![0; n], &vec![0; n]);
        is("the ciphertext itself", &c0, &a0, b0);
        for m in [0, 1, n / 2, n - 1, n, n + 1, 2 * n - 1, 2 * n] {
            if j < 2 {
                is(&format!("division by X^{m}"), &run("update_with_monomial_div", &|c| c.update_with_monomial_div(MonomialDegree(m))), &pmono(&a0, -((m % (2 * n)) as i64)), &pmono(b0, -((m % (2 * n)) as i64)));
            }
        }
        // exact products: all pairs in small rings, one per shape in large ones
        if n <= 64 || j == 0 {
            let o = if n <= 64 { p } else { &v[(i + 9) % v.len()] };
            let mul = |mask: bool| {
                let mut w = o.clone();
                let mut c = c0.clone();
                must("multiplication", || {
                    let q = Polynomial::from_container(&mut w[..]);
                    if mask { c.update_mask_with_mul(&q) } else { c.update_body_with_mul(&q) }
                });
                c
            };
            is("update_mask_with_mul", &mul(true), &pmul(&a0, o), b0);
            is("update_body_with_mul", &mul(false), &a0, &pmul(b0, o));
        }
        // transform-based products with small integer polynomials
        if n >= 8 && j < 6 {
            let small: Vec<u64> = match j {
                0 => vec![0; n],
                1 => vec![1; n],
                2 => vec![u64::MAX; n],
                3 => unit(n, n - 1, u64::MAX),
                4 => unit(n, 0, 1),
                _ => pattern(n, 3, 5).iter().map(|x| x.wrapping_sub(1)).collect(),
            };
            // constant operands make the rounding errors add up
            let tol = fft_err(n, 1, 0.0).max(n as f64 * 8192.0);
            let sp = poly(&small);
            let c = run("update_mask_with_mul_with_buf", &|c| c.update_mask_with_mul_with_buf(&sp.as_view()));
            let e = maxerr(&mask_of(&c), &pmul(&a0, &small)) as f64;
            ensure!(e <= tol && body_of(&c) == *b0, "N={n}: FFT product of the mask, shape {i}, multiplier {j}: error 2^{:.1}, rounding allows 2^{:.1}", e.log2(), tol.log2());
            let c = run("update_body_with_mul_with_buf", &|c| c.update_body_with_mul_with_buf(&sp.as_view()));
            let e = maxerr(&body_of(&c), &pmul(b0, &small)) as f64;
            ensure!(e <= tol && mask_of(&c) == a0, "N={n}: FFT product of the body, shape {i}, multiplier {j}: error 2^{:.1}, rounding allows 2^{:.1}", e.log2(), tol.log2());
            steps(2);
        }
    }
    state(&(n, i));
}
pub fn c19_bounds() -> String {
    format!("all sequences of {} of {NOPS} operations on arbitrary ciphertexts (N=8{}), compared word by word with exact arithmetic modulo X^N+1 and 2^64 (FFT products within the rounding bound); every monomial for N up to {}; every operation on 17 shapes of mask, body and operand (constant, single coefficient, ramp, alternating, arbitrary) in rings 2 to {}", by_tier(3, 4), by_tier("", ", 16"), by_tier(32, 128), by_tier(4096, 8192))
}
