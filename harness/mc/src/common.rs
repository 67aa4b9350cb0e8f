//! Parameters, plaintext helpers, exact ring arithmetic and the worst-case error calculus.
pub use concrete_core::commons::crypto::encoding::{Plaintext, PlaintextList};
pub use concrete_core::commons::math::polynomial::Polynomial;
pub use concrete_core::commons::math::tensor::{
    AsMutSlice, AsMutTensor, AsRefSlice, AsRefTensor, Tensor,
};
pub use concrete_core::prelude::{
    DecompositionBaseLog, DecompositionLevelCount, LogStandardDev, MonomialDegree, PolynomialSize,
};
pub use engine::*;
pub use panacea::context::{Context, FftBuffer};
pub use panacea::naive_hash::NaiveHash;
pub use panacea::params::TFHEParameters;
pub use panacea::rgsw::RGSWCiphertext;
pub use panacea::rlwe::{RLWECiphertext, RLWESecretKey};
use std::cell::RefCell;
use std::rc::Rc;

pub type Pt = PlaintextList<Vec<u64>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub n: usize,
    pub b: usize,
    pub l: usize,
    pub kb: usize,
    pub kl: usize,
    pub nb: usize,
    pub nl: usize,
    pub t: u64,
}
impl Cfg {
    pub fn params(&self) -> TFHEParameters {
        TFHEParameters {
            standard_deviation: -55.0,
            polynomial_size: self.n,
            base_log: self.b,
            level_count: self.l,
            key_switch_base_log: self.kb,
            key_switch_level_count: self.kl,
            negs_base_log: self.nb,
            negs_level_count: self.nl,
            plaintext_modulus: self.t,
            secure_seed: false,
        }
    }
    pub fn ctx(&self) -> Context {
        Context::new(self.params())
    }
}
pub const fn cfg(n: usize, b: usize, l: usize, kb: usize, kl: usize, nb: usize, nl: usize, t: u64) -> Cfg {
    Cfg { n, b, l, kb, kl, nb, nl, t }
}

// ---------------------------------------------------------------- plaintexts
pub fn pt(v: &[u64]) -> Pt {
    PlaintextList::from_container(v.to_vec())
}
pub fn vals(p: &Pt) -> Vec<u64> {
    p.as_tensor().as_slice().to_vec()
}
/// Deterministic pseudo-random plaintext (not a random choice: a fixed test vector).
pub fn pattern(n: usize, t: u64, seed: u64) -> Vec<u64> {
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 20) % t
        })
        .collect()
}
pub fn words(n: usize, seed: u64) -> Vec<u64> {
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x.wrapping_mul(0x2545_F491_4F6C_DD1D)
        })
        .collect()
}
pub fn poly(v: &[u64]) -> Polynomial<Vec<u64>> {
    Polynomial::from_container(v.to_vec())
}
pub fn key(v: &[u64]) -> RLWESecretKey {
    let mut sk = RLWESecretKey::zero(PolynomialSize(v.len()));
    sk.fill_with_tensor(&Tensor::from_container(v.to_vec()));
    sk
}
/// The secret key read back through decryption: the ciphertext (X^0, 0) has phase -s.
pub fn key_words(sk: &RLWESecretKey) -> Vec<u64> {
    let n = sk.polynomial_size().0;
    let mut w = vec![0u64; 2 * n];
    w[0] = 1;
    let ct = ct_of(&w);
    phase_by(sk, &ct).iter().map(|x| x.wrapping_neg()).collect()
}
pub fn ct_of(w: &[u64]) -> RLWECiphertext {
    let mut c = RLWECiphertext::allocate(PolynomialSize(w.len() / 2));
    c.fill_with_tensor(&Tensor::from_container(w.to_vec()));
    c
}
pub fn mask_of(c: &RLWECiphertext) -> Vec<u64> {
    c.get_mask().as_tensor().as_slice().to_vec()
}
pub fn body_of(c: &RLWECiphertext) -> Vec<u64> {
    c.get_body().as_tensor().as_slice().to_vec()
}
/// Phase by the library's own decryption.
pub fn phase_by(sk: &RLWESecretKey, c: &RLWECiphertext) -> Vec<u64> {
    let mut p = pt(&vec![0; c.polynomial_size().0]);
    sk.decrypt_rlwe(&mut p, c);
    vals(&p)
}
/// Phase b - a*s computed here, exactly.
pub fn phase(s: &[u64], c: &RLWECiphertext) -> Vec<u64> {
    psub(&body_of(c), &pmul(&mask_of(c), s))
}

// ---------------------------------------------- Z_2^64[X]/(X^N+1), exactly
pub fn padd(a: &[u64], b: &[u64]) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| x.wrapping_add(*y)).collect()
}
pub fn psub(a: &[u64], b: &[u64]) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| x.wrapping_sub(*y)).collect()
}
pub fn pneg(a: &[u64]) -> Vec<u64> {
    a.iter().map(|x| x.wrapping_neg()).collect()
}
pub fn pscale(a: &[u64], c: u64) -> Vec<u64> {
    a.iter().map(|x| x.wrapping_mul(c)).collect()
}
pub fn pmul(a: &[u64], b: &[u64]) -> Vec<u64> {
    let n = a.len();
    let mut o = vec![0u64; n];
    for i in 0..n {
        if b[i] == 0 {
            continue;
        }
        for j in 0..n {
            let p = a[j].wrapping_mul(b[i]);
            let k = i + j;
            if k < n {
                o[k] = o[k].wrapping_add(p);
            } else {
                o[k - n] = o[k - n].wrapping_sub(p);
            }
        }
    }
    o
}
/// X^k * a for any integer exponent.
pub fn pmono(a: &[u64], k: i64) -> Vec<u64> {
    let n = a.len() as i64;
    let mut o = vec![0u64; a.len()];
    for (i, x) in a.iter().enumerate() {
        let e = (i as i64 + k).rem_euclid(2 * n);
        if e < n {
            o[e as usize] = *x;
        } else {
            o[(e - n) as usize] = x.wrapping_neg();
        }
    }
    o
}
/// a(X^k)
pub fn psubst(a: &[u64], k: usize) -> Vec<u64> {
    let n = a.len();
    let mut o = vec![0u64; n];
    for (i, x) in a.iter().enumerate() {
        let e = (i * k) % (2 * n);
        if e < n {
            o[e] = o[e].wrapping_add(*x);
        } else {
            o[e - n] = o[e - n].wrapping_sub(*x);
        }
    }
    o
}
pub fn unit(n: usize, i: usize, v: u64) -> Vec<u64> {
    let mut o = vec![0; n];
    o[i] = v;
    o
}
/// Largest absolute centred difference.
pub fn maxerr(a: &[u64], b: &[u64]) -> u64 {
    a.iter().zip(b).map(|(x, y)| (x.wrapping_sub(*y) as i64).unsigned_abs()).max().unwrap_or(0)
}
pub fn enc_of(v: &[u64], t: u64) -> Vec<u64> {
    let d = delta(t);
    v.iter().map(|x| x.wrapping_mul(d)).collect()
}
pub fn delta(t: u64) -> u64 {
    1u64 << (64 - t.trailing_zeros())
}

// ------------------------------------------------------- worst-case error bounds
/// Largest error of a fresh encryption at standard deviation 2^-55 (12 sigma).
pub const FRESH: f64 = 512.0 * 12.0;
/// Rounding of one FFT product sum: `terms` products of torus polynomials with integer
/// polynomials whose coefficients are at most 2^digit_log (sum of terms*N rounding errors of
/// 2^11 each, far beyond any deviation that occurs).
pub fn fft_err(n: usize, terms: usize, digit_log: f64) -> f64 {
    // (in large rings the roundings of an extreme ciphertext are not independent)
    let aligned = (n as f64 / 64.0).sqrt().max(1.0);
    24.0 * aligned * (terms as f64 * n as f64).sqrt() * digit_log.exp2() * 2f64.powi(64 - 53) + 2.0
}
/// External product by an RGSW (base 2^b, l levels, row error `rows`) of a message with
/// coefficient 1-norm `mnorm`, applied to a ciphertext with error `e_in`.
pub fn ext_err(n: usize, b: usize, l: usize, rows: f64, mnorm: f64, e_in: f64) -> f64 {
    let nf = n as f64;
    let digit = (b as f64 - 1.0).exp2();
    let round = if b * l >= 64 { 0.0 } else { (63.0 - (b * l) as f64).exp2() };
    2.0 * l as f64 * nf * digit * rows
        + mnorm * (e_in + (1.0 + nf) * round)
        + (1.0 + nf).sqrt() * fft_err(n, 2 * l, b as f64 - 1.0)
}
/// Key switch by a key of base 2^b with l levels.
pub fn ks_err(n: usize, b: usize, l: usize, rows: f64, e_in: f64) -> f64 {
    let nf = n as f64;
    let digit = (b as f64 - 1.0).exp2();
    let round = if b * l >= 64 { 0.0 } else { (63.0 - (b * l) as f64).exp2() };
    l as f64 * nf * digit * rows + e_in + nf * round + (1.0 + nf).sqrt() * fft_err(n, l + 2, b as f64 - 1.0)
}
/// Demultiplexing with k RGSW bits.
pub fn demux_err(c: &Cfg, k: usize, e_in: f64) -> f64 {
    // one level: max(left, right) with right = b - left
    let mut e = e_in;
    for _ in 0..k {
        e += ext_err(c.n, c.b, c.l, FRESH, 1.0, e);
    }
    e
}
/// Rows of the RGSW selector the server assembles from demultiplexed rows of error `e`.
pub fn selector_rows(c: &Cfg, e: f64) -> f64 {
    ext_err(c.n, c.nb, c.nl, FRESH, c.n as f64, e).max(e)
}

// ------------------------------------------------------------------ pool and hash control
/// Configure the virtual thread pool for this execution.
pub fn pool(workers: usize, policy: u8, first: usize) {
    vsched::set_order_source(None);
    vsched::set_inline(vsched::Inline { workers, policy, first });
}
/// Build a hash whose shuffle outcome is enumerated: every bounded draw is a choice point.
pub fn enum_hash(h: usize, n: usize) -> NaiveHash {
    // a shuffle that rejects draws must not make the space infinite
    let mut left = 4 * h * n + 8;
    let mut x = 0x9E37_79B9_7F4A_7C15u64;
    rand::mc_hook::reseed(3);
    rand::mc_hook::set(Some(Box::new(move |r| {
        if left == 0 {
            x = x.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(1);
            (x >> 33) % r
        } else if r > 4096 {
            r / 2
        } else {
            left -= (r > 1) as usize;
            choose(r as usize) as u64
        }
    })));
    let r = attempt(|| NaiveHash::new(h, n));
    rand::mc_hook::set(None);
    r.unwrap_or_else(|m| fail(format!("NaiveHash::new({h},{n}): {m}")))
}
/// Build a hash from the given draws (0 when they run out): a reproducible table.
pub fn fixed_hash(h: usize, n: usize, seed: u64) -> NaiveHash {
    rand::mc_hook::reseed(seed);
    rand::mc_hook::set(Some(rand::mc_hook::fixed(seed)));
    let r = attempt(|| NaiveHash::new(h, n));
    rand::mc_hook::set(None);
    r.unwrap_or_else(|m| fail(format!("NaiveHash::new({h},{n}): {m}")))
}
pub fn table(h: &NaiveHash) -> Vec<Vec<usize>> {
    (0..h.input_domain()).map(|x| (0..h.h_count()).map(|k| h.hash(k, x)).collect()).collect()
}
pub fn decode(sk: &RLWESecretKey, c: &RLWECiphertext, ctx: &Context) -> Vec<u64> {
    let mut p = ctx.gen_zero_pt();
    sk.decrypt_decode_rlwe(&mut p, c, ctx);
    vals(&p)
}
