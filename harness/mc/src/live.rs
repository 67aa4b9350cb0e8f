//! C32: nothing grows with use.
use crate::common::*;
use crate::oram::{pat, OpK};
use crate::query::heap;
use panacea::decision_tree::{bit_decomposed_rgsw, compare_expand, demux, demux_with, encrypt_feature_vector, simulate, trunc_tree, EncNode, Node};
use panacea::lwe::{conv_lwe_to_rlwe, LWECiphertext, LWESecretKey, LWEtoRLWEKeyswitchKey};
use panacea::oram::{setup_random_oram, Client, ClientQuery, Server};
use panacea::rgsw::compute_noise_rgsw1;
use panacea::rlwe::*;
use panacea::utils::{parse_csv, pt_to_lossy_u64, transpose};
use std::collections::HashMap;

fn count(dir: &str) -> i64 {
    std::fs::read_dir(dir).map(|d| d.count() as i64).unwrap_or(0)
}
/// Open descriptors and threads of the process.
fn held() -> (i64, i64) {
    (count("/proc/self/fd"), count("/proc/self/task"))
}
/// Growth that is no growth with use: a handful of words in all.
const SLACK: i64 = 64;
/// Repeat `f` and require that the memory in use stays where the first repetitions left it.
fn steady(what: &str, warm: usize, reps: usize, mut f: impl FnMut(usize)) {
    for k in 0..warm {
        f(k);
    }
    let (h0, (fd0, th0)) = (heap(), held());
    for k in 0..reps {
        f(warm + k);
        let grown = heap() - h0;
        // given back memory may be taken again, hence not only at the end
        ensure!(grown <= SLACK, "{what}: after {} repetitions {grown} more bytes are in use than after {warm}", k + 1);
    }
    let (fd, th) = held();
    let many = (reps as i64 / 2).max(20);
    ensure!(fd - fd0 < many, "{what}: {} more descriptors are open after {reps} repetitions", fd - fd0);
    ensure!(th - th0 < many, "{what}: {} more threads run after {reps} repetitions", th - th0);
    steps((warm + reps) as u64);
}

struct Env {
    c: Cfg,
    ctx: Context,
    lsk: LWESecretKey,
    sk: RLWESecretKey,
    other: RLWESecretKey,
    neg: RGSWCiphertext,
    map: HashMap<usize, RLWEKeyswitchKey>,
    fmap: HashMap<usize, FourierRLWEKeyswitchKey>,
    conv: Option<LWEtoRLWEKeyswitchKey>,
    g: RGSWCiphertext,
    buf: FftBuffer,
    x: RLWECiphertext,
    bits: Vec<RGSWCiphertext>,
    tree: Node,
    csv: std::path::PathBuf,
}
impl Env {
    fn new(c: Cfg, csv: std::path::PathBuf) -> Env {
        let mut ctx = c.ctx();
        let lsk = ctx.gen_lwe_sk();
        let sk = lsk.to_rlwe_sk();
        let other = ctx.gen_rlwe_sk();
        let neg = sk.neg_gsw(&mut ctx);
        let map = gen_all_subs_ksk(&sk, &mut ctx);
        let fmap = gen_all_subs_ksk_fourier(&sk, &mut ctx);
        let conv = (c.n <= 128).then(|| {
            let mut k = LWEtoRLWEKeyswitchKey::allocate(&ctx);
            k.fill_with_keyswitching_key(&lsk, &mut ctx);
            k
        });
        let mut g = RGSWCiphertext::allocate(PolynomialSize(c.n), DecompositionBaseLog(c.b), DecompositionLevelCount(c.l));
        sk.encrypt_constant_rgsw(&mut g, &Plaintext(1), &mut ctx);
        let buf = ctx.gen_fft_ctx();
        let mut x = RLWECiphertext::allocate(PolynomialSize(c.n));
        sk.encode_encrypt_rlwe(&mut x, &pt(&pattern(c.n, c.t, 3)), &mut ctx);
        let bits = bit_decomposed_rgsw(2, 4, &sk, &mut ctx);
        let tree = serde_json::from_str(r#"{"internal":{"threshold":2,"feature":0,"index":0,"op":"leq","left":{"internal":{"threshold":1,"feature":1,"index":1,"op":"leq","left":{"leaf":1},"right":null}},"right":{"leaf":5}}}"#).unwrap();
        Env { c, ctx, lsk, sk, other, neg, map, fmap, conv, g, buf, x, bits, tree, csv }
    }
    fn ct(&self) -> RLWECiphertext {
        RLWECiphertext::allocate(PolynomialSize(self.c.n))
    }
    fn ksk(&self) -> RLWEKeyswitchKey {
        RLWEKeyswitchKey::allocate(DecompositionBaseLog(self.c.kb), DecompositionLevelCount(self.c.kl), PolynomialSize(self.c.n))
    }
}
const OPS: [&str; 52] = [
    "encode_encrypt_rlwe", "decrypt_decode_rlwe", "ternary encryption", "encrypt_constant_rlwe", "encrypt_constant_rgsw", "encrypt_rgsw",
    "encrypt_constant_rgsw_vec", "neg_gsw", "external_product", "external_product_with_buf", "cmux", "cmux_with_buf", "keyswitch_ciphertext",
    "Fourier keyswitch_ciphertext", "subs", "Fourier subs", "trace1", "trace1_fourier", "gen_all_subs_ksk", "gen_all_subs_ksk_fourier",
    "expand", "expand_fourier", "expand_slow", "less_eq_than", "eq_to", "not", "update_with_monomial_div", "LWE encryption", "sample extraction",
    "conv_lwe_to_rlwe", "LWE to RLWE key", "demux", "demux_with", "bit_decomposed_rgsw", "encrypt_feature_vector", "encrypted tree evaluation",
    "Node", "compute_noise", "compute_noise_rgsw1", "NaiveHash", "parse_csv", "transpose and packing", "Context::new", "Context::new, secure",
    "plaintext generation", "RGSW key switching", "make_decomposed_rlwe_ct", "key switching key filled again", "Fourier conversions",
    "in-place arithmetic", "a clone of every object", "FftBuffer::new",
];
fn op(e: &mut Env, k: usize, rep: usize) {
    let (n, c) = (e.c.n, e.c);
    let v = rep % 2;
    let msg = pt(&pattern(n, c.t, 4 + v as u64));
    let mut y = e.ct();
    // nothing is used twice: what is remembered of an operand is remembered for good
    e.sk.encode_encrypt_rlwe(&mut e.x, &msg, &mut e.ctx);
    if n <= 64 {
        e.sk.encrypt_constant_rgsw(&mut e.g, &Plaintext(1), &mut e.ctx);
        e.bits = bit_decomposed_rgsw(2, 4, &e.sk, &mut e.ctx);
    }
    match k {
        0 => e.sk.encode_encrypt_rlwe(&mut y, &msg, &mut e.ctx),
        1 => {
            let _ = decode(&e.sk, &e.x, &e.ctx);
            let _ = phase_by(&e.sk, &e.x);
        }
        2 => {
            let mut m = e.ctx.gen_ternary_ptxt();
            e.sk.ternary_encrypt_rlwe(&mut y, &m, &mut e.ctx);
            e.sk.ternary_decrypt_rlwe(&mut m, &y);
        }
        3 => e.sk.encrypt_constant_rlwe(&mut y, &Plaintext(v as u64), &mut e.ctx),
        4 => {
            let mut g = e.g.clone();
            e.sk.encrypt_constant_rgsw(&mut g, &Plaintext(v as u64), &mut e.ctx);
        }
        5 => {
            let mut g = e.g.clone();
            e.sk.encrypt_rgsw(&mut g, &msg, &mut e.ctx);
        }
        6 => drop(e.sk.encrypt_constant_rgsw_vec(&[Plaintext(0), Plaintext(1), Plaintext(v as u64)], &mut e.ctx)),
        7 => drop(e.sk.neg_gsw(&mut e.ctx)),
        8 => e.g.external_product(&mut y, &e.x),
        9 => e.g.external_product_with_buf(&mut y, &e.x, &mut e.buf),
        10 => e.g.cmux(&mut y, &e.x, &e.x),
        11 => e.g.cmux_with_buf(&mut y, &e.x, &e.x, &mut e.buf),
        12 => e.map[&(n + 1)].keyswitch_ciphertext(&mut y, &e.x),
        13 => e.fmap[&(n + 1)].keyswitch_ciphertext(&mut FourierRLWECiphertext::new(n), &e.x),
        14 => e.map[&(n / 2 + 1)].subs(&mut y, &e.x),
        15 => e.fmap[&(n / 2 + 1)].subs(&mut FourierRLWECiphertext::new(n), &e.x),
        16 => drop(e.x.trace1(&e.map)),
        17 => e.x.trace1_fourier(&mut y, &e.fmap),
        18 => drop(gen_all_subs_ksk(&e.sk, &mut e.ctx)),
        19 => drop(gen_all_subs_ksk_fourier(&e.sk, &mut e.ctx)),
        20 => drop(expand(&vec![e.x.clone(); c.l], &e.map, &e.neg, &e.ctx)),
        21 => drop(expand_fourier(&vec![e.x.clone(); c.l], &e.fmap, &e.neg, &e.ctx)),
        22 => {
            if let Some(k) = &e.conv {
                drop(expand_slow(&vec![e.x.clone(); c.l], k, &e.neg, &e.ctx))
            }
        }
        23 => e.x.clone().less_eq_than(1 + v),
        24 => e.x.clone().eq_to(v),
        25 => {
            let mut z = e.x.not();
            z.not_in_place();
        }
        26 => e.x.clone().update_with_monomial_div(MonomialDegree(1 + v)),
        27 => {
            let mut l = LWECiphertext::allocate(e.ctx.lwe_size());
            let mut p = Plaintext(v as u64);
            e.lsk.encode_encrypt_lwe(&mut l, &p, &mut e.ctx);
            e.lsk.decode_decrypt_lwe(&mut p, &l, &e.ctx);
        }
        28 => {
            let mut l = LWECiphertext::allocate(e.ctx.lwe_size());
            l.fill_with_sample_extract(&e.x, MonomialDegree(v));
            l.fill_with_const_sample_extract(&e.x);
        }
        29 => {
            if let Some(k) = &e.conv {
                let mut l = LWECiphertext::allocate(e.ctx.lwe_size());
                l.fill_with_const_sample_extract(&e.x);
                drop(conv_lwe_to_rlwe(k, &l, &e.ctx));
            }
        }
        30 => {
            if n <= 128 {
                let mut k = LWEtoRLWEKeyswitchKey::allocate(&e.ctx);
                k.fill_with_keyswitching_key(&e.lsk, &mut e.ctx);
            }
        }
        31 => drop(demux(&e.bits, &e.ctx, &mut e.buf)),
        32 => drop(demux_with(e.x.clone(), &e.bits, &e.ctx, &mut e.buf)),
        33 => drop(bit_decomposed_rgsw(v, 8, &e.sk, &mut e.ctx)),
        34 => drop(encrypt_feature_vector(&e.sk, &vec![v, 2, 3], &mut e.ctx)),
        35 => {
            let cts = encrypt_feature_vector(&e.sk, &vec![1 + v, 2], &mut e.ctx);
            let flat = e.tree.flatten();
            let root = {
                let mut it = compare_expand(&flat, &cts, &e.neg, &e.fmap, &e.ctx);
                EncNode::new(&e.tree, &mut it)
            };
            drop(root.eval(&e.ctx, &mut e.buf));
        }
        36 => {
            let mut t = e.tree.clone();
            t.fix_index();
            let s = serde_json::to_string(&t).unwrap();
            let u: Node = serde_json::from_str(&s).unwrap();
            drop(trunc_tree(&Some(u)));
            let _ = (t.eval(&vec![v, 2]), t.count_leaf(), t.count_depth(), t.flatten().len(), Node::new_with_depth(3).count_internal());
        }
        37 => {
            let p = pt(&pattern(n, c.t, 3));
            let _ = compute_noise_encoded(&e.sk, &e.x, &p, &e.ctx.codec);
            let _ = compute_noise(&e.sk, &e.x, &p);
            let _ = compute_noise_ternary(&e.sk, &e.x, &e.ctx.gen_ternary_ptxt());
        }
        38 => drop(compute_noise_rgsw1(&e.sk, &e.g, &e.ctx)),
        39 => {
            let h = fixed_hash(2, 6, v as u64);
            let _ = (attempt(|| h.hash_to_mapping(&[0, 1], 3)), h.clone().hash_to_tuple(1, 2, 3), h.checked_hash(2, 0));
        }
        40 => drop(parse_csv(&e.csv)),
        41 => {
            drop(transpose(vec![vec![e.x.clone(); 3]; 2]));
            let _ = pt_to_lossy_u64(&e.ctx.gen_binary_pt());
        }
        42 => drop(c.ctx()),
        43 => drop(Context::new(TFHEParameters { secure_seed: true, ..c.params() })),
        44 => {
            let x = &mut e.ctx;
            drop((x.gen_binary_pt(), x.gen_pt(), x.gen_demuxed_pt(v), x.gen_unit_pt(), x.gen_zero_pt(), x.gen_rlwe_sk(), x.gen_lwe_sk(), x.to_string()));
            let _ = (x.gen_scalar_binary_pt(), x.gen_scalar_unit_pt(), x.gen_scalar_zero_pt());
        }
        45 => {
            let g = RGSWCiphertext::from_keyswitch_key(&e.map[&(n + 1)]);
            g.keyswitch_ciphertext(&mut y, &e.x);
            let mut b = e.ctx.gen_fft_ctx();
            g.keyswitch_ciphertext_with_buf(&mut y, &e.x, &mut b);
            drop((g.get_last_row(), g.get_nth_row(v)));
        }
        46 => {
            if c.b * c.l + 11 <= 64 {
                drop(make_decomposed_rlwe_ct(&e.sk, v as u64, &mut e.ctx));
            }
            drop(make_decomposed_rlwe_ct2(&e.sk, v as u64, &mut e.ctx));
        }
        47 => {
            let mut k = e.ksk();
            let mut before = RLWESecretKey::zero(PolynomialSize(n));
            for _ in 0..2 {
                k.fill_with_subs_keyswitch_key(&mut before, &e.sk, 3, e.ctx.std, &mut e.ctx.encryption_generator);
                k.fill_with_keyswitch_key(&e.other, &e.sk, e.ctx.std, &mut e.ctx.encryption_generator);
            }
        }
        48 => {
            let f = e.map[&(n + 1)].clone().into_fourier();
            let mut o = FourierRLWECiphertext::new(n);
            f.subs(&mut o, &e.x);
            drop(o.backward_as_torus());
        }
        49 => {
            let mut z = e.x.clone();
            z.update_with_add(&e.x);
            z.update_with_sub(&e.x);
            let p = poly(&pattern(n, 4, 5));
            z.update_mask_with_add(&p);
            z.update_body_with_add(&p);
            z.update_mask_with_sub(&p.as_view());
            z.update_body_with_sub(&p.as_view());
            z.update_mask_with_mul_with_buf(&p.as_view());
            z.update_body_with_mul_with_buf(&p.as_view());
            let mut p = p;
            z.update_mask_with_mul(&p.as_mut_view());
            z.update_body_with_mul(&p.as_mut_view());
            z.clear();
            z.fill_with_copy(&e.x);
            let mut g = e.g.clone();
            g.update_with_add(&e.g);
        }
        50 => drop((e.sk.clone(), e.lsk.clone(), e.neg.clone(), e.map.clone(), e.fmap.clone(), e.conv.clone(), e.x.clone(), e.tree.clone())),
        _ => drop((FftBuffer::new(PolynomialSize(n)), e.ctx.gen_fft_ctx())),
    }
}

/// One call of the server, prepared, answered and forgotten.
fn call(cl: &mut Client, s: &mut Server, hash: &NaiveHash, mode: usize, k: usize, n: usize) {
    let items = hash.input_domain();
    let d = if k % 4 < 2 { pt(&vec![(k / 4 % 2) as u64; n]) } else { pt(&pat(n, 2, 1 + k % 3)) };
    let one = |cl: &mut Client, k: usize| -> ClientQuery {
        let i = k / 2 % items;
        if k % 2 == 0 { cl.gen_read_query_one(i, hash) } else { cl.gen_write_query_one(i, &d, hash) }
    };
    match mode {
        0 => {
            let q = one(cl, k);
            drop(s.process_one(q));
        }
        1 => {
            let qs = (0..k % 4).map(|j| one(cl, k + j)).collect();
            drop(s.process_multi(qs));
        }
        2 => {
            let list = [k % items];
            let qs = if k % 2 == 0 { cl.gen_read_query_batch(&list, hash) } else { cl.gen_write_query_batch(&list, &d, hash) };
            drop(s.process_batch(qs, hash));
        }
        3 => drop(s.decrypt_db(&cl.sk)),
        4 => {
            // prepared and never sent
            drop((one(cl, k), cl.gen_read_query_batch(&[k % items], hash), cl.gen_write_query_batch(&[k % items], &d, hash), cl.gen_neg_sk()));
        }
        _ => call(cl, s, hash, [0, 2, 1][k / 2 % 3], k, n),
    }
}

pub fn c32() {
    match choose(6) {
        5 => {
            scenario("two settings in turn");
            let all = [cfg(8, 9, 4, 5, 11, 5, 11, 2), cfg(16, 4, 10, 7, 8, 5, 11, 4), cfg(8, 5, 9, 4, 12, 6, 9, 16), cfg(32, 9, 4, 5, 11, 5, 11, 2)];
            let (i, j) = pick(&[(0usize, 1usize), (0, 2), (1, 3), (0, 3)]);
            let k = choose(OPS.len() + 6);
            if k == 40 {
                skip();
            }
            pool(1 + k % 3, 0, 0);
            let reps = by_tier(24, 120);
            if k < OPS.len() {
                note(|| format!("{:?} and {:?}: {}", all[i], all[j], OPS[k]));
                let mut es = [i, j].map(|x| must("set-up", || Env::new(all[x], "/nonexistent/x.csv".into())));
                steady(&format!("{} in the rings of {} and {} in turn", OPS[k], all[i].n, all[j].n), 4, reps, |r| must(OPS[k], || op(&mut es[r % 2], k, r / 2)));
            } else {
                let mode = k - OPS.len();
                note(|| format!("{:?} and {:?}: servers, mode {mode}", all[i], all[j]));
                let mut ws = [i, j].map(|x| {
                    let hash = fixed_hash(1, 4, 4);
                    let (cl, sv, _) = must("setup_random_oram", || setup_random_oram(1, 4, &hash, TFHEParameters { plaintext_modulus: 2, ..all[x].params() }));
                    (cl, sv, hash)
                });
                steady(&format!("two servers in turn, mode {mode}"), 24, reps, |r| {
                    let n = all[[i, j][r % 2]].n;
                    let (cl, sv, hash) = &mut ws[r % 2];
                    must("call", || call(cl, sv, hash, mode, r / 2 % 12, n))
                });
            }
            state(&(i, j, k));
        }
        0 => {
            scenario("every operation of the library, again and again");
            let c = pick(&[cfg(8, 9, 4, 5, 11, 5, 11, 2), cfg(16, 4, 10, 7, 8, 5, 11, 4), cfg(64, 7, 6, 9, 5, 16, 3, 256), cfg(256, 14, 3, 15, 1, 14, 2, 2), cfg(1024, 8, 6, 5, 11, 5, 11, 2), cfg(2048, 22, 2, 12, 4, 19, 2, 16)][..by_tier(5, 6)]);
            let k = choose(OPS.len());
            note(|| format!("{c:?}: {}", OPS[k]));
            pool(1 + k % 3, 0, 0);
            let file = crate::small::scratch().join(format!("live{}_{k}.csv", c.n));
            if k == 40 {
                std::fs::write(&file, "a,b\n1,2\n3,4\n").unwrap();
            }
            let mut e = must("set-up", || Env::new(c, file.clone()));
            let reps = if c.n <= 16 { by_tier(60, 400) } else if c.n <= 64 { by_tier(20, 60) } else { by_tier(2, 10) };
            steady(&format!("{} (N={})", OPS[k], c.n), 3, reps, |r| must(OPS[k], || op(&mut e, k, r)));
            if k == 40 {
                let _ = std::fs::remove_file(&file);
            }
            state(&(c, k));
        }
        1 => {
            scenario("histories of a client and a server");
            let (h, n, rows, cols) = pick(&[(1usize, 1usize, 1usize, 1usize), (1, 4, 1, 4), (2, 4, 2, 4), (3, 2, 3, 2), (1, 64, 1, 64), (4, 2, 4, 2)]);
            let mode = choose(6);
            if mode != 2 && rows > 1 && mode < 4 && mode != 3 {
                skip();
            }
            if mode == 5 && rows > 1 {
                skip();
            }
            let c = pick(&[cfg(8, 5, 9, 5, 11, 5, 11, 2), cfg(16, 9, 4, 5, 11, 14, 2, 2), cfg(512, 14, 3, 5, 11, 14, 3, 2)]);
            let secure = choose(2) == 1;
            let (w, p) = pick(&[(1usize, 0u8), (3, 1), (9, 2)]);
            pool(w, p, 0);
            let reps = match (c.n, cols) {
                (512, 64) => skip(),
                (512, _) => by_tier(4, 24),
                (_, 64) => by_tier(5, 40),
                _ => by_tier(36, 200),
            };
            note(|| format!("{c:?} {h} copies of {n} items in {rows}x{cols}, mode {mode}, secure {secure}, {w} workers"));
            let hash = fixed_hash(h, n, 4);
            let (mut cl, mut s, _) = must("setup_random_oram", || setup_random_oram(rows, cols, &hash, TFHEParameters { secure_seed: secure, ..c.params() }));
            // the same dozen calls over and over: whatever may be kept of them is kept by the end of the first dozen
            steady(&format!("mode {mode} on {rows}x{cols}"), 12, reps, |k| must("call", || call(&mut cl, &mut s, &hash, mode, k % 12, c.n)));
            state(&(c, h, rows, cols, mode, secure, w));
        }
        2 => {
            scenario("objects made, used and dropped");
            let (h, n, rows, cols) = pick(&[(1usize, 1usize, 1usize, 1usize), (1, 8, 1, 8), (2, 2, 2, 2), (3, 2, 3, 2), (3, 100, 6, 50)]);
            let c = pick(&[cfg(8, 5, 9, 5, 11, 5, 11, 2), cfg(32, 9, 4, 5, 11, 14, 2, 2)]);
            let kind = choose(5);
            let secure = choose(2) == 1;
            let used = choose(3);
            pool(3, 0, 1);
            note(|| format!("{c:?} {h} copies of {n} items in {rows}x{cols}, kind {kind}, secure {secure}, {used} calls"));
            let p = TFHEParameters { secure_seed: secure, ..c.params() };
            steady(&format!("object of kind {kind}"), 2, by_tier(10, 40), |k| {
                must("life", || {
                    let hash = fixed_hash(h, n, 4);
                    match kind {
                        0 => {
                            let (mut cl, mut s, _) = setup_random_oram(rows, cols, &hash, p.clone());
                            for j in 0..used {
                                if cols <= 8 {
                                    call(&mut cl, &mut s, &hash, if rows == 1 { j } else { 2 }, k % 2 + j, c.n);
                                }
                            }
                        }
                        1 => {
                            let mut cl = Client::new(rows, cols, p.clone());
                            for _ in 0..used {
                                drop(cl.gen_dummy_database(&hash));
                            }
                        }
                        3 => {
                            let mut e = Env::new(c, "/nonexistent/x.csv".into());
                            for j in [16, 17, 20, 21, 29, 35][..3 * used].iter() {
                                op(&mut e, *j, k);
                            }
                        }
                        4 => {
                            let mut ctx = Context::new(p.clone());
                            let v: Vec<(RLWESecretKey, LWESecretKey)> = (0..1 + used).map(|_| (ctx.gen_rlwe_sk(), ctx.gen_lwe_sk())).collect();
                            for (a, b) in v {
                                drop((a.neg_gsw(&mut ctx), gen_all_subs_ksk(&a, &mut ctx), gen_all_subs_ksk_fourier(&b.to_rlwe_sk(), &mut ctx)));
                                let mut x = RLWECiphertext::allocate(PolynomialSize(c.n));
                                a.encode_encrypt_rlwe(&mut x, &ctx.gen_pt(), &mut ctx);
                                let _ = decode(&a, &x, &ctx);
                            }
                        }
                        _ => {
                            let v: Vec<Context> = (0..1 + 4 * used).map(|_| Context::new(p.clone())).collect();
                            drop(v);
                        }
                    }
                })
            });
            state(&(c, h, rows, cols, kind, secure, used));
        }
        3 => {
            scenario("refused calls");
            let kind = choose(10);
            let c = cfg(8, 5, 9, 5, 11, 5, 11, 2);
            pool(pick(&[1usize, 3]), 0, 0);
            note(|| format!("kind {kind}"));
            let (h, rows, cols) = if kind < 2 { (2usize, 2usize, 2usize) } else { (1, 1, 4) };
            let hash = fixed_hash(h, rows * cols / h, 4);
            let (mut cl, mut s, _) = must("setup_random_oram", || setup_random_oram(rows, cols, &hash, c.params()));
            let mut wide = Client::new(1, 8, c.params());
            let hw = fixed_hash(1, 8, 4);
            let mut e = must("set-up", || Env::new(c, "/nonexistent/x.csv".into()));
            let d = pt(&pat(8, 2, 1));
            steady(&format!("refused call {kind}"), 3, by_tier(20, 100), |_| {
                let refused = attempt(|| match kind {
                    0 => {
                        let mut q = cl.gen_write_query_batch(&[0], &d, &hash);
                        q.pop();
                        drop(s.process_batch(q, &hash));
                    }
                    1 => drop(cl.gen_read_query_batch(&[77], &hash)),
                    2 => {
                        let q = wide.gen_write_query_one(1, &d, &hw);
                        drop(s.process_one(q));
                    }
                    3 => {
                        let q = (0..3).map(|_| cl.gen_read_query_one(1, &hash)).chain([wide.gen_write_query_one(1, &d, &hw)]).collect();
                        drop(s.process_multi(q));
                    }
                    4 => drop(cl.gen_write_query_one(0, &pt(&[2; 8]), &hash)),
                    5 => drop(cl.gen_read_query_batch(&[0, 1], &hash)),
                    6 => e.x.less_eq_than(8),
                    7 => drop(e.x.trace1(&HashMap::new())),
                    8 => drop(parse_csv(&e.csv)),
                    _ => drop(encrypt_feature_vector(&e.sk, &vec![1, 8], &mut e.ctx)),
                });
                if let Ok(()) = refused {
                    skip(); // whether it is refused is C29's subject
                }
                // and a served one
                if h == 1 {
                    must("process_one", || call(&mut cl, &mut s, &hash, 0, 1, 8));
                }
            });
            let _ = &mut e;
            state(&kind);
        }
        _ => {
            scenario("simulation");
            let par = choose(2) == 1;
            let m = pick(&[1usize, 3]);
            pool(3, 0, 0);
            let tree: Node = serde_json::from_str(r#"{"internal":{"threshold":2,"feature":0,"index":0,"op":"leq","left":{"leaf":1},"right":{"leaf":5}}}"#).unwrap();
            let f: Vec<Vec<usize>> = (0..m).map(|i| vec![i + 1]).collect();
            note(|| format!("parallel {par}, {m} inputs"));
            steady("simulate", 1, by_tier(2, 6), |_| {
                must("simulate", || drop(simulate(&tree, &f, par).to_string()));
            });
            state(&(par, m));
        }
    }
}
pub fn c32_bounds() -> String {
    format!("{} operations of the library in {} settings, {} repetitions (fewer in large rings); a client and a server of six shapes, three settings, fixed and secure seeding, five kinds of history and their alternation, {} calls (the same dozen over and over); servers, clients and contexts made, used and dropped {} times; ten kinds of refused call; simulations; four pairs of settings in turn, for every operation and kind of call; after every repetition no more memory (64 bytes) than after the first few, and no growing number of descriptors and threads", OPS.len(), by_tier(5, 6), by_tier(60, 400), by_tier(36, 200), by_tier(10, 40))
}
