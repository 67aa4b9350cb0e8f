//! C06, C07, C17, C22, C26: placement, codec, noise reporting, helpers.
use crate::common::*;
use panacea::codec::Codec;
use panacea::rgsw::compute_noise_rgsw1;
use panacea::rlwe::{
    compute_noise, compute_noise_encoded, compute_noise_ternary, RLWEKeyswitchKey,
};
use panacea::utils::{log2, parse_csv, pt_to_lossy_u64, transpose};
use std::collections::{HashMap, HashSet};

// ---------------------------------------------------------------- C06
/// Run `f` for every sequence of bounded draws; returns the number of runs and of draws.
fn all_draws(cap: u64, mut f: impl FnMut(NaiveHash), h: usize, n: usize) -> (u64, u64) {
    let mut prefix: Vec<(u64, u64)> = vec![];
    let (mut runs, mut draws) = (0, 0);
    loop {
        let st = Rc::new(RefCell::new((prefix.clone(), 0usize)));
        let s2 = st.clone();
        let mut extra = runs;
        rand::mc_hook::reseed(runs);
        rand::mc_hook::set(Some(Box::new(move |r| {
            let mut g = s2.borrow_mut();
            let pos = g.1;
            if pos > 4 * h * n + 8 {
                // draws are being rejected
                extra = extra.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(1);
                return (extra >> 33) % r;
            }
            g.1 += 1;
            if pos < g.0.len() {
                g.0[pos].0 % r
            } else {
                g.0.push((0, r));
                0
            }
        })));
        let r = attempt(|| NaiveHash::new(h, n));
        rand::mc_hook::set(None);
        let hash = r.unwrap_or_else(|m| fail(format!("NaiveHash::new({h},{n}): {m}")));
        let (mut p, used) = { let g = st.borrow(); (g.0.clone(), g.1) };
        p.truncate(used);
        draws += used as u64;
        runs += 1;
        f(hash);
        while let Some((c, r)) = p.pop() {
            if c + 1 < r {
                p.push((c + 1, r));
                break;
            }
        }
        if p.is_empty() || runs >= cap {
            return (runs, draws);
        }
        prefix = p;
    }
}
use std::cell::RefCell;
use std::rc::Rc;

fn check_hash(hash: &NaiveHash, h: usize, n: usize) {
    let ctx = || format!("h={h} items={n} table={:?}", (0..n.min(9)).map(|x| (0..h).map(|k| hash.hash(k, x)).collect::<Vec<_>>()).collect::<Vec<_>>());
    ensure!(hash.h_count() == h && hash.input_domain() == n && hash.output_domain() == h * n, "wrong domain sizes for {}", ctx());
    let mut seen = vec![false; h * n];
    for x in 0..n {
        for k in 0..h {
            let p = hash.hash(k, x);
            ensure!(p < h * n, "hash({k},{x})={p} is outside 0..{}: {}", h * n, ctx());
            ensure!(!seen[p], "position {p} is used twice: {}", ctx());
            seen[p] = true;
            ensure!(hash.hash(k, x) == p, "hash({k},{x}) differs when called again");
            for d in [1, 2, 3, 4, h * n, h * n + 3] {
                if d > 0 {
                    let t = hash.hash_to_tuple(k, x, d);
                    ensure!(t == (p / d, p % d), "hash_to_tuple({k},{x},{d})={t:?}, position is {p}");
                }
            }
        }
        ensure!(hash.hash0(x) == hash.hash(0, x), "hash0({x})");
        if h > 1 {
            ensure!(hash.hash1(x) == hash.hash(1, x), "hash1({x})");
        }
        if h > 2 {
            ensure!(hash.hash2(x) == hash.hash(2, x), "hash2({x})");
        }
    }
    for k in (0..h + 3).chain([usize::MAX]) {
        for x in (0..n.min(40) + 2).chain([n, n + 1, h * n, h * n + 1, usize::MAX / 2]) {
            let got = must("checked_hash", || hash.checked_hash(k, x));
            let want = if k < h && x < n { Some(hash.hash(k, x)) } else { None };
            ensure!(got == want, "checked_hash({k},{x})={got:?}, must be {want:?}: {}", ctx());
        }
    }
}
pub fn c06() {
    let max = by_tier(8usize, 9);
    if choose(2) == 0 {
        scenario("every outcome of every bounded draw");
        let mut shapes = vec![];
        for h in 1..=max {
            for n in 0..=max / h {
                shapes.push((h, n));
            }
        }
        let (h, n) = pick(&shapes);
        note(|| format!("h={h} items={n}"));
        let total: u64 = (1..=(h * n) as u64).product();
        let mut seen: HashSet<Vec<Vec<usize>>> = HashSet::new();
        let (runs, draws) = all_draws(4_000_000, |hash| {
            check_hash(&hash, h, n);
            step();
            let t = table(&hash);
            state(&(h, n, &t));
            seen.insert(t);
        }, h, n);
        if (seen.len() as u64) < total && h * n <= 5 && (draws == 0 || runs >= 4_000_000) {
            // the draws do not go through bounded sampling: every bijection of a small table
            // still has to occur among many real draws
            for _ in 0..20_000 {
                let hash = must("NaiveHash::new", || NaiveHash::new(h, n));
                check_hash(&hash, h, n);
                seen.insert(table(&hash));
            }
            ensure!(seen.len() as u64 == total, "only {} of {total} bijections occurred for h={h} items={n}", seen.len());
        } else if draws > 0 && runs < 4_000_000 {
            ensure!(seen.len() as u64 == total, "only {} of {total} bijections can occur for h={h} items={n} ({runs} random outcomes)", seen.len());
        }
    } else {
        scenario("large tables and refused parameters");
        let (h, n) = pick(&[(3usize, 1024usize), (1, 4096), (4, 300), (7, 77), (3, 2730), (0, 5), (2, 65536)]);
        note(|| format!("h={h} items={n}"));
        if h == 0 {
            must_refuse("NaiveHash::new(0,5)", || NaiveHash::new(0, 5));
            return;
        }
        let seed = choose(4) as u64;
        check_hash(&fixed_hash(h, n, seed), h, n);
        check_hash(&must("NaiveHash::new", || NaiveHash::new(h, n)), h, n);
        steps(2);
        state(&(h, n));
    }
}
pub fn c06_bounds() -> String {
    format!("all (h, items) with h*items <= {}, every sequence of outcomes of the shuffle's bounded draws, number of distinct tables compared with (h*items)!; large tables up to 131072 positions", by_tier(8, 9))
}

// ---------------------------------------------------------------- C07
/// First-free-copy placement in list order.
fn greedy(t: &[Vec<usize>], is: &[usize], d: usize) -> Option<HashMap<usize, (usize, usize)>> {
    let mut m = HashMap::new();
    for &i in is {
        let p = t[i].iter().find(|p| !m.contains_key(&(**p / d)))?;
        m.insert(p / d, (p % d, i));
    }
    Some(m)
}
fn check_mapping(hash: &NaiveHash, t: &[Vec<usize>], is: &[usize], d: usize) {
    let r = attempt(|| hash.hash_to_mapping(is, d));
    step();
    match r {
        Err(m) => ensure!(
            greedy(t, is, d).is_none(),
            "list {is:?} (row width {d}, table {t:?}) is refused ({m}) although first-free-copy placement serves it"
        ),
        Ok(m) => {
            ensure!(m.len() == is.len(), "list {is:?} (row width {d}, table {t:?}): the assignment {m:?} has {} rows", m.len());
            for &i in is {
                let rows: Vec<_> = m.iter().filter(|(_, (_, j))| *j == i).collect();
                ensure!(rows.len() == 1, "list {is:?} (row width {d}, table {t:?}): item {i} is served {} times by {m:?}", rows.len());
                let (r, (c, _)) = rows[0];
                ensure!(
                    *c < d && t[i].contains(&(r * d + c)),
                    "list {is:?} (row width {d}, table {t:?}): item {i} has no copy at row {r}, column {c}"
                );
            }
        }
    }
}
fn lists(n: usize, max: usize, f: &mut dyn FnMut(&[usize])) {
    fn rec(n: usize, max: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(cur);
        if cur.len() == max {
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                rec(n, max, cur, f);
                cur.pop();
            }
        }
    }
    rec(n, max.min(n), &mut vec![], f)
}
pub fn c07() {
    let max = by_tier(6usize, 8);
    if choose(3) < 2 {
        scenario("every table, every row width, every ordered list of distinct items");
        let mut shapes = vec![];
        for h in 1..=max {
            for n in 1..=max / h {
                shapes.push((h, n));
            }
        }
        let (h, n) = pick(&shapes);
        // at most 6! tables per execution are enumerated inside, the rest are choice points
        let hash = enum_hash(h, n);
        let t = table(&hash);
        note(|| format!("h={h} items={n} table={t:?}"));
        state(&t);
        let maxlen = if n >= 7 { 2 } else if n >= 5 { 4 } else { n };
        for d in 1..=h * n {
            lists(n, maxlen, &mut |is| check_mapping(&hash, &t, is, d));
        }
    } else {
        scenario("larger tables with fixed shuffles, every list of up to two items and long lists");
        let (h, n, d) = pick(&[(3usize, 16usize, 4usize), (2, 16, 8), (3, 64, 16), (4, 32, 8), (3, 10, 2), (5, 12, 6), (3, 128, 64), (1, 300, 1), (2, 200, 1), (2, 200, 2), (3, 100, 1), (2, 280, 1), (16, 8, 4), (10, 12, 5), (1, 3000, 1), (2, 2500, 2), (1, 70000, 1), (2, 40000, 16), (24, 3, 9), (16, 4, 16), (24, 3, 24), (12, 5, 12), (20, 5, 25), (32, 4, 32), (48, 3, 48), (64, 2, 64), (17, 5, 17), (9, 6, 9)]);
        let hash = fixed_hash(h, n, choose(by_tier(6, 40)) as u64);
        let t = table(&hash);
        note(|| format!("h={h} items={n} width={d}"));
        state(&t);
        let rows = h * n / d;
        if n > 300 {
            // items at powers of two and those sharing their lowest bits, in pairs and all together
            let mut at: Vec<usize> = (0..17).flat_map(|b| [(1 << b) - 1, 1 << b, (1 << b) + 1]).chain([n - 2, n - 1]).filter(|i| *i < n).collect();
            at.sort_unstable();
            at.dedup();
            for a in &at {
                for b in &at {
                    if a != b {
                        check_mapping(&hash, &t, &[*a, *b], d);
                    }
                }
            }
            check_mapping(&hash, &t, &at, d);
            // the items in order of their first position, as far as they have rows of their own
            let mut order: Vec<usize> = (0..n).collect();
            order.sort_by_key(|i| t[*i][0]);
            let mut last = usize::MAX;
            order.retain(|i| std::mem::replace(&mut last, t[*i][0] / d) != t[*i][0] / d);
            if n <= 3000 {
                check_mapping(&hash, &t, &order, d);
            } else {
                check_mapping(&hash, &t, &order[..1500.min(order.len())], d);
                check_mapping(&hash, &t, &order[order.len() - 1500.min(order.len())..], d);
            }
            return;
        }
        // with few rows the whole list is needed to reach the last copies
        lists(n, if n <= 6 { n } else { 2 }, &mut |is| check_mapping(&hash, &t, is, d));
        let most = n.min(rows + 2);
        for len in (3..=most).filter(|l| most < 80 || l % 16 == 3 || l + 3 > most) {
            for s in 0..by_tier(20u64, 200) {
                let mut order: Vec<usize> = (0..n).collect();
                let w = words(n, s + 1);
                order.sort_by_key(|i| w[*i]);
                check_mapping(&hash, &t, &order[..len], d);
            }
        }
    }
}
pub fn c07_bounds() -> String {
    format!("all (h, items) with h*items <= {}, every permutation of the table, every row width 1..h*items, every ordered list of distinct items (length <= 4 for 5-6 items, <= 2 from 7 items); larger tables of up to 560 slots and 560 rows and up to 64 copies with fixed shuffles, every ordered pair of items (every ordered list for up to 6 items) and lists up to the number of rows; tables of up to 80000 slots and 70000 rows with the items around every power of two and lists of up to 3000 items", by_tier(6, 8))
}

// ---------------------------------------------------------------- C17
pub fn c17() {
    if choose(2) == 0 {
        scenario("power-of-two moduli");
        let k = 1 + choose(63);
        let t = 1u64 << k;
        note(|| format!("t=2^{k}"));
        let codec = must("Codec::new", || Codec::new(t));
        let d = delta(t);
        let half = d / 2;
        ensure!(codec.largest_error() == half, "t=2^{k}: largest_error() is {}, half a step is {half}", codec.largest_error());
        ensure!(codec.pt_modulus() == t && codec.pt_modulus_bits() == k, "t=2^{k}: pt_modulus() {} bits {}", codec.pt_modulus(), codec.pt_modulus_bits());
        let lim = by_tier(10, 13);
        let vs: Vec<u64> = if k <= lim {
            (0..t).collect()
        } else {
            let mut v: Vec<u64> = (0..40).chain(t - 40..t).chain(t / 2 - 20..t / 2 + 20).collect();
            v.extend((0..k).map(|i| 1u64 << i));
            v.extend((0..k).map(|i| t - (1u64 << i)));
            v.extend((0..k).map(|i| (1u64 << i).wrapping_sub(1)));
            v.extend(words(200, k as u64).iter().map(|x| x % t));
            v.sort();
            v.dedup();
            v
        };
        let mut es: Vec<u64> = if half <= 512 {
            (0..half).collect()
        } else {
            let mut e: Vec<u64> = (0..16).chain(half - 16..half).collect();
            let hl = half.trailing_zeros();
            e.extend((0..hl).flat_map(|i| [(1u64 << i) - 1, 1u64 << i, half - (1u64 << i)]));
            e.extend(words(20, 3).iter().map(|x| x % half));
            e
        };
        es.retain(|e| *e < half);
        es.sort();
        es.dedup();
        for &v in &vs {
            let mut x = v;
            codec.encode(&mut x);
            ensure!(x == v.wrapping_mul(d), "t=2^{k}: {v} is encoded as {x:#x}");
            for &e in &es {
                for y in [x.wrapping_add(e), x.wrapping_sub(e)] {
                    let mut z = y;
                    codec.decode(&mut z);
                    ensure!(z == v, "t=2^{k}: {v} with error {} decodes to {z}", y.wrapping_sub(x) as i64);
                }
            }
            steps(2 * es.len() as u64);
            state(&(k, v));
        }
        // polynomials and refusal
        let n = vs.len().min(64);
        let mut p = poly(&vs[vs.len() - n..]);
        codec.poly_encode(&mut p);
        let mut q = poly(p.as_tensor().as_slice());
        codec.poly_decode(&mut q);
        ensure!(q.as_tensor().as_slice() == &vs[vs.len() - n..], "t=2^{k}: poly_encode then poly_decode is not the identity");
        for bad in [t, t + 1, t.wrapping_mul(2) | 1, u64::MAX, u64::MAX - 1, 1u64 << 63, t | 5] {
            if bad < t {
                continue;
            }
            must_refuse(&format!("t=2^{k}: encoding {bad}"), || {
                let mut b = bad;
                codec.encode(&mut b)
            });
            must_refuse(&format!("t=2^{k}: encoding a polynomial with {bad}"), || {
                let mut p = poly(&[0, 1, 0, bad]);
                codec.poly_encode(&mut p)
            });
        }
        for bad in [t + 1, t.wrapping_add(t / 2), t - 1] {
            if !bad.is_power_of_two() {
                must_refuse(&format!("Codec::new({bad})"), || Codec::new(bad));
            }
        }
    } else {
        scenario("ternary");
        const SIXTH: u64 = ((1u128 << 64) / 6) as u64;
        const TOL: u64 = 4096; // the constants are double precision
        let v = pick(&[0u64, 1, u64::MAX]);
        let mut es: Vec<u64> = (0..4096).chain(SIXTH - TOL - 4096..SIXTH - TOL).collect();
        es.extend((0..61).flat_map(|i| [1u64 << i, (1u64 << i) - 1, SIXTH - TOL - (1u64 << i)]));
        es.extend(words(5000, 9).iter().map(|w| w % (SIXTH - TOL)));
        let mut x = v;
        Codec::ternary_encode(&mut x);
        for e in es {
            for y in [x.wrapping_add(e), x.wrapping_sub(e)] {
                let mut z = y;
                Codec::ternary_decode(&mut z);
                ensure!(z == v, "ternary {} with error {} decodes to {z}", v as i64, y.wrapping_sub(x) as i64);
                let mut p = poly(&[0, y, 0]);
                Codec::poly_ternary_decode(&mut p);
                ensure!(p.as_tensor().as_slice()[1] == v, "ternary polynomial decoding of {y:#x}");
            }
            step();
        }
        state(&v);
        let third = ((1u128 << 64) / 3) as u64;
        let want = if v == 0 { 0 } else if v == 1 { third } else { third.wrapping_mul(2) };
        ensure!((x.wrapping_sub(want) as i64).unsigned_abs() < TOL, "ternary {} is encoded as {x:#x}", v as i64);
        let mut p = poly(&[v, 0, 1, u64::MAX]);
        Codec::poly_ternary_encode(&mut p);
        ensure!(p.as_tensor().as_slice()[0] == x, "poly_ternary_encode differs from ternary_encode");
        Codec::poly_ternary_decode(&mut p);
        ensure!(p.as_tensor().as_slice() == [v, 0, 1, u64::MAX], "ternary polynomial round trip");
        for bad in [2u64, 3, 4, u64::MAX - 1, u64::MAX - 2, 1 << 63, 1 << 32, third] {
            must_refuse(&format!("ternary encoding of {bad}"), || {
                let mut b = bad;
                Codec::ternary_encode(&mut b)
            });
        }
    }
}
pub fn c17_bounds() -> String {
    format!("every modulus 2^1..2^63; all values below the modulus up to 2^{}, above that boundaries, all powers of two and their neighbours; all errors when half a step is at most 512, otherwise boundaries, powers of two and neighbours of both signs; ternary errors up to 2^64/6 - 4096 (double precision constants)", by_tier(10, 13))
}

// ---------------------------------------------------------------- C22
pub fn c22() {
    let n = pick(by_tier(&[8usize, 16, 1024, 2048, 8192][..], &[8, 16, 64, 512, 1024, 2048, 4096, 8192][..]));
    let large = n > 64;
    let kseed = if large { 4 } else { choose(by_tier(6, 16)) };
    let s: Vec<u64> = match kseed {
        0 => vec![0; n],
        1 => vec![1; n],
        k if n > 4096 => padd(&unit(n, n / 3, 1), &unit(n, n - k, 1)),
        k => pattern(n, 2, k as u64),
    };
    let sk = key(&s);
    let mut mags: Vec<u64> = (0..=63).flat_map(|k| [1u64 << k, (1u64 << k) - 1, (1u64 << k) + 1]).filter(|m| *m <= 1 << 63).collect();
    mags.extend([3, 5, 1000, 123_456_789]);
    mags.sort();
    mags.dedup();
    if large {
        mags = vec![1, 1 << 11, (1 << 33) + 1, (1 << 55) - 1, 1 << 62, 1 << 63];
    }
    if n > 4096 {
        mags = vec![1, (1 << 40) + 1];
    }
    let close = |got: f64, want: f64| got == want || (got - want).abs() < 1e-9;
    let mk = |m: &[u64], e: &[u64], seed: u64| {
        let a = words(n, seed + 77);
        let b = padd(&padd(&pmul(&a, &s), m), e);
        ct_of(&[a, b].concat())
    };
    match choose(if n > 4096 { 1 } else { 2 }) {
        0 => {
            scenario("one error coefficient of every magnitude and sign at every position, with smaller ones elsewhere");
            let pos = if large { pick(&[0, 1, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1]) } else { choose(n) };
            note(|| format!("N={n} key={s:?} position={pos}"));
            for (mi, &mag) in mags.iter().enumerate() {
                for neg in [false, true] {
                    for others in 0..3usize {
                        let lead = if neg { mag.wrapping_neg() } else { mag };
                        let mut e = vec![0u64; n];
                        for (j, x) in e.iter_mut().enumerate() {
                            if others > 0 && mag > 0 {
                                let o = (mag - 1) >> (j % 3);
                                *x = if (j + others) % 2 == 0 { o } else { o.wrapping_neg() };
                            }
                        }
                        e[pos] = lead;
                        let want = (e.iter().map(|x| (*x as i64).unsigned_abs()).max().unwrap() as f64).log2();
                        // raw
                        let m = words(n, mi as u64 + 5);
                        let got = must("compute_noise", || compute_noise(&sk, &mk(&m, &e, 1), &pt(&m)));
                        ensure!(close(got, want), "raw plaintext, error {e:?} (position {pos}): reported 2^{got}, must be 2^{want}");
                        // encoded
                        let t = [2u64, 4, 256, 1 << 20, 1 << 33, 1 << 45, 1 << 62][(mi + others) % 7];
                        let codec = Codec::new(t);
                        let v = pattern(n, t, mi as u64 + 1);
                        let got = must("compute_noise_encoded", || compute_noise_encoded(&sk, &mk(&enc_of(&v, t), &e, 2), &pt(&v), &codec));
                        ensure!(close(got, want), "encoded plaintext (t={t}), error {e:?}: reported 2^{got}, must be 2^{want}");
                        // ternary
                        let v: Vec<u64> = pattern(n, 3, mi as u64 + 2).iter().map(|x| if *x == 2 { u64::MAX } else { *x }).collect();
                        let enc: Vec<u64> = v.iter().map(|x| { let mut y = *x; Codec::ternary_encode(&mut y); y }).collect();
                        let got = must("compute_noise_ternary", || compute_noise_ternary(&sk, &mk(&enc, &e, 3), &pt(&v)));
                        ensure!(close(got, want), "ternary plaintext {v:?}, error {e:?}: reported 2^{got}, must be 2^{want}");
                        steps(3);
                    }
                }
                state(&(n, kseed, pos, mag));
            }
        }
        _ => {
            scenario("average over the rows of an RGSW encryption of 1 with its own decomposition");
            let (b, l) = pick(&[(5usize, 9usize), (5, 3), (7, 6), (12, 4), (1, 20), (20, 1), (20, 3), (3, 5)]);
            let std = pick(&[-55.0f64, -40.0, -30.0]);
            let mut p = cfg(n, pick(&[5usize, 9]), pick(&[9usize, 4]), 5, 11, 5, 11, 2).params();
            p.standard_deviation = std;
            let mut ctx = Context::new(p);
            note(|| format!("N={n} rgsw base 2^{b} levels {l} std 2^{std}"));
            let mut g = RGSWCiphertext::allocate(PolynomialSize(n), DecompositionBaseLog(b), DecompositionLevelCount(l));
            sk.encrypt_constant_rgsw(&mut g, &Plaintext(1), &mut ctx);
            let mut total = 0.0;
            for level in 0..l {
                let e = maxerr(&phase(&s, &g.get_nth_row(2 * level + 1)), &unit(n, 0, 1u64 << (64 - b * (level + 1))));
                total += (e as f64).log2();
            }
            let want = total / l as f64;
            let got = must("compute_noise_rgsw1", || compute_noise_rgsw1(&sk, &g, &ctx));
            ensure!(close(got, want), "RGSW base 2^{b} levels {l}: reported {got}, the average over its rows is {want}");
            step();
            state(&(n, kseed, b, l, std.to_bits()));
        }
    }
}
pub fn c22_bounds() -> String {
    "N 8 and 16 (64 in the thorough tier), and 1024, 2048 and 8192 (512 to 8192) with seven positions and six (two) magnitudes; zero, all-one and patterned binary keys, error magnitudes 2^k and neighbours for every k up to 2^63 of both signs at every position, alone and with smaller errors of either sign elsewhere; raw, encoded (t 2, 4, 2^8, 2^20, 2^33, 2^45, 2^62) and ternary; RGSW with eight decompositions different from the context's and three noise levels".into()
}

// ---------------------------------------------------------------- C26
pub fn c26() {
    match choose(6) {
        5 => {
            scenario("every pair of substitutions in turn");
            let sizes = [4usize, 8, 16];
            let all: Vec<(usize, usize)> = sizes.iter().flat_map(|n| (1..2 * n).step_by(2).map(move |k| (*n, k))).collect();
            let mut ctxs: Vec<_> = sizes.iter().map(|n| cfg(*n, 5, 9, 5, 2, 5, 11, 2).ctx()).collect();
            let mut run = |(n, k): (usize, usize), seed: u64, what: &str| {
                let a = words(n, seed);
                let ctx = ctxs.iter_mut().find(|c| c.poly_size.0 == n).unwrap();
                let mut before = RLWESecretKey::zero(PolynomialSize(n));
                let mut ksk = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, PolynomialSize(n));
                must("fill_with_subs_keyswitch_key", || ksk.fill_with_subs_keyswitch_key(&mut before, &key(&a), k, ctx.std, &mut ctx.encryption_generator));
                ensure!(key_words(&before) == psubst(&a, k), "N={n}: substituting X^{k} in {a:?}{what} gives {:?}", key_words(&before));
                step();
            };
            let first = pick(&all);
            for second in &all {
                note(|| format!("(N, k) {first:?} then {second:?}"));
                run(first, 5 + second.1 as u64, "");
                run(*second, 6 + first.1 as u64, &format!(" after N={} k={}", first.0, first.1));
                state(&(first, second));
            }
        }
        0 => {
            scenario("transpose of every shape");
            let small = by_tier(7, 12);
            let r = 1 + choose(small + 1);
            let c = choose(small + 1);
            // the last row count stands for large tables
            let (r, c) = if r <= small { (r, c) } else { pick(&[(1, 100 + c), (100 + c, 1), (64, 64 + c), (33 + c, 9), (9, 300 + c)]) };
            note(|| format!("{r}x{c}"));
            struct NoClone(usize);
            let m: Vec<Vec<NoClone>> = (0..r).map(|i| (0..c).map(|j| NoClone(i * 1000 + j)).collect()).collect();
            let t = must("transpose", || transpose(m));
            ensure!(t.len() == c && t.iter().all(|x| x.len() == r), "transpose of {r}x{c} has the wrong shape");
            for (j, row) in t.iter().enumerate() {
                for (i, x) in row.iter().enumerate() {
                    ensure!(x.0 == i * 1000 + j, "transpose of {r}x{c}: entry ({j},{i}) is {}", x.0);
                }
            }
            if c > 0 {
                let b = must("transpose", || transpose(t));
                ensure!(b.len() == r, "transposing twice");
                for (i, row) in b.iter().enumerate() {
                    for (j, x) in row.iter().enumerate() {
                        ensure!(x.0 == i * 1000 + j, "transposing {r}x{c} twice: entry ({i},{j}) is {}", x.0);
                    }
                }
            }
            step();
            state(&(r, c));
        }
        1 => {
            scenario("integer log2");
            let k = choose(64);
            let lo = 1usize << k;
            let hi = if k == 63 { usize::MAX } else { (lo << 1) - 1 };
            let mut v: Vec<usize> = if k < by_tier(18, 24) { (lo..=hi).collect() } else { vec![lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, lo + (lo >> 1)] };
            v.extend((0..k).map(|i| lo | (1 << i)));
            for x in v {
                ensure!(log2(x) == k, "log2({x}) = {}, must be {k}", log2(x));
                step();
            }
            state(&k);
        }
        2 => {
            scenario("substitution X -> X^k");
            let n = pick(by_tier(&[4usize, 8, 16, 32, 64, 256, 2048][..], &[2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048][..]));
            let seed = choose(4) as u64;
            // large rings: the exponents around the powers of two and the ends
            let ks: Vec<usize> = if n <= 64 {
                (1..2 * n).step_by(2).chain([2 * n + 1, 4 * n - 1, 6 * n + 3]).collect()
            } else {
                let mut v: Vec<usize> = (1..=n.trailing_zeros()).flat_map(|e| [(1 << e) + 1, (1 << e) - 1, 2 * n - (1 << e) + 1]).collect();
                v.extend([2 * n - 1, 2 * n + 1, 4 * n - 1, 6 * n + 3]);
                v
            };
            let a: Vec<u64> = match seed {
                0 => (1..=n as u64).collect(),
                1 => pattern(n, 2, 5),
                s => words(n, s),
            };
            note(|| format!("N={n} coefficients {a:?}"));
            let after = key(&a);
            let mut ctx = cfg(n, 5, 9, 5, 2, 5, 11, 2).ctx();
            for k in ks {
                let mut before = RLWESecretKey::zero(PolynomialSize(n));
                let mut ksk = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, PolynomialSize(n));
                must("fill_with_subs_keyswitch_key", || {
                    ksk.fill_with_subs_keyswitch_key(&mut before, &after, k, ctx.std, &mut ctx.encryption_generator)
                });
                let got = key_words(&before);
                let want = psubst(&a, k);
                ensure!(got == want, "N={n}: substituting X^{k} in {a:?} gives {got:?}, must be {want:?}");
                ensure!(ksk.get_subs_k() == k, "get_subs_k() is {} after filling for {k}", ksk.get_subs_k());
                step();
                state(&(n, seed, k));
            }
            for k in [0usize, 2, n, 2 * n] {
                must_refuse(&format!("substitution with even k={k}"), || {
                    let mut before = RLWESecretKey::zero(PolynomialSize(n));
                    let mut ksk = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, PolynomialSize(n));
                    ksk.fill_with_subs_keyswitch_key(&mut before, &after, k, ctx.std, &mut ctx.encryption_generator)
                });
            }
        }
        3 => {
            scenario("packing coefficients into a word");
            let n = pick(&[1usize, 2, 8, 32, 63, 64, 65, 128, 256]);
            let mut vs: Vec<Vec<u64>> = vec![vec![0; n], vec![1; n]];
            vs.extend((0..n).map(|i| unit(n, i, 1)));
            vs.extend((0..n).map(|i| (0..n).map(|j| (j != i) as u64).collect()));
            vs.extend((0..by_tier(100, 2000)).map(|s| pattern(n, 2, s)));
            if n <= 8 {
                vs.extend((0..1u64 << n).map(|w| (0..n).map(|j| (w >> j) & 1).collect()));
            }
            for v in vs {
                let got = must("pt_to_lossy_u64", || pt_to_lossy_u64(&pt(&v)));
                let want = v.iter().take(64).enumerate().fold(0u64, |a, (i, x)| a | (x << i));
                ensure!(got == want, "packing {v:?} gives {got:#x}, must be {want:#x}");
                step();
                state(&v);
            }
        }
        _ => {
            scenario("reading a CSV file");
            let rows = pick(&[0usize, 1, 2, 3, 4, 100, 2000, 20000]);
            let wide = rows <= 2000;
            let cols = pick(if wide { &[1usize, 2, 3, 4, 57, 300, 1025][..] } else { &[1, 3] });
            let big = choose(5);
            let newline = choose(2) == 1;
            let eol = pick(&["\n", "\r\n"]);
            let head = if rows * cols > 10000 { 0 } else { choose(4) };
            let table: Vec<Vec<usize>> = (0..rows)
                .map(|i| (0..cols).map(|j| match big { 0 => i * cols + j, 1 => usize::MAX - i * cols - j, 3 => 7, 4 => (i / 2) % 3 + j, _ => (rows - i) * 1000 + (j * 37) % 7 }).collect())
                .collect();
            note(|| format!("{rows} rows of {cols} columns, final newline {newline}"));
            let mut s = (0..cols)
                .map(|j| match head {
                    0 => format!("f{j}"),
                    1 => j.to_string(),
                    2 => "x".to_string(),
                    _ => table.first().map_or(j, |r| r[j]).to_string(),
                })
                .collect::<Vec<_>>()
                .join(",");
            for r in &table {
                s.push_str(eol);
                s.push_str(&r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            }
            if newline {
                s.push_str(eol);
            }
            let dir = scratch();
            let p = dir.join(format!("t{rows}_{cols}_{big}_{newline}_{head}_{}.csv", eol.len()));
            std::fs::write(&p, &s).unwrap();
            let got = must("parse_csv", || parse_csv(&p));
            ensure!(got == table, "CSV file {s:?} is read as {got:?}");
            let _ = std::fs::remove_file(&p);
            step();
            state(&(rows, cols, big, newline, eol, head));
        }
    }
}
pub fn c26_bounds() -> String {
    format!("transpose of all shapes up to {} and large ones; log2 of all integers below 2^{} and the boundaries of every power of two; substitution for N up to 64 and every odd k < 2N and larger, for N up to 2048 those around the powers of two, every ordered pair for N up to 16; packing of every unit, complement, all 8-bit and patterned plaintexts for nine sizes; CSV files with 0-4, 100, 2000 and 20000 rows, 1-4, 57, 300 and 1025 columns, with distinct, descending, repeated and equal rows, both line endings and header lines of names, numbers, equal names and the first row", by_tier("7x7", "12x12"), by_tier(18, 24))
}
/// Scratch directory of this process.
pub fn scratch() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("verif-mc-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}
