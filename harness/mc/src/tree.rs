//! C09 (plaintext decision trees) and C10 (encrypted evaluation).
use crate::common::*;
use crate::hom::trace_err;
use panacea::decision_tree::*;
use panacea::rlwe::gen_all_subs_ksk_fourier;

/// Reference tree.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    No,
    L(usize),
    I(usize, usize, Box<(T, T)>), // threshold, feature, children
}
use T::*;
impl T {
    pub fn node(&self) -> Option<Node> {
        match self {
            No => None,
            L(x) => Some(Node::Leaf(*x)),
            I(t, f, c) => Some(Node::Internal(Box::new(Internal {
                threshold: *t,
                feature: *f,
                index: 0,
                op: Op::LEQ,
                left: c.0.node(),
                right: c.1.node(),
            }))),
        }
    }
    pub fn of(n: &Option<Node>) -> T {
        match n {
            None => No,
            Some(Node::Leaf(x)) => L(*x),
            Some(Node::Internal(i)) => I(i.threshold, i.feature, Box::new((T::of(&i.left), T::of(&i.right)))),
        }
    }
    pub fn eval(&self, f: &[usize]) -> usize {
        match self {
            No => 0,
            L(x) => *x,
            I(t, k, c) => if f[*k] <= *t { c.0.eval(f) } else { c.1.eval(f) },
        }
    }
    fn leaves(&self) -> usize {
        match self {
            No => 0,
            L(_) => 1,
            I(_, _, c) => c.0.leaves() + c.1.leaves(),
        }
    }
    fn inner(&self) -> usize {
        match self {
            I(_, _, c) => 1 + c.0.inner() + c.1.inner(),
            _ => 0,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            I(_, _, c) => 1 + c.0.depth().max(c.1.depth()),
            _ => 0,
        }
    }
    fn max_feature(&self) -> usize {
        match self {
            I(_, f, c) => (*f).max(c.0.max_feature()).max(c.1.max_feature()),
            _ => 0,
        }
    }
    fn max_label(&self) -> usize {
        match self {
            No => 0,
            L(x) => *x,
            I(_, _, c) => c.0.max_label().max(c.1.max_label()),
        }
    }
    /// inner nodes in depth-first order
    fn dfs(&self, out: &mut Vec<(usize, usize)>) {
        if let I(t, f, c) = self {
            out.push((*t, *f));
            c.0.dfs(out);
            c.1.dfs(out);
        }
    }
    /// no zero leaf, no inner node without children
    fn pruned(&self) -> bool {
        match self {
            No => true,
            L(x) => *x != 0,
            I(_, _, c) => !(c.0 == No && c.1 == No) && c.0.pruned() && c.1.pruned(),
        }
    }
    fn json(&self, next: &mut usize) -> String {
        match self {
            No => "null".into(),
            L(x) => format!("{{\"leaf\":{x}}}"),
            I(t, f, c) => {
                let i = *next;
                *next += 1;
                let l = c.0.json(next);
                let r = c.1.json(next);
                format!("{{\"internal\":{{\"threshold\":{t},\"feature\":{f},\"index\":{i},\"op\":\"leq\",\"left\":{l},\"right\":{r}}}}}")
            }
        }
    }
}
fn inn(t: usize, f: usize, l: T, r: T) -> T {
    I(t, f, Box::new((l, r)))
}
/// An enumerated subtree of at most the given depth.
fn any(depth: usize, thr: &[usize], feat: &[usize], labels: &[T]) -> T {
    if depth == 0 || choose(2) == 0 {
        return pick(labels);
    }
    inner(depth, thr, feat, labels)
}
fn inner(depth: usize, thr: &[usize], feat: &[usize], labels: &[T]) -> T {
    let t = pick(thr);
    let f = pick(feat);
    let l = any(depth - 1, thr, feat, labels);
    let r = any(depth - 1, thr, feat, labels);
    inn(t, f, l, r)
}
/// A chain of inner nodes turning left, right or alternately, with distinct labels beside it.
fn line(depth: usize, turn: usize, side: &[usize], n: usize) -> T {
    let mut t = L(1000 + depth);
    for k in (0..depth).rev() {
        let other = match side[k % side.len()] {
            0 => No,
            1 => L(0),
            _ => L(k + 1),
        };
        let left = match turn {
            0 => true,
            1 => false,
            _ => (k + turn) % 2 == 0,
        };
        let thr = (k * 3 + 1) % n;
        t = if left { inn(thr, k % 3, t, other) } else { inn(thr, k % 3, other, t) };
    }
    t
}

fn same(got: &Option<Node>, want: &T, what: &str) {
    let g = T::of(got);
    ensure!(g == *want, "{what}: {g:?}, must be {want:?}");
}

fn check_tree(t: &T, features: &[Vec<usize>]) {
    let node = t.node();
    let n = node.clone().unwrap();
    for f in features {
        let got = must("eval", || n.eval(f));
        let want = t.eval(f);
        ensure!(got == want, "eval of {t:?} on {f:?} is {got}, must be {want}");
    }
    ensure!(must("count_leaf", || n.count_leaf()) == t.leaves(), "count_leaf of {t:?} is {}, must be {}", n.count_leaf(), t.leaves());
    ensure!(must("count_internal", || n.count_internal()) == t.inner(), "count_internal of {t:?} is {}, must be {}", n.count_internal(), t.inner());
    ensure!(must("count_depth", || n.count_depth()) == t.depth(), "count_depth of {t:?} is {}, must be {}", n.count_depth(), t.depth());
    ensure!(must("max_feature_index", || n.max_feature_index()) == t.max_feature(), "max_feature_index of {t:?} is {}, must be {}", n.max_feature_index(), t.max_feature());
    same(&Some(n.clone()), t, "clone");
    // pruning
    let cut = must("trunc_tree", || trunc_tree(&node));
    let ct = T::of(&cut);
    ensure!(ct.pruned(), "pruning {t:?} left a zero leaf or an empty node: {ct:?}");
    ensure!((ct == No) == (t.max_label() == 0), "pruning {t:?} gave {ct:?}");
    for f in features {
        ensure!(ct.eval(f) == t.eval(f), "pruning changed the value of {t:?} on {f:?}: {} instead of {}", ct.eval(f), t.eval(f));
        if let Some(c) = &cut {
            ensure!(must("eval after pruning", || c.eval(f)) == t.eval(f), "eval after pruning {t:?} on {f:?}");
        }
    }
    same(&must("trunc_tree", || trunc_tree(&cut)), &ct, "pruning twice");
    same(&node, t, "pruning changed its argument");
    // indexing and flattening
    let mut order = vec![];
    t.dfs(&mut order);
    let flat0 = must("flatten", || n.flatten());
    ensure!(flat0.len() == order.len(), "flatten of {t:?} lists {} nodes", flat0.len());
    let mut m = n.clone();
    if let I(..) = t {
        let last = must("fix_index", || m.fix_index());
        ensure!(last + 1 == t.inner(), "fix_index of {t:?} returns {last} for {} inner nodes", t.inner());
        same(&Some(m.clone()), t, "fix_index changed the tree");
        let flat = must("flatten", || m.flatten());
        let kept = must("clone", || m.clone()).flatten();
        ensure!(kept.len() == flat.len(), "a copy of {t:?} has {} nodes", kept.len());
        for (i, x) in flat.iter().enumerate() {
            ensure!(x.index == i, "after fix_index, flatten of {t:?} has index {} at position {i}", x.index);
            let y = &kept[i];
            ensure!((y.index, y.threshold, y.feature) == (i, x.threshold, x.feature), "a copy of {t:?} lists ({},{},{}) at position {i}", y.index, y.threshold, y.feature);
            ensure!((x.threshold, x.feature) == order[i] && matches!(x.op, Op::LEQ), "flatten of {t:?}: node {i} is ({},{})", x.threshold, x.feature);
        }
        index_ok(&m, &mut 0, t);
    }
    // JSON
    let text = must("to_string", || serde_json::to_string(&m)).unwrap_or_else(|e| fail(format!("{t:?}: {e}")));
    let back: Node = must("from_str", || serde_json::from_str(&text)).unwrap_or_else(|e| fail(format!("{t:?} does not read back: {e}")));
    same(&Some(back.clone()), t, "JSON round trip");
    ensure!(indices(&back) == indices(&m), "JSON round trip changed the indices of {t:?}");
    let mine: Node = must("from_str", || serde_json::from_str(&t.json(&mut 0))).unwrap_or_else(|e| fail(format!("{}: {e}", t.json(&mut 0))));
    same(&Some(mine.clone()), t, "reading JSON");
    if let I(..) = t {
        ensure!(indices(&mine) == indices(&m), "reading the indices of {t:?}");
    }
    step();
    state(t);
}
fn indices(n: &Node) -> Vec<usize> {
    n.flatten().iter().map(|x| x.index).collect()
}
fn index_ok(n: &Node, next: &mut usize, t: &T) {
    if let Node::Internal(i) = n {
        ensure!(i.index == *next, "fix_index of {t:?}: inner node {} has index {}", *next, i.index);
        *next += 1;
        for c in [&i.left, &i.right].into_iter().flatten() {
            index_ok(c, next, t);
        }
    }
}
fn grid(k: usize, v: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..k {
        out = out.into_iter().flat_map(|p: Vec<usize>| v.iter().map(move |x| [p.clone(), vec![*x]].concat())).collect();
    }
    out
}

pub fn c09() {
    match choose(8) {
        6 => {
            scenario("trees of many nodes");
            let d = pick(&[9usize, 11, 13, 17]);
            let kind = choose(3);
            // full; full below one side of a chain; with missing and zero leaves
            let mut next = (0, 0);
            let mut t = full(d, 1 << 20, &mut next);
            if kind == 2 {
                fn thin(t: &mut T, k: &mut usize) {
                    if let I(_, _, c) = t {
                        for x in [&mut c.0, &mut c.1] {
                            if let L(_) = x {
                                *k += 1;
                                match *k % 5 { 0 => *x = No, 1 | 2 => *x = L(0), _ => {} }
                            } else {
                                thin(x, k);
                            }
                        }
                    }
                }
                thin(&mut t, &mut 0);
            }
            if kind == 1 {
                for k in 0..10 {
                    let f = next.0 + k;
                    t = if k % 2 == 0 { inn(k, f, t, L(5)) } else { inn(k, f, No, t) };
                }
            }
            note(|| format!("depth {d}, kind {kind}"));
            let width = next.0 + 10;
            let fs: Vec<Vec<usize>> = (0..3).map(|m| (0..width).map(|i| if i < next.0 { (3 * i + 1) % ((1 << 20) - 1) + (i / 3 + m) % 2 } else { i - next.0 + (i - next.0) % 2 }).collect()).collect();
            check_tree(&t, &fs);
        }
        7 => {
            scenario("labels, thresholds, features around every power of two");
            let e = 1 + choose(63);
            let around = [(1usize << e) - 1, 1 << e, (1 << e) + 1];
            for v in around {
                // as a feature index only (a feature vector that long does not exist)
                check_tree(&inn(1, v, L(1), inn(2, 3, L(2), L(3))), &[]);
                check_tree(&inn(1, 2, inn(2, 3, L(2), inn(0, v, No, L(3))), L(1)), &[]);
                if v <= 1 << 17 {
                    let mut f = vec![0; v + 1];
                    f[v] = 2;
                    check_tree(&inn(1, v, L(1), inn(2, v, L(2), L(3))), &[f]);
                }
                for l in around {
                    let t = inn(v, 0, L(l), inn(l, 1, L(v), L(7)));
                    note(|| format!("{t:?}"));
                    let fs: Vec<Vec<usize>> = grid(2, &[v - 1, v, v.wrapping_add(1).max(v), l, v >> 1, usize::MAX]);
                    check_tree(&t, &fs);
                }
            }
        }
        0 => {
            scenario("all trees of depth at most 2");
            let labels = [No, L(0), L(1), L(2)];
            let t = if choose(2) == 0 { pick(&labels[1..]) } else { inner(2, &[0, 1, 2], by_tier(&[0, 1][..], &[0, 1, 2][..]), &labels) };
            note(|| format!("{t:?}"));
            check_tree(&t, &grid(3, &[0, 1, 2, 3]));
        }
        1 => {
            scenario("all trees of depth at most 3, few labels");
            let labels = [No, L(0), L(1)];
            let t = inner(3, by_tier(&[0, 1][..], &[0, 1][..]), &[0], &labels);
            note(|| format!("{t:?}"));
            check_tree(&t, &grid(1, &[0, 1, 2]));
        }
        2 => {
            scenario("chains of up to 12 inner nodes");
            let d = 1 + choose(by_tier(8, 12));
            let turn = choose(4);
            let side: Vec<usize> = (0..3).map(|_| choose(3)).collect();
            let t = line(d, turn, &side, 16);
            note(|| format!("{t:?}"));
            check_tree(&t, &grid(3, &[0, 1, 4, 7, 10, 15]));
        }
        3 => {
            scenario("every shape of bounded depth, every node and leaf different, every combination of decisions; long chains");
            let (t, tail) = if choose(2) == 0 {
                let missing = choose(4);
                (shape(by_tier(4, 5), missing, 1 << 20, &mut (0, 0)), false)
            } else {
                (line(pick(&[20usize, 31, 33, 55]), choose(4), &[choose(3), 1 + choose(2)], 1 << 20), true)
            };
            if matches!(t, No) {
                skip();
            }
            note(|| format!("{t:?}"));
            let mut nodes = vec![];
            t.dfs(&mut nodes);
            let k = nodes.len();
            let width = nodes.iter().map(|x| x.1 + 1).max().unwrap_or(0);
            let fs: Vec<Vec<usize>> = (0..1usize << k.min(8))
                .map(|m| {
                    if tail {
                        return (0..width).map(|i| m * (i + 1) % 200).collect();
                    }
                    (0..width).map(|i| nodes[i].0 + (m >> (i % 8) & 1) * (1 + m)).collect()
                })
                .collect();
            check_tree(&t, &fs);
        }
        5 => {
            scenario("large labels, thresholds, features");
            let big = [1usize << 49, 1 << 63, usize::MAX, 1 << 32];
            let a = pick(&big);
            let b = pick(&[0, 1, usize::MAX, (1 << 53) + 1]);
            let t = inn(pick(&[0, usize::MAX, 1 << 63]), 5, L(a), inn(pick(&[3, (1 << 53) + 1]), 2, L(b), No));
            note(|| format!("{t:?}"));
            let fs: Vec<Vec<usize>> = grid(2, &[0, 3, 4, 1 << 53, (1 << 53) + 1, (1 << 53) + 2, usize::MAX]).into_iter().map(|v| vec![9, 9, v[0], 9, 9, v[1]]).collect();
            check_tree(&t, &fs);
        }
        _ => {
            scenario("generated full trees");
            let d = choose(by_tier(8, 12));
            let d = if d == 7 { pick(&[10usize, 13, 7]) } else { d };
            note(|| format!("depth {d}"));
            let n = must("new_with_depth", || Node::new_with_depth(d));
            let t = T::of(&Some(n.clone()));
            ensure!(t.depth() == d && t.leaves() == 1 << d && t.inner() == (1 << d) - 1, "new_with_depth({d}) has depth {}, {} leaves", t.depth(), t.leaves());
            let mut labels = vec![];
            fn leaves(t: &T, v: &mut Vec<usize>) {
                match t {
                    No => (),
                    L(x) => v.push(*x),
                    I(_, _, c) => [&c.0, &c.1].into_iter().for_each(|t| leaves(t, v)),
                }
            }
            leaves(&t, &mut labels);
            ensure!(labels[0] == 1 && labels[1..].iter().all(|x| *x == 0), "new_with_depth({d}) has labels {labels:?}, only the leftmost must be 1 and the others 0");
            check_tree(&t, &grid(1, &[0, 1]));
            if d == 1 {
                same(&Some(Node::default()), &t, "the default tree");
                ensure!(must("trunc_tree(None)", || trunc_tree(&None)).is_none(), "pruning nothing gave something");
            }
        }
    }
}
pub fn c09_bounds() -> String {
    format!("every tree of depth at most 2 over 3 thresholds, {} features, leaves 0..2 and missing children; every tree of depth at most 3 over 2 thresholds and leaves 0, 1 and missing; chains of up to {} inner nodes (some up to 55, serde_json nests no deeper) in four directions; every shape of depth at most {} with all comparisons and labels different and every combination of decisions; labels, thresholds and features up to 2^64-1 and around every power of two; full and thinned trees of up to 131000 inner nodes; generated full trees up to depth {}; all feature vectors around the thresholds. Op::GT is unimplemented (todo!) and outside", by_tier(2, 3), by_tier(8, 12), by_tier(4, 5), by_tier(7, 11))
}

// ---------------------------------------------------------------------- C10
fn tree_bound(c: &Cfg, thr: usize, depth: usize, leaves: usize) -> f64 {
    let n = c.n;
    let cmp = FRESH * (thr + 1) as f64 + (1.0 + n as f64).sqrt() * fft_err(n, 1, 0.0);
    let bottom = trace_err(n, c.kb, c.kl, FRESH, cmp);
    let rows = ext_err(n, c.nb, c.nl, FRESH, n as f64, bottom).max(bottom);
    let mut e = 0.0;
    for _ in 0..depth {
        e += ext_err(n, c.b, c.l, rows, 1.0, e);
    }
    e * leaves as f64
}
/// Evaluate under encryption for every given feature vector.
fn check_enc(c: &Cfg, t: &T, features: &[Vec<usize>]) {
    let mut max_thr = vec![];
    t.dfs(&mut max_thr);
    let thr = max_thr.iter().map(|x| x.0).max().unwrap_or(0);
    // rings up to that of the default parameters, with these parameters: far from the limit,
    // although the worst case is not
    let default = c.n >= 256 && (c.b, c.l, c.kb, c.kl, c.nb, c.nl) == (5, 9, 5, 11, 5, 11) && t.depth() <= 8;
    if !default && tree_bound(c, thr, t.depth(), t.leaves().max(1)) >= delta(c.t) as f64 / 2.0 {
        skip();
    }
    let mut ctx = c.ctx();
    let sk = ctx.gen_rlwe_sk();
    let neg_s = must("neg_gsw", || sk.neg_gsw(&mut ctx));
    let ksk = must("gen_all_subs_ksk_fourier", || gen_all_subs_ksk_fourier(&sk, &mut ctx));
    let node = t.node().unwrap();
    let flat = must("flatten", || node.flatten());
    for f in features {
        let cts = must("encrypt_feature_vector", || encrypt_feature_vector(&sk, f, &mut ctx));
        ensure!(cts.len() == f.len(), "{} encrypted features for {}", cts.len(), f.len());
        let root = must("compare_expand and EncNode::new", || {
            let mut bits = compare_expand(&flat, &cts, &neg_s, &ksk, &ctx);
            EncNode::new(&node, &mut bits)
        });
        let ml = must("max_leaf", || root.max_leaf());
        ensure!(ml == t.max_label(), "max_leaf of {t:?} is {ml}");
        let mut buf = ctx.gen_fft_ctx();
        let out = must("EncNode::eval", || root.eval(&ctx, &mut buf));
        let mut label = 0usize;
        for (k, y) in out.iter().enumerate() {
            match decode(&sk, y, &ctx)[0] {
                0 => {}
                1 if k < 64 => label |= 1 << k,
                v => fail(format!("{t:?} on {f:?}: output bit {k} decrypts to {v}")),
            }
        }
        let want = t.eval(f);
        ensure!(label == want, "{t:?} on {f:?}: the encrypted result is {label}, must be {want}");
        step();
        state(&(c, t, f));
    }
}

/// A subtree whose shape is enumerated; node k compares feature k, leaves have distinct labels
/// (`missing` 1, 2: every second, every third leaf is missing or 0).
fn shape(depth: usize, missing: usize, n: usize, next: &mut (usize, usize)) -> T {
    if depth == 0 || choose(2) == 0 {
        next.1 += 1;
        return match missing {
            1 if next.1 % 2 == 0 => No,
            2 if next.1 % 3 == 0 => L(0),
            3 if next.1 % 7 != 1 => No,
            _ => L(next.1),
        };
    }
    let k = next.0;
    next.0 += 1;
    let l = shape(depth - 1, missing, n, next);
    let r = shape(depth - 1, missing, n, next);
    inn((3 * k + 1) % (n - 1), k, l, r)
}
fn full(depth: usize, n: usize, next: &mut (usize, usize)) -> T {
    if depth == 0 {
        next.1 += 1;
        return L(next.1);
    }
    let k = next.0;
    next.0 += 1;
    let l = full(depth - 1, n, next);
    let r = full(depth - 1, n, next);
    inn((3 * k + 1) % (n - 1), k, l, r)
}
pub fn c10() {
    let c8 = [
        cfg(8, 5, 9, 5, 11, 5, 11, 256),
        cfg(8, 6, 7, 4, 13, 7, 8, 2),
        cfg(16, 4, 10, 5, 10, 4, 13, 4),
        cfg(8, 9, 5, 3, 18, 6, 9, 2),
    ];
    pool(1, 0, 0);
    match choose(11) {
        9 => {
            scenario("trees of many nodes under encryption");
            let d = pick(by_tier(&[6usize, 7, 8, 10][..], &[6, 7, 8, 9, 10, 11][..]));
            let c = cfg(8, 5, 9, 5, 11, 5, 11, 2);
            let mut next = (0, 0);
            let mut t = full(d, c.n, &mut next);
            if choose(2) == 1 {
                t = inn(2, next.0, L(3), inn(4, next.0 + 1, t, No));
            }
            note(|| format!("{c:?} depth {}", t.depth()));
            let mut nodes = vec![];
            t.dfs(&mut nodes);
            let k = nodes.len();
            let mut thr = vec![0; next.0 + 2];
            nodes.iter().for_each(|x| thr[x.1] = x.0);
            let fs: Vec<Vec<usize>> = (0..by_tier(12, 40))
                .map(|m: usize| (0..next.0 + 2).map(|f| {
                    let right = if f >= next.0 { f == next.0 } else { match m { 0 => false, 1 => true, _ => (f * m / 2 + f / 3 + m) % 2 == 1 } };
                    if right { thr[f] + 1 } else { thr[f] }
                }).collect())
                .collect();
            ensure!(k >= next.0, "harness: nodes");
            check_enc(&c, &t, &fs);
        }
        10 => {
            scenario("simulate many inputs");
            let (count, par, w) = pick(by_tier(&[(9usize, true, 2usize), (17, true, 3), (20, false, 1)][..], &[(9, true, 2), (17, true, 3), (33, true, 4), (65, true, 8), (130, true, 3), (40, false, 1)][..]));
            let t = inn(9, 1, inn(40, 0, L(1), L(2)), L(4));
            pool(w, 1, 0);
            note(|| format!("{count} inputs, parallel={par} workers={w}"));
            let fs: Vec<Vec<usize>> = (0..count).map(|k| vec![k * 5 % 80, (k * k + k / 2) % 17]).collect();
            let node = t.node().unwrap();
            let r = must("simulate", || simulate(&node, &fs, par));
            let want: Vec<u64> = fs.iter().map(|f| t.eval(f) as u64).collect();
            ensure!(r.predictions == want, "predictions {:?}, must be {want:?}", r.predictions);
            ensure!(r.input_count == fs.len(), "input_count {}", r.input_count);
            step();
            state(&(count, par, w));
        }
        8 => {
            scenario("trees whose nodes compare every one of several features with every one of several thresholds");
            let n = pick(by_tier(&[16usize, 512][..], &[16, 64, 512, 1024][..]));
            let c = cfg(n, 5, 9, 5, 11, 5, 11, 2);
            let half = n / 2;
            let thrs = pick(&[[0usize, 1, half, half - 1, half / 2, half / 2 - 1, n - 2, 3], [half, half + 1, half / 2, 2, 4, 5, half + half / 2, 0]]);
            let nf = 4;
            let turn = choose(2);
            // every pair once, along a full tree of depth 5; a missing node or two does not matter
            let mut combos: Vec<(usize, usize)> = (0..nf).flat_map(|f| thrs.iter().map(move |t| (*t, f))).collect();
            if turn == 1 {
                combos = (0..32).map(|k| combos[k * 7 % 32]).collect();
            }
            let mut k = 0;
            fn build(d: usize, k: &mut usize, combos: &[(usize, usize)]) -> T {
                if d == 0 {
                    return L(1 + *k);
                }
                let (t, f) = combos[*k];
                *k += 1;
                let l = build(d - 1, k, combos);
                let r = build(d - 1, k, combos);
                inn(t, f, l, r)
            }
            let t = build(5, &mut k, &combos);
            let which = choose(6);
            let f: Vec<usize> = (0..nf).map(|f| match which {
                0 => [0, half, n - 1, 1][f],
                1 => [half, 0, half - 1, n - 1][f],
                2 => [half / 2, n - 1, 0, half][f],
                3 => [n - 1, 1, half + 1, 0][f],
                4 => (f * (n / 5) + 1) % n,
                _ => (n - 1 - f * (n / 4)) % n,
            }).collect();
            note(|| format!("{c:?} thresholds {thrs:?} order {turn} features {f:?}"));
            check_enc(&c, &t, &[f.clone()]);
            // the decision of every node on its own
            let mut ctx = c.ctx();
            let sk = ctx.gen_rlwe_sk();
            let neg_s = must("neg_gsw", || sk.neg_gsw(&mut ctx));
            let ksk = must("gen_all_subs_ksk_fourier", || gen_all_subs_ksk_fourier(&sk, &mut ctx));
            let flat = t.node().unwrap().flatten();
            let cts = must("encrypt_feature_vector", || encrypt_feature_vector(&sk, &f, &mut ctx));
            let bits: Vec<_> = must("compare_expand", || compare_expand(&flat, &cts, &neg_s, &ksk, &ctx).collect());
            ensure!(bits.len() == 31, "{} comparisons for 31 nodes", bits.len());
            let one = inn(0, 0, L(1), L(0)).node().unwrap();
            for (k, bit) in bits.into_iter().enumerate() {
                let root = must("EncNode::new", || EncNode::new(&one, &mut std::iter::once(bit)));
                let mut buf = ctx.gen_fft_ctx();
                let out = must("EncNode::eval", || root.eval(&ctx, &mut buf));
                let got: Vec<u64> = out.iter().map(|y| decode(&sk, y, &ctx)[0]).collect();
                let want = (f[flat[k].feature] <= flat[k].threshold) as u64;
                ensure!(got == [want], "node {k} (feature {} against {}) on {f:?} decides {got:?}, must be {want}", flat[k].feature, flat[k].threshold);
                step();
            }
            state(&(n, thrs, turn, which));
        }
        0 => {
            scenario("one node: every threshold, feature value and pair of children");
            let c = pick(&c8[..by_tier(3, 4)]);
            let thr = choose(c.n);
            let l = pick(&[No, L(0), L(1), L(5)]);
            let r = pick(&[No, L(0), L(2), L(6)]);
            let t = inn(thr, 0, l, r);
            note(|| format!("{c:?} {t:?}"));
            check_enc(&c, &t, &grid(1, &(0..c.n).collect::<Vec<_>>()));
        }
        1 => {
            scenario("all trees of depth at most 2 with fixed root");
            let c = c8[0];
            let labels = by_tier(&[No, L(0), L(1), L(6)][..], &[No, L(0), L(1), L(6)][..]);
            let (thr, feat): (&[usize], &[usize]) = (by_tier(&[1][..], &[1, 5][..]), by_tier(&[1][..], &[0, 1][..]));
            let l = any(1, thr, feat, labels);
            let r = any(1, thr, feat, labels);
            let t = inn(2, 0, l, r);
            note(|| format!("{t:?}"));
            check_enc(&c, &t, &grid(2, by_tier(&[1, 2, 3][..], &[1, 2, 3, 5, 6][..])));
        }
        2 => {
            scenario("depth 3 shapes");
            let c = pick(&c8[..2]);
            let labels = [No, L(3)];
            let t = inner(3, &[3], &[0], &labels);
            note(|| format!("{c:?} {t:?}"));
            // every inner node shares threshold and feature: two reachable leaves
            check_enc(&c, &t, &grid(1, &[3, 4]));
        }
        3 => {
            scenario("chains with distinct features");
            let c = pick(&[c8[0], c8[2]]);
            let d = 1 + choose(by_tier(8, 16));
            let turn = choose(4);
            let side: Vec<usize> = (0..2).map(|_| choose(3)).collect();
            let t = line(d, turn, &side, c.n);
            note(|| format!("{c:?} {t:?}"));
            check_enc(&c, &t, &grid(3, by_tier(&[0, 7][..], &[0, 3, 7][..])));
        }
        6 => {
            scenario("every shape of depth at most 3 (and full ones beyond), every node with its own comparison, every combination of decisions");
            let big = choose(2) == 1;
            let c = if big { c8[1] } else { pick(&c8[..2]) };
            let mut next = (0, 0);
            // threshold of node k: distinct features, the thresholds run through the ring
            let t = if big {
                let d = pick(by_tier(&[4usize, 5][..], &[4, 5, 6, 7][..]));
                full(d, c.n, &mut next)
            } else {
                let missing = choose(3);
                shape(3, missing, c.n, &mut next)
            };
            if !matches!(t, I(..)) {
                skip();
            }
            note(|| format!("{c:?} {t:?}"));
            let mut nodes = vec![];
            t.dfs(&mut nodes);
            let k = nodes.len();
            // all decisions of small trees; every leaf and some more of large ones
            let fs: Vec<Vec<usize>> = (0..if big { t.leaves() } else { 1 << k })
                .map(|m| {
                    let mut path = vec![false; k];
                    if big {
                        let depth = t.depth();
                        (0..k).for_each(|i| path[i] = (m + i) % 3 == 0);
                        let mut at = 0;
                        for level in 0..depth {
                            let right = m >> (depth - 1 - level) & 1 == 1;
                            path[at] = right;
                            at += if right { 1 << (depth - 1 - level) } else { 1 };
                        }
                    } else {
                        (0..k).for_each(|i| path[i] = m >> i & 1 == 1);
                    }
                    (0..k)
                        .map(|i| {
                            let thr = nodes[i].0;
                            if path[i] { (thr + 1 + m % (c.n - 1 - thr)).min(c.n - 1) } else { (thr + m) % (thr + 1) }
                        })
                        .collect()
                })
                .collect();
            check_enc(&c, &t, &fs);
        }
        7 => {
            scenario("large rings: thresholds around every power of two, several features");
            let n = pick(by_tier(&[512usize, 2048][..], &[256, 512, 1024, 2048][..]));
            let c = cfg(n, 5, 9, 5, 11, 5, 11, pick(&[2, 256]));
            let (a, b, d, e) = pick(&[(0usize, 256usize, 512usize, 255usize), (255, 0, 511, 256), (64, 128, 1, 300), (2, 129, 257, 258), (1023, 1024, 1025, 2046), (1535, 1536, 2045, 1700)]);
            let at = |v: usize| v % (n - 1);
            let t = inn(at(a), 0, inn(at(b), 1, L(1), L(2)), inn(at(d), 2, inn(at(e), 1, L(4), No), L(8)));
            note(|| format!("{c:?} {t:?}"));
            let up = |v: usize| at(v) + 1;
            // node 2 compares feature 2, node 3 feature 1
            let fs = vec![
                vec![at(a), at(b), 0], vec![at(a), up(b), at(d)], vec![up(a), at(e), at(d)], vec![up(a), up(e), at(d)], vec![n - 1, n - 1, n - 1],
            ];
            check_enc(&c, &t, &fs);
        }
        4 => {
            scenario("large labels");
            let c = pick(&c8[..2]);
            let big = [1usize << 49, (1 << 49) - 1, 1 << 52, 1 << 53, (1 << 53) + 1, 1 << 62, 1 << 63, usize::MAX, usize::MAX - 1, 255, 256];
            let t = inn(3, 0, pick(&[L(0), L(1), No, L(usize::MAX)]), inn(5, 0, L(pick(&big)), L(pick(&[0, 7]))));
            note(|| format!("{c:?} {t:?}"));
            check_enc(&c, &t, &grid(1, &[0, 3, 4, 5, 6, 7]));
        }
        _ => {
            scenario("simulate, serially and in parallel (N=2048)");
            let t = pick(by_tier(
                &[
                    inn(2, 0, inn(2, 1, L(0), inn(3, 1, L(10), No)), L(1 << 49)),
                    inn(2047, 1, L(0), No),
                ][..],
                &[
                    inn(2, 0, inn(2, 1, L(0), inn(3, 1, L(10), No)), L(1 << 49)),
                    inn(2047, 1, L(0), No),
                    inn(0, 0, inn(5, 1, L(1), L(2)), inn(5, 1, L(3), L(usize::MAX))),
                ][..],
            ));
            let par = choose(2) == 1;
            let (w, p) = if par { pick(&[(1usize, 0u8), (3, 2)]) } else { (2, 1) };
            pool(w, p, 0);
            note(|| format!("{t:?} parallel={par} workers={w} policy={p}"));
            let fs = by_tier(vec![vec![3usize, 0], vec![2, 3], vec![0, 2047]], vec![vec![3, 0], vec![2, 3], vec![0, 2047], vec![2047, 5], vec![0, 6]]);
            let node = t.node().unwrap();
            let r = must("simulate", || simulate(&node, &fs, par));
            let want: Vec<u64> = fs.iter().map(|f| t.eval(f) as u64).collect();
            ensure!(r.predictions == want, "predictions {:?}, must be {want:?}", r.predictions);
            ensure!(r.input_count == fs.len(), "input_count {}", r.input_count);
            let none = must("simulate of nothing", || simulate(&node, &vec![], par));
            ensure!(none.predictions.is_empty() && none.input_count == 0, "predictions for no input");
            step();
            state(&(t, par, w));
        }
    }
}
pub fn c10_bounds() -> String {
    format!("{} settings with N=8 and 16; single nodes with every threshold, feature value and 16 pairs of children; every tree of depth at most 2 below a fixed root over {} inner kinds and leaves missing/0/1/6; every depth-3 shape with missing or labelled leaves; chains of up to {} nodes; labels up to 2^64-1; every shape of depth at most 3 with a comparison of its own at every node and every combination of decisions, full trees of depth up to {} with every leaf reached; all 32 pairs of four features and eight thresholds as nodes of one tree, every comparison checked on its own, rings 16 and 512; rings up to 2048 with thresholds around powers of two; full trees of up to {} nodes; simulate with N=2048 on up to {} inputs, and on {} trees, serial and parallel with three pool behaviours", by_tier(3, 4), by_tier(1, 4), by_tier(8, 16), by_tier(5, 7), by_tier(1025, 2049), by_tier(20, 130), by_tier(2, 3))
}
