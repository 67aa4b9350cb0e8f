//! C33: what a tree simulation reports.
use crate::common::*;
use crate::tree::T::{self, *};
use panacea::decision_tree::*;
use panacea::params::TFHEParameters;
use std::time::{Duration, Instant};

fn inn(t: usize, f: usize, l: T, r: T) -> T {
    I(t, f, Box::new((l, r)))
}
/// The values of `name=value, name=(a,b), ...` in order.
fn fields(s: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    let mut rest = s.trim();
    while !rest.is_empty() {
        let Some(e) = rest.find('=') else { fail(format!("the line {s:?} has a part without a name: {rest:?}")) };
        let (name, tail) = (rest[..e].trim(), &rest[e + 1..]);
        let end = if tail.starts_with('(') { tail.find(')').map_or(tail.len(), |x| x + 1) } else { tail.find(',').unwrap_or(tail.len()) };
        v.push((name.to_string(), tail[..end].split_whitespace().collect()));
        rest = tail[end..].trim_start_matches([',', ' ']);
    }
    v
}
/// The line must give every field of the result under its name.
fn line(r: &SimulationResult, what: &str) {
    let s = must("the printed line", || r.to_string());
    let f = fields(&s);
    let want = [
        ("input_count", r.input_count.to_string()),
        ("setup_duration", format!("{:?}", r.setup_duration)),
        ("server_duration", format!("{:?}", r.server_duration)),
        ("q", "64".into()),
        ("poly_size", r.poly_size.0.to_string()),
        ("log_std", String::new()),
        ("default_decomp", format!("({},{})", r.base_log.0, r.level_count.0)),
        ("ks_decomp", format!("({},{})", r.ks_base_log.0, r.ks_level_count.0)),
        ("negs_decomp", format!("({},{})", r.negs_base_log.0, r.negs_level_count.0)),
    ];
    for (name, w) in &want {
        let got: Vec<&String> = f.iter().filter(|x| x.0 == *name).map(|x| &x.1).collect();
        ensure!(got.len() == 1, "{what}: the line {s:?} has {} values for {name}", got.len());
        if *name == "log_std" {
            ensure!(got[0].parse() == Ok(r.std.0), "{what}: the line {s:?} has the deviation {}, must be {}", got[0], r.std.0);
        } else {
            ensure!(got[0] == w, "{what}: the line {s:?} has {name}={}, must be {w}", got[0]);
        }
    }
}
/// The settings of the result are those of `p`.
fn settings(r: &SimulationResult, p: &TFHEParameters, what: &str) {
    let got = [r.poly_size.0, r.base_log.0, r.level_count.0, r.ks_base_log.0, r.ks_level_count.0, r.negs_base_log.0, r.negs_level_count.0];
    let want = [p.polynomial_size, p.base_log, p.level_count, p.key_switch_base_log, p.key_switch_level_count, p.negs_base_log, p.negs_level_count];
    ensure!(got == want, "{what}: reported ring and decompositions {got:?}, used were {want:?}");
    ensure!(r.std.0 == p.standard_deviation, "{what}: reported deviation 2^{}, used was 2^{}", r.std.0, p.standard_deviation);
}
pub fn c33() {
    match choose(3) {
        0 => {
            scenario("a result made from every combination of settings");
            let n = pick(&[8usize, 64, 2048]);
            let std = pick(&[-55.0f64, -62.5, -90.0, -20.25]);
            let (b, l) = pick(&[(5usize, 9usize), (1, 40), (20, 2)]);
            let (kb, kl) = pick(&[(5usize, 11usize), (4, 3), (9, 6)]);
            let (nb, nl) = pick(&[(5usize, 11usize), (7, 8), (25, 1)]);
            let mut p = cfg(n, b, l, kb, kl, nb, nl, 4).params();
            p.standard_deviation = std;
            note(|| format!("{p:?}"));
            let ctx = panacea::context::Context::new(p.clone());
            let times = [0u64, 1, 999, 1_000, 1_500_000, 123_456_789, 1_000_000_000, 61_000_000_007, 3_600_000_000_000];
            for (i, a) in times.iter().enumerate() {
                for (j, b) in times.iter().enumerate() {
                    let count = [0usize, 1, 2, 10, 1000, usize::MAX][(i + j) % 6];
                    let pred: Vec<u64> = words(i * j % 5, 7 + i as u64);
                    let (a, b) = (Duration::from_nanos(*a), Duration::from_nanos(*b));
                    let r = must("SimulationResult::new", || SimulationResult::new(count, a, b, pred.clone(), &ctx));
                    let what = format!("{count} inputs, {a:?}, {b:?}");
                    ensure!(r.input_count == count && r.setup_duration == a && r.server_duration == b && r.predictions == pred, "{what}: the fields are {}, {:?}, {:?}, {:?}", r.input_count, r.setup_duration, r.server_duration, r.predictions);
                    settings(&r, &p, &what);
                    line(&r, &what);
                    step();
                }
            }
            state(&(n, std.to_bits(), b, kb, nb));
        }
        1 => {
            scenario("simulations of every small tree and number of inputs");
            let t = pick(by_tier(
                &[inn(5, 1, No, No), inn(0, 0, L(3), No), inn(2047, 1, No, L(1 << 40)), inn(7, 0, inn(9, 1, L(1), L(2)), L(4))][..],
                &[inn(5, 1, No, No), inn(5, 1, L(0), L(0)), inn(1, 0, L(3), L(usize::MAX)), inn(0, 0, L(3), No), inn(2047, 1, No, L(1 << 40)), inn(7, 0, inn(9, 1, L(1), L(2)), L(4)), inn(7, 1, L(6), inn(9, 0, L(1), L(2)))][..],
            ));
            let count = choose(by_tier(3, 5));
            let par = choose(2) == 1;
            let (w, policy) = if par { pick(&[(1usize, 0u8), (2, 2), (4, 1)]) } else { (1, 1) };
            pool(w, policy, 0);
            // different inputs; equal ones, next to each other and apart
            let same = if count > 1 { choose(2) * (count - 1) } else { 0 };
            let fs: Vec<Vec<usize>> = (0..count).map(|k| if same > 0 { k % same } else { k }).map(|k| vec![(k * 1021 + 7) % 2048, (k * 5 + 9) % 2048]).collect();
            let node = t.node().unwrap();
            note(|| format!("{t:?} {fs:?} parallel={par} workers={w}"));
            let before = format!("{:?}", fs);
            let start = Instant::now();
            let r = must("simulate", || simulate(&node, &fs, par));
            let all = start.elapsed();
            let what = format!("{t:?} {fs:?}");
            ensure!(r.input_count == count, "{what}: input_count is {}", r.input_count);
            let want: Vec<u64> = fs.iter().map(|f| t.eval(f) as u64).collect();
            ensure!(r.predictions == want, "{what}: predictions {:?}, must be {want:?}", r.predictions);
            ensure!(before == format!("{:?}", fs) && T::of(&Some(node)) == t, "the inputs were changed");
            settings(&r, &TFHEParameters::default(), &what);
            line(&r, &what);
            ensure!(r.setup_duration + r.server_duration <= all, "{what}: {:?} for setting up and {:?} for serving, in a run of {all:?}", r.setup_duration, r.server_duration);
            step();
            state(&(t, count, par, w, policy));
        }
        _ => {
            scenario("the durations are those of their phases");
            // a phase without work takes next to nothing, one with work most of the rest; what
            // the machine does besides can spoil single runs
            let (t, count) = pick(&[(inn(5, 1, L(1), L(2)), 0), (inn(5, 1, No, L(7)), 1usize), (inn(7, 0, inn(9, 1, L(1), L(2)), inn(3, 0, L(3), L(4))), 2)]);
            let par = choose(2) == 1;
            pool(1, 0, 0);
            let node = t.node().unwrap();
            let fs: Vec<Vec<usize>> = (0..count).map(|k| vec![5 + k, 9]).collect();
            note(|| format!("{t:?} {fs:?} parallel={par}"));
            let idle = count == 0;
            let mut why = String::new();
            for _ in 0..12 {
                let start = Instant::now();
                let r = must("simulate", || simulate(&node, &fs, par));
                let all = start.elapsed();
                let (s, v) = (r.setup_duration, r.server_duration);
                let rest = all.saturating_sub(s);
                why = if s + v > all {
                    fail(format!("setting up took {s:?} and serving {v:?}, in a run of {all:?}"))
                } else if idle && v * 4 > s {
                    format!("nothing was compared, but serving took {v:?} and setting up {s:?}")
                } else if idle && s * 2 < all {
                    format!("keys and features took only {s:?} of {all:?}, and nothing was compared")
                } else if !idle && v * 2 < rest {
                    format!("serving took only {v:?} of the {rest:?} after setting up")
                } else if !idle && s * 2 < all.saturating_sub(v) {
                    format!("setting up took only {s:?} of the {:?} before serving", all.saturating_sub(v))
                } else {
                    String::new()
                };
                if why.is_empty() {
                    break;
                }
            }
            ensure!(why.is_empty(), "{t:?} {fs:?}, twelve times: {why}");
            step();
            state(&(t, count, par));
        }
    }
}
pub fn c33_bounds() -> String {
    format!("results made from all 324 combinations of three rings, four deviations and three settings of each decomposition, with 81 pairs of durations; simulations (N=2048) of {} trees with 0 to {} inputs, some of them equal, serial and parallel with three pool behaviours; every field and every value of the printed line; durations against the clock", by_tier(4, 7), by_tier(2, 4))
}
