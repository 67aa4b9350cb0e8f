//! C20 (parameters) and C25 (the experiment program), on the program built from /repo/src/main.rs.
use crate::common::*;
use crate::oram::supported;
use panacea::params::{InputParamsList, ORAMParameters, ServerParams, TFHEParameters};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Out {
    ok: bool,
    code: String,
    lines: Vec<String>,
    err: String,
}
fn program() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("panacea_cli")
}
fn run(args: &[String], env: &[(&str, String)]) -> Out {
    run_in(Path::new("."), args, env)
}
fn run_in(dir: &Path, args: &[String], env: &[(&str, String)]) -> Out {
    let o = Command::new(program())
        .current_dir(dir)
        .args(args)
        .env_remove("VERIF_RAND_SEED")
        .env_remove("VERIF_POOL")
        .envs(env.iter().map(|(k, v)| (*k, v.as_str())))
        .stdin(Stdio::null())
        .output()
        .expect("harness: cannot run the program");
    Out {
        ok: o.status.success(),
        code: format!("{:?}", o.status),
        lines: String::from_utf8_lossy(&o.stdout).lines().map(String::from).collect(),
        err: String::from_utf8_lossy(&o.stderr).lines().take(3).collect::<Vec<_>>().join(" | "),
    }
}

/// Reference: the TFHE settings.
#[derive(Clone, Debug, PartialEq)]
struct Tf {
    sd: f64,
    n: usize,
    d: [usize; 6],
    t: u64,
    secure: bool,
}
const TF: Tf = Tf { sd: -55.0, n: 2048, d: [5, 9, 5, 11, 5, 11], t: 256, secure: true };
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Or {
    S(usize, usize),
    M(usize, usize, usize),
    B(usize, usize, usize),
}
use Or::*;
const NAMES: [&str; 6] = ["base_log", "level_count", "key_switch_base_log", "key_switch_level_count", "negs_base_log", "negs_level_count"];
impl Tf {
    fn json(&self) -> String {
        let d: Vec<String> = NAMES.iter().zip(self.d).map(|(k, v)| format!("\"{k}\":{v}")).collect();
        format!("{{\"standard_deviation\":{:?},\"polynomial_size\":{},{},\"plaintext_modulus\":{},\"secure_seed\":{}}}", self.sd, self.n, d.join(","), self.t, self.secure)
    }
    fn of(p: &TFHEParameters) -> Tf {
        Tf {
            sd: p.standard_deviation,
            n: p.polynomial_size,
            d: [p.base_log, p.level_count, p.key_switch_base_log, p.key_switch_level_count, p.negs_base_log, p.negs_level_count],
            t: p.plaintext_modulus,
            secure: p.secure_seed,
        }
    }
    fn real(&self) -> TFHEParameters {
        TFHEParameters {
            standard_deviation: self.sd,
            polynomial_size: self.n,
            base_log: self.d[0],
            level_count: self.d[1],
            key_switch_base_log: self.d[2],
            key_switch_level_count: self.d[3],
            negs_base_log: self.d[4],
            negs_level_count: self.d[5],
            plaintext_modulus: self.t,
            secure_seed: self.secure,
        }
    }
}
impl Or {
    fn json(&self) -> String {
        match self {
            S(i, k) => format!("{{\"SingleQuery\":{{\"item_count\":{i},\"iterations\":{k}}}}}"),
            M(i, q, k) => format!("{{\"MultiQuery\":{{\"item_count\":{i},\"query_count\":{q},\"iterations\":{k}}}}}"),
            B(r, c, k) => format!("{{\"Batched\":{{\"rows\":{r},\"cols\":{c},\"iterations\":{k}}}}}"),
        }
    }
    fn of(p: &ORAMParameters) -> Or {
        match *p {
            ORAMParameters::SingleQuery { item_count, iterations } => S(item_count, iterations),
            ORAMParameters::MultiQuery { item_count, query_count, iterations } => M(item_count, query_count, iterations),
            ORAMParameters::Batched { rows, cols, iterations } => B(rows, cols, iterations),
        }
    }
    fn real(&self) -> ORAMParameters {
        match *self {
            S(item_count, iterations) => ORAMParameters::SingleQuery { item_count, iterations },
            M(item_count, query_count, iterations) => ORAMParameters::MultiQuery { item_count, query_count, iterations },
            B(rows, cols, iterations) => ORAMParameters::Batched { rows, cols, iterations },
        }
    }
    fn items(&self) -> usize {
        match self {
            S(i, _) | M(i, _, _) => *i,
            B(r, c, _) => r * c / 3,
        }
    }
    fn iterations(&self) -> usize {
        match self {
            S(_, k) | M(_, _, k) | B(_, _, k) => *k,
        }
    }
}
const HEADER: [&str; 20] = [
    "standard_deviation", "polynomial_size", "base_log", "level_count", "key_switch_base_log", "key_switch_level_count", "negs_base_log",
    "negs_level_count", "plaintext_modulus", "secure_seed", "mode", "item_count", "query_count", "rows", "cols", "n", "setup_duration",
    "server_duration", "response_duration", "final_noise",
];
fn floor_log(x: u64) -> String {
    format!("2^{}", 63 - x.leading_zeros())
}
/// The value of every column that reports a setting.
fn columns(o: &Or, t: &Tf) -> Vec<String> {
    let mut v = vec![format!("{}", t.sd), t.n.to_string()];
    v.extend(t.d.iter().map(|x| x.to_string()));
    v.push(floor_log(t.t));
    v.push(t.secure.to_string());
    let dash = || "-".to_string();
    match o {
        S(i, _) => v.extend(["0".into(), i.to_string(), dash(), dash(), dash()]),
        M(i, q, _) => v.extend(["1".into(), i.to_string(), q.to_string(), dash(), dash()]),
        B(r, c, _) => v.extend(["2".into(), (r * c / 3).to_string(), dash(), r.to_string(), c.to_string()]),
    }
    v.push(floor_log(o.items() as u64));
    v
}
fn same_value(got: &str, want: &str) -> bool {
    got == want || matches!((got.parse::<f64>(), want.parse::<f64>()), (Ok(a), Ok(b)) if a == b)
}
fn check_header(o: &Out, ctx: &str) {
    ensure!(!o.lines.is_empty(), "{ctx}: no output ({}; {})", o.code, o.err);
    let h: Vec<&str> = o.lines[0].split(',').collect();
    ensure!(h == HEADER, "{ctx}: header {}", o.lines[0]);
}
fn check_line(line: &str, o: &Or, t: &Tf, ctx: &str) -> Vec<String> {
    let v: Vec<String> = line.split(',').map(String::from).collect();
    ensure!(v.len() == HEADER.len(), "{ctx}: {} values for {} columns: {line}", v.len(), HEADER.len());
    for (k, want) in columns(o, t).iter().enumerate() {
        ensure!(same_value(&v[k], want), "{ctx}: column {} is {}, must be {want} ({line})", HEADER[k], v[k]);
    }
    v
}
/// A dry run must report exactly these settings.
fn check_dry(args: &[String], want: &[(Or, Tf)]) {
    check_dry_in(Path::new("."), args, want)
}
fn check_dry_in(dir: &Path, args: &[String], want: &[(Or, Tf)]) {
    let ctx = format!("{args:?}");
    let o = run_in(dir, args, &[]);
    ensure!(o.ok, "{ctx}: {} {}", o.code, o.err);
    check_header(&o, &ctx);
    ensure!(o.lines.len() == want.len() + 1, "{ctx}: {} lines for {} settings", o.lines.len() - 1, want.len());
    for (l, (or, tf)) in o.lines[1..].iter().zip(want) {
        let v = check_line(l, or, tf, &ctx);
        ensure!(v[16..].iter().all(|x| x == "-"), "{ctx}: a dry run reports results: {l}");
    }
    step();
}
fn file(name: &str, text: &[u8]) -> PathBuf {
    let t = format!("{:?}", std::thread::current().id());
    let p = crate::small::scratch().join(format!("{name}-{}.json", t.chars().filter(|c| c.is_ascii_digit()).collect::<String>()));
    std::fs::write(&p, text).unwrap();
    p
}
fn s(x: &str) -> String {
    x.to_string()
}

// ---------------------------------------------------------------------- C20
const OPTS: [&str; 15] = [
    "mode", "item-count", "query-count", "rows", "cols", "standard-deviation", "polynomial-size", "base-log", "level-count", "key-switch-base-log",
    "key-switch-level-count", "negs-base-log", "negs-level-count", "plaintext-modulus", "secure-seed",
];
struct Cmd {
    mode: usize,
    items: usize,
    queries: usize,
    rows: usize,
    cols: usize,
    t: Tf,
}
fn values(o: &str) -> Vec<String> {
    let v: Vec<&str> = match o {
        "mode" => vec!["0", "1", "2"],
        "item-count" => by_tier(vec!["1", "255", "1099511627776"], vec!["1", "2", "255", "256", "1099511627776", "18446744073709551615"]),
        "rows" | "cols" => by_tier(vec!["3", "2147483648"], vec!["3", "7", "385", "2147483648"]),
        "standard-deviation" => by_tier(vec!["-25.5", "-55.1", "-0.1234567890123"], vec!["-25.5", "0", "-0.125", "-64", "3.5", "-1e-3", "-55.1", "-0.1234567890123"]),
        "plaintext-modulus" => by_tier(vec!["2", "9223372036854775808"], vec!["1", "2", "3", "65536", "9223372036854775808", "18446744073709551615"]),
        "secure-seed" => vec![""],
        _ => by_tier(vec!["0", "13", "4096"], vec!["0", "1", "13", "64", "4096", "18446744073709551615"]),
    };
    v.into_iter().map(String::from).collect()
}
fn apply(c: &mut Cmd, o: &str, v: &str) {
    let u = || v.parse::<u64>().unwrap() as usize;
    match o {
        "mode" => c.mode = u(),
        "item-count" => c.items = u(),
        "query-count" => c.queries = u(),
        "rows" => c.rows = u(),
        "cols" => c.cols = u(),
        "standard-deviation" => c.t.sd = v.parse().unwrap(),
        "polynomial-size" => c.t.n = u(),
        "plaintext-modulus" => c.t.t = u() as u64,
        "secure-seed" => c.t.secure = true,
        _ => {
            let k = NAMES.iter().position(|n| n.replace('_', "-") == o).unwrap();
            c.t.d[k] = u();
        }
    }
}
/// An enumerated command line with at most `max` options besides --dryrun, and its meaning.
fn command(max: usize) -> (Vec<String>, (Or, Tf)) {
    let mut c = Cmd { mode: 2, items: 4096, queries: 1, rows: 96, cols: 64, t: TF };
    let mut args = vec![];
    // the mode decides which of the others count
    let m = choose(4);
    if m < 3 {
        args.push(format!("--mode={m}"));
        c.mode = m;
    }
    let mut from = 1;
    for _ in 0..max {
        let k = choose(OPTS.len() - from + 1);
        if k == 0 {
            break;
        }
        let o = OPTS[from + k - 1];
        from += k;
        let v = pick(&values(o));
        apply(&mut c, o, &v);
        if o == "secure-seed" {
            args.push(format!("--{o}"));
        } else if choose(by_tier(1, 2)) == 0 {
            args.push(format!("--{o}"));
            args.push(v);
        } else {
            args.insert(0, format!("--{o}={v}"));
        }
    }
    let or = match c.mode {
        0 => S(c.items, 1),
        1 => M(c.items, c.queries, 1),
        _ => B(c.rows, c.cols, 1),
    };
    (args, (or, c.t))
}
/// Settings that differ in every field.
fn tf(k: usize) -> Tf {
    Tf { sd: -20.25 - k as f64, n: 64 << k, d: [k + 2, k + 13, k + 24, k + 35, k + 46, k + 57], t: 2 << k, secure: k % 2 == 0 }
}
fn or(k: usize, kind: usize) -> Or {
    match kind {
        0 => S(100 + k, 1 + k),
        1 => M(200 + k, 30 + k, 2 + k),
        _ => B(300 + k, 40 + k, 3 + k),
    }
}
type Entry = (Vec<Or>, Vec<Tf>);
fn list_json(l: &[Entry]) -> String {
    let e: Vec<String> = l
        .iter()
        .map(|(o, t)| {
            let o: Vec<String> = o.iter().map(Or::json).collect();
            let t: Vec<String> = t.iter().map(Tf::json).collect();
            format!("[[{}],[{}]]", o.join(","), t.join(","))
        })
        .collect();
    format!("[{}]", e.join(","))
}
fn product(l: &[Entry]) -> Vec<(Or, Tf)> {
    let mut v = vec![];
    for (os, ts) in l {
        for o in os {
            for t in ts {
                v.push((o.clone(), t.clone()));
            }
        }
    }
    v
}
/// An enumerated parameter list.
fn any_list(entries: usize, os: usize, ts: usize) -> Vec<Entry> {
    let mut k = 0;
    let mut q = 0;
    (0..choose(entries + 1))
        .map(|_| {
            let o = (0..choose(os + 1))
                .map(|_| {
                    k += 1;
                    or(k, choose(3))
                })
                .collect();
            let t = (0..choose(ts + 1))
                .map(|_| {
                    q += 1;
                    tf(q)
                })
                .collect();
            (o, t)
        })
        .collect()
}
fn check_list(l: &[Entry]) {
    let want = product(l);
    let real = || InputParamsList {
        list: l.iter().map(|(o, t)| (o.iter().map(Or::real).collect(), t.iter().map(Tf::real).collect())).collect(),
    };
    let check = |x: InputParamsList, what: &str| {
        let got: Vec<(Or, Tf)> = must(what, || ServerParams::from_input_params_list(x)).iter().map(|p| (Or::of(&p.oram), Tf::of(&p.tfhe))).collect();
        ensure!(got == want, "{what}: {got:?} from {l:?}");
        step();
    };
    check(real(), "from_input_params_list");
    let text = must("to_string", || serde_json::to_string(&real())).unwrap_or_else(|e| fail(format!("{l:?}: {e}")));
    let back: InputParamsList = must("from_str", || serde_json::from_str(&text)).unwrap_or_else(|e| fail(format!("{l:?} does not read back: {e}")));
    check(back, "JSON round trip");
    let mine: InputParamsList = must("from_str", || serde_json::from_str(&list_json(l))).unwrap_or_else(|e| fail(format!("{l:?} is not accepted: {e}")));
    check(mine, "reading JSON");
}
const OVERRIDDEN: [&str; 6] = ["--mode=0", "--item-count=7", "--polynomial-size=16", "--base-log=3", "--standard-deviation=-3.5", "--dryrun"];

/// The entries of a JSON object in reverse order (no nested objects, no commas in values).
fn reversed(obj: &str) -> String {
    let mut f: Vec<&str> = obj[1..obj.len() - 1].split(',').collect();
    f.reverse();
    format!("{{{}}}", f.join(","))
}
/// A text with `sep` after every structural character outside strings.
fn spaced(text: &str, sep: &str) -> String {
    let mut q = false;
    text.chars().fold(s(sep), |mut a, c| {
        if c == '"' {
            q = !q;
        }
        a.push(c);
        if !q && "[]{},:".contains(c) {
            a.push_str(sep);
        }
        a
    })
}

pub fn c20() {
    match choose(13) {
        12 => {
            scenario("command lines with almost all options");
            let skip1 = choose(OPTS.len() + 1);
            let skip2 = choose(OPTS.len() + 1);
            let k = choose(3);
            let rot = choose(OPTS.len());
            let mut c = Cmd { mode: 2, items: 4096, queries: 1, rows: 96, cols: 64, t: TF };
            let mut args = vec![];
            for j in 0..OPTS.len() {
                let x = (j + rot) % OPTS.len();
                if x + 1 == skip1 || x + 1 == skip2 {
                    continue;
                }
                // every numeric option has its own value
                let v = match OPTS[x] {
                    "mode" => k.to_string(),
                    "item-count" => (1000 + k).to_string(),
                    "standard-deviation" => format!("-{}.5", 30 + k),
                    "plaintext-modulus" => (1u64 << (20 + k)).to_string(),
                    _ => (100 * (x + 1) + k).to_string(),
                };
                apply(&mut c, OPTS[x], &v);
                if OPTS[x] == "secure-seed" {
                    args.push(format!("--{}", OPTS[x]));
                } else if k == 1 {
                    args.extend([format!("--{}", OPTS[x]), v]);
                } else {
                    args.push(format!("--{}={v}", OPTS[x]));
                }
            }
            let or = match c.mode {
                0 => S(c.items, 1),
                1 => M(c.items, c.queries, 1),
                _ => B(c.rows, c.cols, 1),
            };
            args.insert(if k == 1 { 0 } else { k }, s("--dryrun"));
            if k != 1 && skip1 == 0 {
                args.push(s("--verbose"));
            }
            note(|| format!("{args:?}"));
            state(&args);
            check_dry(&args, &[(or, c.t)]);
        }
        8 => {
            scenario("parameter files with repeated settings");
            // every entry drawn from two ORAM and two TFHE settings
            let l: Vec<Entry> = (0..1 + choose(2))
                .map(|_| {
                    let m = by_tier(2, 3);
                    let o = (0..1 + choose(m)).map(|_| or(1 + choose(2), 0)).collect();
                    let t = (0..1 + choose(m)).map(|_| tf(1 + choose(2))).collect();
                    (o, t)
                })
                .collect();
            note(|| list_json(&l));
            state(&list_json(&l));
            check_list(&l);
            let p = file("again", list_json(&l).as_bytes());
            check_dry(&[s("--dryrun"), s("--params"), p.display().to_string()], &product(&l));
        }
        9 => {
            scenario("long parameter files");
            let (e, o, t) = pick(&[(1usize, 70usize, 1usize), (1, 1, 70), (1, 40, 9), (70, 1, 1), (12, 5, 7), (1, 300, 3), (300, 1, 1), (3, 11, 33)]);
            let kind = choose(2);
            let l: Vec<Entry> = (0..e)
                .map(|x| {
                    let o = (0..o).map(|y| or(x * o + y, (x + y + kind) % 3)).collect();
                    let t = (0..t)
                        .map(|y| {
                            let mut q = tf((x + y + kind) % 8);
                            q.d[(x + y) % 6] = 1000 + x * t + y;
                            q.sd -= (x * t + y) as f64 * 0.125;
                            q
                        })
                        .collect();
                    (o, t)
                })
                .collect();
            note(|| format!("{e} entries of {o} x {t}"));
            state(&(e, o, t, kind));
            check_list(&l);
            let p = file("long", list_json(&l).as_bytes());
            check_dry(&[s("--dryrun"), s("--params"), p.display().to_string()], &product(&l));
        }
        10 => {
            scenario("forms of JSON text");
            let mut t = tf(choose(2));
            t.sd = pick(&[-41.0, -10.0, -0.5]);
            let o = or(5, choose(3));
            let rev = choose(2) == 1;
            let fix = |x: String| if rev { reversed(&x) } else { x };
            let oj = match &o {
                S(..) | M(..) | B(..) => {
                    let j = o.json();
                    let k = j[1..].find('{').unwrap() + 1;
                    format!("{}{}}}", &j[..k], fix(s(&j[k..j.len() - 1])))
                }
            };
            let sd = match choose(4) {
                0 => format!("{:?}", t.sd),
                1 => format!("{:e}", t.sd),
                2 => format!("{:E}", t.sd),
                _ => format!("{}", t.sd),
            };
            let tj = fix(t.json()).replace(&format!("\"standard_deviation\":{:?}", t.sd), &format!("\"standard_deviation\":{sd}"));
            let text = spaced(&format!("[[[{oj}],[{tj}]]]"), pick(&["", " ", "\n", "\r\n\t", "\n\n    "]));
            note(|| text.clone());
            state(&text);
            let p = file("form", text.as_bytes());
            check_dry(&[s("--dryrun"), s("--params"), p.display().to_string()], &[(o, t)]);
        }
        11 => {
            scenario("names of parameter files");
            let l = vec![(vec![or(6, 1), or(7, 2)], vec![tf(2)])];
            let dir = crate::small::scratch();
            let th: String = format!("{:?}", std::thread::current().id()).chars().filter(|c| c.is_ascii_digit()).collect();
            let sub = dir.join(format!("names-{th}"));
            std::fs::create_dir_all(sub.join("a b")).unwrap();
            let n = pick(&["x.json", "x", "a b/c d.json", "./x.json", "a b/../x.json", "-x.json", "--dryrun", "\u{fc}\u{4e2d}.json", ".x", "x.json.gz", "x.toml", "x,y.json", "x=y.json"]);
            std::fs::write(sub.join(n), list_json(&l)).unwrap();
            let full = choose(2) == 1;
            let path = if full { sub.join(n).display().to_string() } else { s(n) };
            note(|| path.clone());
            state(&(n, full));
            let mut args = OVERRIDDEN.map(s).to_vec();
            args.push(format!("--params={path}"));
            check_dry_in(&sub, &args, &product(&l));
            std::fs::remove_file(sub.join(n)).unwrap();
        }
        0 => {
            scenario("command lines");
            let (mut args, want) = command(by_tier(2, 2));
            args.push(s("--dryrun"));
            note(|| format!("{args:?}"));
            state(&args);
            check_dry(&args, &[want]);
        }
        1 => {
            scenario("parameter files of every shape");
            let l = any_list(2, 2, 2);
            let p = file("shape", list_json(&l).as_bytes());
            note(|| list_json(&l));
            state(&list_json(&l));
            let mut args = vec![s("--params"), p.display().to_string()];
            if choose(by_tier(1, 2)) == 0 {
                args.extend(OVERRIDDEN.map(s));
            } else {
                args.insert(0, s("--dryrun"));
            }
            check_dry(&args, &product(&l));
        }
        2 => {
            scenario("parameter lists of every shape, in memory");
            let l = any_list(by_tier(2, 3), 3, by_tier(3, 2));
            note(|| list_json(&l));
            state(&list_json(&l));
            check_list(&l);
        }
        3 => {
            scenario("every field of a parameter file");
            let mut t = tf(3);
            let mut o = or(4, choose(3));
            let u = pick(&[0usize, 1, 2, 1 << 31, (1 << 53) + 1, usize::MAX]);
            match choose(13) {
                k @ 0..=5 => t.d[k] = u,
                6 => t.n = u,
                7 => t.t = (u as u64).max(1),
                8 => t.sd = pick(&[-55.0, 0.0, -0.5, -1e-7, -123.456, 7.25]),
                9 => t.secure = u == 0,
                10 => match &mut o {
                    S(x, _) | M(x, _, _) => *x = u.max(1),
                    B(x, c, _) => (*x, *c) = (u.clamp(3, 1 << 62), 1),
                },
                11 => match &mut o {
                    S(..) => skip(),
                    M(_, x, _) => *x = u,
                    B(r, x, _) => (*r, *x) = (1, u.clamp(3, 1 << 62)),
                },
                _ => match &mut o {
                    S(_, x) | M(_, _, x) | B(_, _, x) => *x = u.max(1),
                },
            }
            let l = vec![(vec![o], vec![t])];
            note(|| list_json(&l));
            state(&list_json(&l));
            check_list(&l);
            let p = file("field", list_json(&l).as_bytes());
            check_dry(&[s("--dryrun"), format!("--params={}", p.display())], &product(&l));
        }
        4 => {
            scenario("malformed parameter files");
            let good = list_json(&[(vec![or(1, 0), or(2, 1), or(3, 2)], vec![tf(1)])]);
            let kind = choose(3);
            let text: Vec<u8> = match kind {
                // every proper prefix
                0 => good.as_bytes()[..choose(good.len())].to_vec(),
                // every byte replaced by one that cannot be there
                1 => {
                    let mut b = good.clone().into_bytes();
                    let k = choose(b.len());
                    b[k] = pick(by_tier(&[b'\\'][..], &[b'\\', 0, 0xff][..]));
                    b
                }
                _ => {
                    let t = tf(1).json();
                    let o = or(1, 0).json();
                    pick(&[
                        format!("{good}]"),
                        format!("{good} {good}"),
                        "{}".into(),
                        "null".into(),
                        "7".into(),
                        "\"x\"".into(),
                        format!("[[{o},{t}]]"),
                        format!("[[[{o}],[{t}],[]]]"),
                        format!("[[[{o}]]]"),
                        format!("[[[{t}],[{o}]]]"),
                        format!("[[[{o}],[{}]]]", t.replace("\"base_log\"", "\"base_lag\"")),
                        format!("[[[{o}],[{}]]]", t.replace("true", "1").replace("false", "1")),
                        format!("[[[{o}],[{}]]]", t.replace("\"base_log\":3", "\"base_log\":-3")),
                        format!("[[[{o}],[{}]]]", t.replace("\"base_log\":3", "\"base_log\":3.5")),
                        format!("[[[{o}],[{}]]]", t.replace("\"base_log\":3", "\"base_log\":\"3\"")),
                        format!("[[[{}],[{t}]]]", o.replace("SingleQuery", "singlequery")),
                        format!("[[[{}],[{t}]]]", o.replace("iterations", "iteration")),
                        format!("[[[{}],[{t}]]]", o.replace("101", "-101")),
                        format!("[[[{}],[{t}]]]", o.replace("101", "18446744073709551616")),
                    ])
                    .into_bytes()
                }
            };
            note(|| String::from_utf8_lossy(&text).to_string());
            state(&text);
            let p = file("bad", &text);
            let mut args = OVERRIDDEN.map(s).to_vec();
            args.push(format!("--params={}", p.display()));
            check_dry(&args, &[(B(384, 16, 1), TF)]);
        }
        5 => {
            scenario("unreadable parameter files");
            let (mut args, want) = command(1);
            let dir = crate::small::scratch();
            let f = file("plain", b"[]");
            let p = pick(&[
                String::new(),
                dir.join("missing.json").display().to_string(),
                dir.join("nodir/missing.json").display().to_string(),
                f.join("below-a-file").display().to_string(),
                s("no such file.json"),
            ]);
            note(|| format!("{args:?} {p:?}"));
            state(&(&args, &p));
            args.push(s("--dryrun"));
            args.push(format!("--params={p}"));
            check_dry(&args, &[want]);
        }
        6 => {
            scenario("a directory and an empty list as parameter file");
            let (p, want) = if choose(2) == 0 {
                (crate::small::scratch(), vec![(B(384, 16, 1), TF)])
            } else {
                (file("empty", b"[]"), vec![])
            };
            note(|| format!("{p:?}"));
            let mut args = OVERRIDDEN.map(s).to_vec();
            args.push(format!("--params={}", p.display()));
            check_dry(&args, &want);
        }
        _ => {
            scenario("settings reach the context");
            let k = choose(6);
            let c = tf(k);
            note(|| format!("{c:?}"));
            let x = must("Context::new", || Context::new(c.real()));
            let got = Tf {
                sd: x.std.0,
                n: x.poly_size.0,
                d: [x.base_log.0, x.level_count.0, x.ks_base_log.0, x.ks_level_count.0, x.negs_base_log.0, x.negs_level_count.0],
                t: x.codec.pt_modulus(),
                secure: c.secure,
            };
            ensure!(got == c, "the context has {got:?} for {c:?}");
            step();
            state(&k);
            let d = TFHEParameters::default();
            ensure!(Tf::of(&d) == TF, "default settings {:?}", Tf::of(&d));
        }
    }
}
pub fn c20_bounds() -> String {
    format!(
        "the program built from /repo/src/main.rs, dry runs: every mode with every choice of at most two other options over {} values each{}; parameter files with up to 2 entries of up to 2 ORAM (each of three kinds) and 2 TFHE settings, with contradicting command lines; in-memory lists with up to {} entries of up to 3 x {}; every field of a file over boundary values; malformed files: every proper prefix and every byte of a file corrupted, 19 structural faults; unreadable paths with every single option; every option but at most two, in 15 orders; lists of repeated settings; lists of up to 900 settings; fields in both orders with five kinds of white space and four forms of the deviation; 13 file names, absolute and relative; the context built from six settings",
        by_tier("2-3", "4-6"),
        by_tier("", ", both syntaxes"),
        by_tier(2, 3),
        by_tier(3, 2)
    )
}

// ---------------------------------------------------------------------- C25
/// The greedy placement of items 0 and 1 succeeds.
fn placeable(h: &NaiveHash, rows: usize, cols: usize) -> bool {
    let t = table(h);
    let mut used = vec![false; rows];
    (0..2).all(|x| {
        t[x].iter().any(|&v| {
            let r = v / cols;
            r < rows && !std::mem::replace(&mut used[r], true)
        })
    })
}
fn tf_of(c: &Cfg, secure: bool) -> Tf {
    Tf { sd: -55.0, n: c.n, d: [c.b, c.l, c.kb, c.kl, c.nb, c.nl], t: c.t, secure }
}
fn cli_args(o: &Or, t: &Tf) -> Vec<String> {
    let mut v = match o {
        S(i, _) => vec![s("--mode=0"), format!("--item-count={i}")],
        M(i, q, _) => vec![s("--mode=1"), format!("--item-count={i}"), format!("--query-count={q}")],
        B(r, c, _) => vec![s("--mode=2"), format!("--rows={r}"), format!("--cols={c}")],
    };
    v.push(format!("--standard-deviation={}", t.sd));
    v.push(format!("--polynomial-size={}", t.n));
    for (k, x) in NAMES.iter().zip(t.d) {
        v.push(format!("--{}={x}", k.replace('_', "-")));
    }
    v.push(format!("--plaintext-modulus={}", t.t));
    v
}
fn check_real(args: &[String], env: &[(&str, String)], want: &[(Or, Tf)]) {
    let ctx = format!("{args:?} {env:?}");
    let begun = std::time::Instant::now();
    let o = run(args, env);
    let took = begun.elapsed().as_secs_f64();
    ensure!(o.ok, "{ctx} for {want:?}: {} {}", o.code, o.err);
    let mut total = 0.0;
    check_header(&o, &ctx);
    let mut it = o.lines[1..].iter();
    for (or, t) in want {
        let limit = (delta(t.t) as f64 / 2.0).log2();
        let typical = mean_noise(or, t);
        let noise = |x: &str, k: usize| {
            let v: f64 = x.trim().parse().unwrap_or_else(|_| fail(format!("{ctx}: noise {x:?}")));
            ensure!(v.is_finite() && v < limit, "{ctx} for {or:?} {t:?}: noise {v}, limit {limit}");
            // the mean over the answers of that round; that of other random choices is as large
            let m = typical[k];
            // (with secure seeding the keys differ too, which matters much in the smallest rings)
            let tol = if t.secure { 12.0 } else { 5.0 };
            ensure!((v - m).abs() <= tol, "{ctx} for {or:?} {t:?}: the noise of iteration {k} is reported as {v}; over the answers of such a round it is {m}");
        };
        let Some(l) = it.next() else { fail(format!("{ctx}: no result line for {or:?}")) };
        let v = check_line(l, or, t, &ctx);
        for k in 16..19 {
            let d: f64 = v[k].parse().unwrap_or_else(|_| fail(format!("{ctx}: {} is {}", HEADER[k], v[k])));
            ensure!(d.is_finite() && d >= 0.0, "{ctx}: {} is {d}", HEADER[k]);
        }
        let secs: Vec<f64> = v[16..19].iter().map(|x| x.parse().unwrap()).collect();
        total += secs[0] + secs[1];
        ensure!(total <= took + 0.05, "{ctx} for {or:?}: durations {secs:?} in a run of {took} s");
        noise(&v[19], 0);
        for k in 1..or.iterations() {
            let Some(l) = it.next() else { fail(format!("{ctx}: no line for iteration {k} of {or:?}")) };
            ensure!(l.starts_with("###"), "{ctx}: {l:?} instead of iteration {k} of {or:?}");
            let field = |name: &str| l.split([',', ' ']).find_map(|x| x.strip_prefix(name)?.strip_prefix('=')).unwrap_or_else(|| fail(format!("{ctx}: no {name} in {l:?}")));
            ensure!(field("iter") == k.to_string(), "{ctx}: {l:?} for iteration {k}");
            noise(field("noise"), k);
        }
        step();
    }
    if let Some(l) = it.next() {
        fail(format!("{ctx}: further line {l:?}"));
    }
}
/// An enumerated small workload.
fn workload(iters: &[usize]) -> Or {
    let k = pick(iters);
    match choose(3) {
        0 => S(pick(by_tier(&[1, 2, 4, 8, 16][..], &[1, 2, 4, 8, 16, 32, 64][..])), k),
        1 => {
            let i = pick(by_tier(&[2usize, 4, 8][..], &[2, 4, 8, 16][..]));
            M(i, 1 + choose(i - 1), k)
        }
        _ => {
            let cols = pick(&[1usize, 2, 4, 8]);
            let rows = 2 + choose(by_tier(8, 14));
            if rows * cols < 6 || rows * cols % 3 != 0 {
                skip()
            }
            B(rows, cols, k)
        }
    }
}
fn cfgs() -> Vec<Cfg> {
    vec![
        cfg(8, 5, 9, 5, 11, 5, 11, 256),
        cfg(8, 7, 6, 5, 11, 9, 5, 2),
        cfg(16, 6, 7, 4, 13, 8, 6, 4),
        cfg(8, 4, 10, 6, 9, 25, 1, 2),
        cfg(64, 8, 5, 5, 11, 7, 7, 2),
    ]
}
fn cols_of(o: &Or) -> usize {
    match o {
        S(i, _) | M(i, _, _) => *i,
        B(_, c, _) => *c,
    }
}
fn writes(o: &Or) -> usize {
    match o {
        M(_, q, k) => q * k,
        _ => o.iterations(),
    }
}
fn valid(o: &Or, t: &Cfg, seed: u64) -> bool {
    supported(t, cols_of(o), writes(o)) && match o {
        B(r, c, _) => placeable(&fixed_hash(3, r * c / 3, seed), *r, *c),
        _ => true,
    }
}
/// Every answer in `iters` rounds of the program's reads: round, largest error, decoded right.
fn rounds(o: &Or, t: &Tf, iters: usize, seed: u64, mut f: impl FnMut(usize, u64, bool)) {
    use panacea::oram::setup_random_oram;
    let (rows, cols, h) = match o {
        S(i, _) | M(i, _, _) => (1, *i, 1),
        B(r, c, _) => (*r, *c, 3),
    };
    let hash = fixed_hash(h, rows * cols / h, seed);
    let (mut client, mut server, pts) = setup_random_oram(rows, cols, &hash, t.real());
    for k in 0..iters {
        // the item each response must hold
        let (ys, want): (Vec<_>, Vec<usize>) = match o {
            S(..) => (vec![server.process_one(client.gen_read_query_one(0, &hash)).0], vec![0]),
            M(_, q, _) => {
                let qs = (0..*q).map(|i| client.gen_read_query_one(i + 1, &hash)).collect();
                (server.process_multi(qs).0, (1..=*q).collect())
            }
            B(..) => {
                let ys = server.process_batch(client.gen_read_query_batch(&[0, 1], &hash), &hash).0;
                let m = hash.hash_to_mapping(&[0, 1], cols);
                (m.keys().map(|r| ys[*r].clone()).collect(), m.values().map(|(_, i)| *i).collect())
            }
        };
        for (y, i) in ys.iter().zip(want) {
            let m: Vec<u64> = vals(&pts[i]).iter().map(|x| x.wrapping_mul(delta(t.t))).collect();
            f(k, maxerr(&phase_by(&client.sk, y), &m), decode(&client.sk, y, &client.ctx) == vals(&pts[i]));
        }
    }
}
/// The mean noise of the answers of every round, measured here.
fn mean_noise(o: &Or, t: &Tf) -> Vec<f64> {
    // the first placement that serves the two items
    let t = &Tf { secure: false, ..t.clone() };
    let seed = match o {
        B(r, c, _) => (0..100).find(|s| placeable(&fixed_hash(3, r * c / 3, *s), *r, *c)).unwrap_or(0),
        _ => 0,
    };
    let mut sums = vec![(0.0, 0.0); o.iterations()];
    rounds(o, t, o.iterations(), seed, |k, e, _| {
        sums[k].0 += (e as f64).log2();
        sums[k].1 += 1.0;
    });
    sums.iter().map(|(a, b)| a / b).collect()
}
/// Whether the library's answers to `iters` rounds of these reads are all right with room to
/// spare (`Some(true)`), wrong in most of the later rounds (`Some(false)`), or in between.
fn outcome(o: &Or, t: &Tf, iters: usize, seed: u64) -> Option<bool> {
    let mut wrong_late = 0;
    let mut total = 0;
    let mut worst: u64 = 0;
    rounds(o, t, iters, seed, |k, err, right| {
        worst = worst.max(err);
        if k >= iters / 2 {
            total += 1;
            wrong_late += !right as usize;
        }
    });
    if worst < delta(t.t) / 8 {
        Some(true)
    } else if wrong_late * 10 > total * 9 {
        Some(false)
    } else {
        None
    }
}

pub fn c25() {
    let seeds = by_tier(3u64, 8);
    match choose(7) {
        6 => {
            scenario("larger workloads");
            let o = pick(by_tier(
                &[S(64, 2), S(256, 1), M(64, 40, 2), M(32, 31, 1), M(128, 127, 1), B(24, 8, 2), B(48, 4, 1), B(120, 1, 1), B(6, 32, 1)][..],
                &[S(64, 3), S(256, 2), S(1024, 1), M(64, 40, 2), M(32, 31, 1), M(128, 127, 2), M(256, 255, 1), B(24, 8, 2), B(48, 4, 3), B(120, 1, 1), B(6, 32, 1), B(3, 256, 2), B(384, 4, 1)][..],
            ));
            let mut t = tf_of(&cfgs()[0], choose(2) == 0);
            // decodable after every one of the reads
            t.t = 4;
            note(|| format!("{o:?}"));
            if !supported(&Cfg { t: 4, ..cfgs()[0] }, cols_of(&o), writes(&o)) {
                skip()
            }
            if let B(r, c, _) = o {
                if !placeable(&fixed_hash(3, r * c / 3, 1), r, c) {
                    skip()
                }
            }
            state(&(&o, t.secure));
            let p = file("large", list_json(&[(vec![o.clone()], vec![t.clone()])]).as_bytes());
            check_real(&[format!("--params={}", p.display())], &[("VERIF_RAND_SEED", s("1"))], &[(o, t)]);
        }
        5 => {
            scenario("long runs, in which the error may come to exceed the limit");
            let k = by_tier(600, 1500);
            let o = pick(&[S(2, k), S(1, k), M(4, 2, k), B(6, 2, k), B(12, 1, k)]);
            // deviations from far below to far above the point where the later rounds fail
            let sd = -35.0 + choose(by_tier(16, 64)) as f64 / by_tier(1.0, 4.0);
            let mut t = tf_of(&cfg(8, 5, 9, 5, 11, 5, 11, 256), false);
            t.sd = sd;
            note(|| format!("{o:?} 2^{sd}"));
            let want = match outcome(&o, &t, k, 1) {
                Some(w) => w,
                None => skip(),
            };
            state(&(&o, sd.to_bits()));
            let p = file("drift", list_json(&[(vec![o.clone()], vec![t.clone()])]).as_bytes());
            let env = [("VERIF_RAND_SEED", s("1"))];
            let args = [format!("--params={}", p.display())];
            if want {
                check_real(&args, &env, &[(o, t)]);
            } else {
                let r = run(&args, &env);
                ensure!(!r.ok, "{o:?} with deviation 2^{sd}: most of the later answers are wrong, and the run succeeds");
                step();
            }
        }
        0 => {
            scenario("command line");
            let c = pick(&cfgs()[..by_tier(2, 4)]);
            let o = workload(&[1]);
            let seed = choose(if matches!(o, B(..)) { seeds as usize } else { 1 }) as u64;
            let pool = pick(&["1,0,0", "3,2,1"][..by_tier(1, 2)]);
            note(|| format!("{o:?} {c:?} seed={seed} pool={pool}"));
            if !valid(&o, &c, seed) {
                skip()
            }
            state(&(&o, c, seed, pool));
            let t = tf_of(&c, true);
            check_real(&cli_args(&o, &t), &[("VERIF_RAND_SEED", seed.to_string()), ("VERIF_POOL", s(pool))], &[(o, t)]);
        }
        1 => {
            scenario("parameter file with iterations");
            let c = pick(&cfgs()[..by_tier(3, 5)]);
            let o = workload(by_tier(&[2, 3][..], &[1, 2, 3, 6][..]));
            let seed = choose(if matches!(o, B(..)) { seeds as usize } else { 1 }) as u64;
            let pool = pick(&["3,2,1", "2,1,0"][..by_tier(1, 2)]);
            note(|| format!("{o:?} {c:?} seed={seed} pool={pool}"));
            if !valid(&o, &c, seed) {
                skip()
            }
            state(&(&o, c, seed, pool));
            let l = vec![(vec![o], vec![tf_of(&c, choose(2) == 0)])];
            let p = file("run", list_json(&l).as_bytes());
            check_real(&[format!("--params={}", p.display())], &[("VERIF_RAND_SEED", seed.to_string()), ("VERIF_POOL", s(pool))], &product(&l));
        }
        2 => {
            scenario("several settings in one run");
            let cs = cfgs();
            let pick_or = || pick(&[S(4, 1), S(2, 2), M(4, 2, 1), M(4, 3, 2), B(9, 2, 1), B(6, 2, 2)]);
            let os = vec![pick_or(), pick_or()];
            let ts: Vec<Tf> = (0..1 + choose(2)).map(|k| tf_of(&cs[k], k == 0)).collect();
            let l = if choose(2) == 0 { vec![(os, ts)] } else { vec![(os[..1].to_vec(), ts.clone()), (os[1..].to_vec(), ts)] };
            note(|| list_json(&l));
            state(&list_json(&l));
            let p = file("many", list_json(&l).as_bytes());
            // two columns: any placement of two items with three copies succeeds
            check_real(&[format!("--params={}", p.display())], &[], &product(&l));
        }
        3 => {
            scenario("settings beyond the noise limit must not pass as a success");
            // fresh errors of a quarter of the modulus: every answer is wrong
            let o = workload(&[1, 2]);
            let c = cfgs()[0];
            let mut t = tf_of(&c, false);
            t.sd = pick(&[-1.0, -2.0]);
            note(|| format!("{o:?}"));
            if !valid(&o, &c, 1) {
                skip()
            }
            state(&o);
            let p = file("noisy", list_json(&[(vec![o.clone()], vec![t])]).as_bytes());
            let r = run(&[format!("--params={}", p.display())], &[("VERIF_RAND_SEED", s("1"))]);
            ensure!(!r.ok, "{o:?} with a standard deviation of a quarter of the modulus succeeds");
            step();
        }
        _ => {
            scenario("full-size polynomials (N=1024, 2048)");
            let o = pick(&[S(2, 1), M(4, 2, 1), B(6, 2, 1)]);
            let mut c = cfg(pick(by_tier(&[2048][..], &[1024, 2048][..])), 5, 9, 5, 11, 5, 11, 256);
            if choose(by_tier(1, 2)) == 1 {
                c.t = 2;
            }
            note(|| format!("{o:?} {c:?}"));
            state(&(&o, c));
            let t = tf_of(&c, true);
            check_real(&cli_args(&o, &t), &[], &[(o, t)]);
        }
    }
}
pub fn c25_bounds() -> String {
    format!("real runs of the program built from /repo/src/main.rs with N=8..64: single-query over item counts 1..{}, multi-query over item counts 2..{} with every query count, batch over {} rows x 1,2,4,8 columns x {} placements (those where the two items can be placed), {} TFHE settings inside the worst-case noise bound, 1 to {} iterations, pool orders; pairs of settings in one file; settings beyond the noise limit (must fail); runs of {} iterations over 16 or more deviations, which must succeed when the answers have room to spare and fail when most of the later ones are wrong; item counts up to {}, up to {} queries in one call and up to {} rows; every reported noise within 5 bits (12 where the keys differ) of the mean measured here in an equal round; N=2048 with small databases", by_tier(16, 64), by_tier(8, 16), by_tier("2-9", "2-15"), by_tier(3, 8), by_tier(3, 5), by_tier(3, 6), by_tier(600, 1500), by_tier(256, 1024), by_tier(127, 255), by_tier(120, 384))
}
