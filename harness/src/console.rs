//! What the logger prints, recorded from a child process.
use crate::anygame::ALL;
use crate::common::*;
use crate::game::*;
use crate::with_booster;
use miniboosts::prelude::*;
use miniboosts::research::{ObjectiveFunction, Research};
use miniboosts::{ExponentialLoss, Logger, LoggerBuilder};
use std::time::Duration;

struct Wl {
    name: &'static str,
    info: Option<Vec<(&'static str, String)>>,
    asked: std::cell::Cell<usize>,
    class: Vec<Vec<f64>>,
    naps: Vec<u64>,
}
impl WeakLearner for Wl {
    type Hypothesis = H;
    fn name(&self) -> &str {
        self.name
    }
    fn info(&self) -> Option<Vec<(&str, String)>> {
        self.info.as_ref().map(|v| v.iter().map(|(k, v)| (*k, v.clone())).collect())
    }
    fn produce(&self, _s: &Sample, _dist: &[f64]) -> H {
        let k = self.asked.get();
        if k >= 400 {
            panic!("{LIMIT}");
        }
        self.asked.set(k + 1);
        std::thread::sleep(Duration::from_millis(self.naps.get(k).copied().unwrap_or(0)));
        let h = k % self.class.len();
        H::new(h, self.class[h].clone())
    }
}
struct Objective(&'static str);
impl<O: Classifier> ObjectiveFunction<O> for Objective {
    fn name(&self) -> &str {
        self.0
    }
    fn eval(&self, s: &Sample, f: &O) -> f64 {
        let v = ExponentialLoss::new().eval(s, f);
        if self.0 == "decoy" { -v } else { v }
    }
}

#[derive(Clone)]
struct Call {
    k: String,
    v: String,
    u: String,
}
struct Case {
    id: String,
    booster: &'static str,
    p: Params,
    y: Vec<f64>,
    yt: Vec<f64>,
    class: Vec<Vec<f64>>,
    naps: Vec<u64>,
    calls: Vec<Call>,
    builder: bool,
    info: usize,
}

fn learner(c: &Case, name: &'static str) -> Wl {
    let info = match c.info {
        0 => None,
        1 => Some(vec![]),
        _ => Some(vec![("Depth", "3".to_string()), ("A longer name", "x = 1.5 (of 2)".to_string()), ("# of bins", "7".to_string())]),
    };
    Wl { name, info, asked: Default::default(), class: c.class.clone(), naps: c.naps.clone() }
}
fn loss<O: Classifier>(decoy: bool) -> impl Fn(&Sample, &O) -> f64 {
    move |s: &Sample, _: &O| s.shape().0 as f64 + if decoy { 1000.0 } else { 0.0 }
}
fn kind(v: &str) -> &'static str {
    if v == "decoy" { "decoy" } else { "real" }
}

fn child_case<B, O>(c: &Case, b: B, train: &Sample, test: &Sample, file: &std::path::Path) -> Result<(), String>
where
    B: Booster<H, Output = O> + Research<Output = O>,
    O: Classifier,
{
    let every = |v: &str| if v == "-" { usize::MAX } else { v.parse().unwrap() };
    macro_rules! number {
        ($l:expr, $call:expr) => {
            match ($call.k.as_str(), $call.u.as_str()) {
                ("every", _) => $l.print_every(every(&$call.v)),
                ("limit", "ms") => $l.time_limit_as_millis($call.v.parse().unwrap()),
                ("limit", "secs") => $l.time_limit_as_secs($call.v.parse().unwrap()),
                ("limit", "mins") => $l.time_limit_as_mins($call.v.parse().unwrap()),
                (k, _) => panic!("unknown call {k}"),
            }
        };
    }
    if c.builder {
        let mut l = LoggerBuilder::new();
        let mut b = Some(b);
        for call in &c.calls {
            l = match call.k.as_str() {
                "booster" => match b.take() {
                    Some(b) => l.booster(b),
                    None => l,
                },
                "learner" => l.weak_learner(learner(c, kind(&call.v))),
                "objective" => l.objective_function(Objective(kind(&call.v))),
                "loss" => l.loss_function(loss::<O>(call.v == "decoy")),
                "train" => l.train_sample(if call.v == "decoy" { test } else { train }),
                "test" => l.test_sample(if call.v == "decoy" { train } else { test }),
                _ => number!(l, call),
            };
        }
        match guard(|| l.build()) {
            Ok(mut l) => {
                println!("@@BUILT");
                guard(|| l.run(file).map(|_| ()))?.map_err(|e| e.to_string())
            }
            Err(_) => {
                println!("@@REFUSED");
                Ok(())
            }
        }
    } else {
        let mut l = Logger::new(b, learner(c, "real"), Objective("real"), loss::<O>(false), train, test);
        for call in &c.calls {
            if call.k == "every" || call.k == "limit" {
                l = number!(l, call);
            }
        }
        println!("@@BUILT");
        guard(|| l.run(file).map(|_| ()))?.map_err(|e| e.to_string())
    }
}

macro_rules! with {
    ($c:expr, $s:expr, $b:ident, $e:expr) => {
        with_booster!($c.booster, &$c.p, $s, $b, $e, {
            #[allow(unused_mut)]
            let mut $b = GraphSepBoost::init($s);
            $e
        })
    };
}

/// The child: runs the cases one after another.
pub fn child(cfg: &Cfg) {
    let dir = std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH");
    for c in cases(cfg) {
        if cfg.only.as_deref().map(|o| o != c.id).unwrap_or(false) {
            continue;
        }
        let (train, test) = (index_sample(&c.y), index_sample(&c.yt));
        println!("\n@@CASE {}", c.id);
        let f = std::path::Path::new(&dir).join(format!("{}.csv", c.id));
        let r = guard(|| with!(c, &train, b, child_case(&c, b, &train, &test, &f)));
        match r {
            Ok(Ok(())) => println!("\n@@END"),
            Ok(Err(m)) | Err(m) => println!("\n@@PANIC {}", short(&m).replace('\n', " ")),
        }
    }
}

pub fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(ch) = it.next() {
        if ch == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(ch);
        }
    }
    out
}
/// "01m 30s" -> [["01","m"],["30","s"]]
fn clock(s: &str) -> Value {
    let mut parts = vec![];
    for w in s.split_whitespace() {
        let i = w.find(|c: char| c.is_alphabetic()).unwrap_or(w.len());
        parts.push(json!([num(w[..i].parse::<f64>().unwrap_or(f64::NAN)), &w[i..]]));
    }
    json!(parts)
}
/// hours may be beyond a float
fn big_clock(s: &str) -> Value {
    if s.trim() == "Nothing" {
        return json!([]);
    }
    let mut parts = vec![];
    for w in s.split_whitespace() {
        let i = w.find(|c: char| c.is_alphabetic()).unwrap_or(w.len());
        let v = w[..i].trim_start_matches('0');
        let v = if v.is_empty() { "0".to_string() } else if v.starts_with('.') { format!("0{v}") } else { v.to_string() };
        parts.push(json!([v, &w[i..]]));
    }
    json!(parts)
}
fn pair(line: &str) -> (String, String) {
    let (k, v) = line.split_once('\t').unwrap_or((line, ""));
    (k.trim().to_string(), v.trim().to_string())
}

fn record(c: &Case, lines: &[String], csv: &str) -> Value {
    let mut ev: Vec<Value> = vec![];
    if !c.builder {
        for k in ["booster", "learner", "objective", "loss", "train", "test"] {
            ev.push(json!({"e":"give","c":k,"v":"real"}));
        }
    }
    for call in &c.calls {
        match call.k.as_str() {
            "every" => ev.push(json!({"e":"every","v":call.v})),
            "limit" => ev.push(json!({"e":"limit","v":call.v,"u":call.u})),
            k if c.builder => ev.push(json!({"e":"give","c":k,"v":call.v})),
            _ => {}
        }
    }
    let rows: Vec<Vec<f64>> = csv.lines().skip(1).map(|l| l.split(',').map(|x| x.trim().parse().unwrap_or(f64::NAN)).collect()).collect();
    let g = |r: &Vec<f64>, i: usize| r.get(i).copied().unwrap_or(f64::NAN);
    let shown: Vec<Value> = rows.iter().map(|r| json!({"obj":num(g(r, 0)),"train":num(g(r, 1)),"test":num(g(r, 2)),"ms":num(g(r, 3))})).collect();
    // the settings
    let mut stats = json!({});
    let (mut brows, mut lrows): (Vec<Value>, Vec<Value>) = (vec![], vec![]);
    let (mut inside, mut section, mut seen, mut header) = (false, 0, 0, 0);
    let mut next = 0usize;
    let mut tail: Vec<Value> = vec![];
    for raw in lines {
        let line = plain(raw);
        let s = line.trim();
        if s == "@@BUILT" {
            ev.push(json!({"e":"build","ok":1}));
        } else if s == "@@REFUSED" {
            ev.push(json!({"e":"build","ok":0}));
        } else if s == "STATS" {
            inside = true;
            seen += 1;
        } else if inside && line.starts_with("+ ") {
            let (k, v) = pair(&line[2..]);
            match k.as_str() {
                "Booster" => { section = 1; stats["booster"] = json!(v); }
                "Weak Learner" => { section = 2; stats["learner"] = json!(v); }
                "Objective" => { section = 3; stats["objective"] = json!(v); }
                "Time Limit" => { section = 3; stats["limit"] = big_clock(&v); }
                _ => {}
            }
        } else if inside && s.starts_with("+ ") {
            let (k, v) = pair(&s[2..]);
            if section == 1 { brows.push(json!([k, v])) } else { lrows.push(json!([k, v])) }
        } else if s.contains("ROUND") && s.contains("VALUE") {
            header += 1;
        } else if s.starts_with("[LOG]") || s.starts_with("[FIN]") || s.starts_with("[TLE]") {
            inside = false;
            let w: Vec<&str> = s.split_whitespace().collect();
            let k: usize = w.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
            while next < k && next < rows.len() {
                let mut r = shown[next].clone();
                next += 1;
                r["e"] = json!("row");
                r["last"] = json!((next == rows.len()) as i32);
                tail.push(r);
            }
            let x = |i: usize| num(w.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(f64::NAN));
            tail.push(json!({"e":"line","kind":&s[1..4],"round":k,"obj":x(2),"train":x(3),"test":x(4),"time":clock(&w[5.min(w.len())..].join(" "))}));
        }
    }
    while next < rows.len() {
        let mut r = shown[next].clone();
        next += 1;
        r["e"] = json!("row");
        r["last"] = json!((next == rows.len()) as i32);
        tail.push(r);
    }
    if seen > 0 {
        stats["e"] = json!("stats");
        stats["brows"] = json!(brows);
        stats["lrows"] = json!(lrows);
        stats["header"] = json!(header);
        for k in ["booster", "learner", "objective", "limit"] {
            if stats.get(k).is_none() {
                stats[k] = json!("nothing");
            }
        }
        (0..seen).for_each(|_| ev.push(stats.clone()));
    }
    ev.extend(tail);
    match lines.iter().find(|l| l.starts_with("@@PANIC")) {
        Some(l) if l.contains(LIMIT) => ev = vec![json!({"e":"excuse","why":"endless game"})],
        Some(l) => ev.push(json!({"e":"panic","msg":l})),
        None => ev.push(json!({"e":"end"})),
    }
    // what booster and learner say about themselves
    let train = index_sample(&c.y);
    let pairs = |v: Option<Vec<(&str, String)>>| -> Vec<Value> { v.unwrap_or_default().into_iter().map(|(k, v)| json!([k.trim(), v.trim()])).collect() };
    let want = guard(|| with!(c, &train, b, {
        let wl = learner(c, "real");
        b.preprocess(&wl);
        let v = json!({"booster": Booster::<H>::name(&b), "brows": pairs(Booster::<H>::info(&b)), "lrows": pairs(wl.info())});
        // without the logger, the game must be playable
        for it in 1..=rows.len() + 1 {
            let flow = b.boost(&wl, it);
            let _ = ExponentialLoss::new().eval(&train, &b.current_hypothesis());
            if flow.is_break() {
                break;
            }
        }
        v
    }));
    match want {
        Ok(w) => json!({"ev":ev,"want":w,"rows":shown,"m":c.y.len(),"mt":c.yt.len(),"booster":c.booster}),
        Err(m) => json!({"ev":[{"e":"excuse","why":short(&m)}],"want":{},"rows":[],"m":0,"mt":0,"booster":c.booster}),
    }
}

fn cases(cfg: &Cfg) -> Vec<Case> {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0xc0);
    let mut out = vec![];
    let make = |rng: &mut StdRng, booster: &'static str, k: usize| -> Case {
        let m = rng.gen_range(2..=8);
        let y = labels(rng, m);
        let mt = m + [1, 2, 3][k % 3];
        let yt = labels(rng, mt);
        let kd = rng.gen_range(0..5usize);
        let class: Vec<Vec<f64>> = (0..rng.gen_range(1..=6))
            .map(|j| {
                let mut c = rand_conf(rng, mt, if booster == "graphsepboost" { 0 } else if kd == 4 { j } else { kd });
                if edge(&y, &vec![1.0; m], &c[..m]) < 0.0 {
                    c.iter_mut().for_each(|v| *v = -*v);
                }
                c
            })
            .collect();
        Case { id: String::new(), booster, p: crate::anygame::params(rng, booster, m, k), y, yt, class, naps: vec![], calls: vec![], builder: true, info: k % 3 }
    };
    let call = |k: &str, v: &str, u: &str| Call { k: k.into(), v: v.into(), u: u.into() };
    let comps = ["booster", "learner", "objective", "loss", "train", "test"];
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let v: Value = serde_json::from_str(line).unwrap();
            let times: Vec<u64> = v["times"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let mut c = make(&mut rng, ["adaboost", "madaboost", "adaboostv"][k % 3], 3);
            c.id = format!("beh{k}");
            // a game of as many rounds, unless the time runs out
            c.p = Params::from([("quit", times.len().max(1) as f64 - if v["late"] == true { 0.0 } else { 1.0 }), ("tol", 0.01)]);
            let mut last = 0;
            c.naps = times.iter().map(|t| { let d = t - last; last = *t; d }).collect();
            let ops = v["ops"].as_array().unwrap();
            let missing = ops[0]["v"].as_str().unwrap();
            c.builder = k % 4 != 3 || missing != "-";
            for comp in comps {
                if comp != missing {
                    c.calls.push(call(comp, "real", "-"));
                }
            }
            for o in &ops[1..] {
                c.calls.push(call(o["k"].as_str().unwrap(), o["v"].as_str().unwrap(), o["u"].as_str().unwrap()));
            }
            out.push(c);
        }
    }
    let n = if cfg.thorough { 90 } else { 14 };
    for booster in ALL {
        for k in 0..n {
            let mut c = make(&mut rng, booster, k);
            c.id = format!("{booster}-{k}");
            c.builder = k % 3 != 2;
            let mut calls = vec![];
            for comp in comps {
                if rng.gen_bool(0.3) && comp != "booster" {
                    calls.push(call(comp, "decoy", "-"));
                }
                calls.push(call(comp, "real", "-"));
            }
            // decoys stay before the real one
            for _ in 0..rng.gen_range(0..3) {
                let v = ["1", "2", "3", "5", "100", "100000", "-"][rng.gen_range(0..7)];
                let i = rng.gen_range(0..=calls.len());
                calls.insert(i, call("every", v, "-"));
            }
            for _ in 0..rng.gen_range(0..3) {
                let u = ["ms", "secs", "mins"][rng.gen_range(0..3)];
                let v = match rng.gen_range(0..5) {
                    0 => rng.gen_range(0..4u64),
                    1 => [59, 60, 61, 999, 1000, 59_999, 60_000, 3_599_999, 3_600_000][rng.gen_range(0..9)],
                    2 => rng.gen_range(1..100_000),
                    3 => rng.gen(),
                    _ => rng.gen_range(1..30),
                };
                let i = rng.gen_range(0..=calls.len());
                calls.insert(i, call("limit", &v.to_string(), u));
            }
            c.calls = calls;
            let naps = [vec![], vec![1, 0, 3, 2, 5, 1, 9], vec![0, 0, 12]][k % 3].clone();
            c.naps = naps;
            // a game without an end is cut by the time limit
            if k % 7 == 6 {
                c.calls.push(call("limit", "25", "ms"));
                c.naps = vec![2; 40];
            }
            if k == 9 && booster == "adaboost" {
                c.naps = vec![1100, 3];
            }
            out.push(c);
        }
    }
    out
}

/// What a child process (this program with another task) prints.
pub fn output_of(task: &str, cfg: &Cfg) -> String {
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    cmd.arg(task).args(["--seed", &cfg.seed.to_string(), "--tier", if cfg.thorough { "thorough" } else { "quick" }]);
    if let Some(b) = &cfg.behaviours {
        cmd.args(["--behaviours", b]);
    }
    if let Some(o) = &cfg.only {
        cmd.args(["--only", o]);
    }
    cmd.args(["--out", &format!("{}.child", cfg.out)]);
    String::from_utf8_lossy(&cmd.env("NO_COLOR", "1").output().expect("child").stdout).into_owned()
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let dir = std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH");
    let text = output_of("console-child", cfg);
    let mut found: std::collections::HashMap<String, Vec<String>> = Default::default();
    let mut id = String::new();
    for line in text.lines() {
        if let Some(c) = line.strip_prefix("@@CASE ") {
            id = c.to_string();
        }
        found.entry(id.clone()).or_default().push(line.to_string());
    }
    for c in cases(cfg) {
        let f = std::path::Path::new(&dir).join(format!("{}.csv", c.id));
        let csv = std::fs::read_to_string(&f).unwrap_or_default();
        std::fs::remove_file(&f).ok();
        let none = vec![];
        out.run(&c.id, || record(&c, found.get(&c.id).unwrap_or(&none), &csv));
    }
}
