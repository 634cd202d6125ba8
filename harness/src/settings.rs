//! Boosters set up by sequences of builder calls: what they report, their
//! round limit, and whether only the last value of each setting matters.
use crate::common::*;
use crate::exp::parse_num;
use miniboosts::prelude::*;
use std::cell::Cell;

const ROUNDS: usize = 9;

fn rule(v: &str) -> FWType {
    match v {
        "classic" => FWType::Classic,
        "short" => FWType::ShortStep,
        "line" => FWType::LineSearch,
        "pairwise" => FWType::BlendedPairwise,
        other => panic!("unknown rule {other}"),
    }
}
fn loss(v: &str) -> GBMLoss {
    if v == "L1" {
        GBMLoss::L1
    } else {
        GBMLoss::L2
    }
}

pub type Call = (String, String);

/// Makes the calls on a fresh booster and hands it to `$e`.
macro_rules! set_up {
    ($b:ident, $init:expr, $calls:expr, $at:expr, $e:expr, { $($key:literal => |$x:ident, $v:ident| $call:expr),* }) => {{
        #[allow(unused_mut)]
        let mut $b = $init;
        for (i, (k, v)) in $calls.iter().enumerate() {
            $at.set(i);
            let _ = v;
            $b = match k.as_str() {
                $($key => { let $x = $b; let $v = v.as_str(); $call })*
                other => panic!("unknown setting {other}"),
            };
        }
        $at.set($calls.len());
        $e
    }};
}

macro_rules! with_calls {
    ($name:expr, $s:expr, $calls:expr, $at:expr, $b:ident, $e:expr, $max:ident, $em:expr) => {{
        let s = $s;
        match $name {
            "adaboost" => set_up!($b, AdaBoost::init(s), $calls, $at, { let $max = Some($b.max_loop()); $em; $e },
                { "tol" => |x, v| x.tolerance(parse_num(v)), "quit" => |x, v| x.force_quit_at(v.parse().unwrap()) }),
            "adaboostv" => set_up!($b, AdaBoostV::init(s), $calls, $at, { let $max = Some($b.max_loop()); $em; $e },
                { "tol" => |x, v| x.tolerance(parse_num(v)), "quit" => |x, v| x.force_quit_at(v.parse().unwrap()) }),
            "madaboost" => set_up!($b, MadaBoost::init(s), $calls, $at, { let $max = Some($b.max_loop()); $em; $e },
                { "tol" => |x, v| x.tolerance(parse_num(v)), "quit" => |x, v| x.force_quit_at(v.parse().unwrap()) }),
            "smoothboost" => set_up!($b, SmoothBoost::init(s), $calls, $at, { let $max = None::<usize>; $em; $e },
                { "tol" => |x, v| x.tolerance(parse_num(v)), "gamma" => |x, v| x.gamma(parse_num(v)) }),
            "lpboost" => set_up!($b, LPBoost::init(s), $calls, $at, { let $max = None::<usize>; $em; $e },
                { "tol" => |x, v| x.tolerance(parse_num(v)), "nu" => |x, v| x.nu(parse_num(v)) }),
            "erlpboost" => set_up!($b, ERLPBoost::init(s), $calls, $at, { let $max = None::<usize>; $em; $e },
                { "tol" => |x, v| x.tolerance(parse_num(v)), "nu" => |x, v| x.nu(parse_num(v)) }),
            "softboost" => set_up!($b, SoftBoost::init(s), $calls, $at, { let $max = Some($b.max_loop()); $em; $e },
                { "tol" => |x, v| x.tolerance(parse_num(v)), "nu" => |x, v| x.nu(parse_num(v)) }),
            "totalboost" => set_up!($b, TotalBoost::init(s), $calls, $at, { let $max = None::<usize>; $em; $e },
                { "tol" => |x, v| x.tolerance(parse_num(v)) }),
            // its two setters of the rule are used in turn
            "cerlpboost" => set_up!($b, CERLPBoost::init(s), $calls, $at, { let $max = Some($b.max_loop()); $em; $e },
                { "tol" => |x, v| x.tolerance(parse_num(v)), "nu" => |x, v| x.nu(parse_num(v)),
                  "fw" => |x, v| if $at.get() % 2 == 0 { x.fw_type(rule(v)) } else { x.variant(rule(v)) } }),
            "mlpboost" => set_up!($b, MLPBoost::init(s), $calls, $at, { let $max = Some($b.max_loop()); $em; $e },
                { "tol" => |x, v| x.tolerance(parse_num(v)), "nu" => |x, v| x.nu(parse_num(v)),
                  "fw" => |x, v| x.frank_wolfe(rule(v)) }),
            "gbm" => set_up!($b, GBM::init_with_loss(s, GBMLoss::L2), $calls, $at, { let $max = None::<usize>; $em; $e },
                { "tol" => |x, v| x.tolerance(parse_num(v)), "loss" => |x, v| x.loss(loss(v)) }),
            "graphsepboost" => set_up!($b, GraphSepBoost::init(s), $calls, $at, { let $max = None::<usize>; $em; $e }, {}),
            other => panic!("unknown booster {other}"),
        }
    }};
}

/// The outcome of a run as a list of things to compare.
trait Shown {
    fn shown(&self) -> Value;
}
impl Shown for WeightedMajority<H> {
    fn shown(&self) -> Value {
        json!({"e":"end","w":nums(&self.weights),"h":ints(&self.hypotheses.iter().map(|h| h.id).collect::<Vec<_>>())})
    }
}
impl Shown for miniboosts::NaiveAggregation<H> {
    fn shown(&self) -> Value {
        json!({"e":"end","w":[],"h":[]})
    }
}

struct Case<'a> {
    b: &'a str,
    y: &'a [f64],
    tab: &'a [Vec<f64>],
    d: usize,
    calls: &'a [Call],
    /// all settings in force, each once
    plain: &'a [Call],
    play: bool,
}

fn sample(y: &[f64], d: usize) -> Sample {
    let x: Vec<Vec<f64>> = (0..y.len()).map(|i| (0..d).map(|j| (i * (j + 1)) as f64).collect()).collect();
    dense_sample(&x, y)
}

fn learner<'a>(c: &'a Case) -> Rec<impl Fn(usize, &[f64]) -> H + 'a> {
    let regress = c.b == "gbm";
    Rec::new(ROUNDS, move |k, d: &[f64]| {
        let id = if regress { k % c.tab.len() } else { best(c.y, d, c.tab) };
        H::new(id, c.tab[id].clone())
    })
}

fn outcome<O: Shown>(c: &Case, asks: &[Ask], r: Result<O, String>) -> (usize, Vec<Value>) {
    let _ = c;
    let mut v: Vec<Value> = asks.iter().map(|a| json!({"d": nums(&a.dist), "h": a.h})).collect();
    v.push(match r {
        Ok(f) => f.shown(),
        Err(m) if m.contains(LIMIT) => json!({"e":"limit"}),
        Err(m) => json!({"e":"panic","msg":short(&m)}),
    });
    (asks.len(), v)
}

/// The report's rows under names of our own.
fn rows(info: Vec<(&str, String)>) -> (Vec<String>, serde_json::Map<String, Value>) {
    let mut out = serde_json::Map::new();
    let first = |t: &str| -> String { t.split_whitespace().next().unwrap_or("").to_string() };
    for (label, text) in info {
        let lb = label.to_lowercase();
        let mut put = |k: &str, v: String| {
            out.entry(k.to_string()).or_insert(Value::String(v));
        };
        let lt = text.to_lowercase();
        if lb.contains("sub-problem") {
        } else if lb.contains("examples") {
            put("examples", first(&text));
        } else if lb.contains("features") {
            put("features", first(&text));
        } else if lb.contains("tolerance") {
            put("tol", plain(&first(&text)));
        } else if lb.contains("max") {
            put("max", first(&text));
        } else if lb.contains("quit") {
            put("quit", if text.trim() == "-" { "-".into() } else { text.split_whitespace().last().unwrap_or("").to_string() });
        } else if lb.contains("capping") {
            let v = first(&text);
            let (num, unit) = match v.chars().last() {
                Some('K') => (v[..v.len() - 1].to_string(), 1e3),
                Some('M') => (v[..v.len() - 1].to_string(), 1e6),
                Some('G') => (v[..v.len() - 1].to_string(), 1e9),
                _ => (v.clone(), 1.0),
            };
            put("nu", num.parse::<f64>().map(|x| format!("{:?}", x * unit)).unwrap_or(v));
            let pct = text.split('(').nth(1).and_then(|t| t.split('%').next()).unwrap_or("").trim().to_string();
            if !pct.is_empty() && text.contains('%') {
                put("pct", pct);
            }
        } else if lb.contains("frank") || lb.contains("primary") {
            let r = ["classic", "short", "line", "pairwise"].into_iter().find(|r| lt.contains(r)).unwrap_or("?");
            put("fw", r.into());
        } else if lb.contains("gamma") {
            put("gamma", plain(&first(&text)));
        } else if lb.contains("theta") {
            put("theta", plain(&first(&text)));
        } else if lb.contains("loss") {
            put("loss", if text.contains("L1") { "L1".into() } else if text.contains("L2") { "L2".into() } else { text.clone() });
        }
    }
    (out.keys().cloned().collect(), out)
}
/// A number as it is traced elsewhere.
fn plain(t: &str) -> String {
    t.parse::<f64>().map(|x| format!("{x:?}")).unwrap_or(t.to_string())
}

fn session(c: &Case) -> Value {
    let s = sample(c.y, c.d);
    let mut ev: Vec<Value> = vec![json!({"e":"new","m":c.y.len(),"d":c.d})];
    let at = Cell::new(0usize);
    let done = Cell::new(false);
    let mut tail: Vec<Value> = vec![];
    let r = guard(|| {
        with_calls!(
            c.b,
            &s,
            c.calls,
            at,
            b,
            {
                done.set(true);
                let wl = learner(c);
                match guard(|| {
                    b.preprocess(&wl);
                    b.info().map(rows)
                }) {
                    Ok(Some((has, rows))) => tail.push(json!({"e":"info","has":has,"rows":rows})),
                    Ok(None) => tail.push(json!({"e":"panic","at":"info","msg":"no report"})),
                    Err(m) => tail.push(json!({"e":"panic","at":"info","msg":short(&m)})),
                }
                if c.play {
                    let r = guard(|| b.run(&wl));
                    let (asked, got) = outcome(c, &wl.asks.borrow(), r);
                    let fwl = learner(c);
                    let fat = Cell::new(0usize);
                    let fresh = with_calls!(c.b, &s, c.plain, fat, f, guard(|| f.run(&fwl)).map(|o| o.shown()), m, { let _ = m; });
                    let (_, fresh) = outcome(c, &fwl.asks.borrow(), fresh.map(Raw));
                    let set: Vec<Value> = c.plain.iter().map(|(k, v)| json!({"k":k,"v":v})).collect();
                    tail.push(json!({"e":"run","asked":asked,"got":got,"fresh":fresh,"set":set}));
                }
            },
            max,
            {
                if let Some(n) = max {
                    tail.push(json!({"e":"max","n":n.to_string()}));
                }
            }
        )
    });
    let ok = if r.is_ok() || done.get() { c.calls.len() } else { at.get() };
    for (i, (k, v)) in c.calls.iter().enumerate() {
        if i <= ok {
            ev.push(json!({"e":"call","k":k,"v":v,"ok": (i < ok) as i32}));
        }
    }
    if let Err(m) = &r {
        if ok == c.calls.len() {
            tail.push(json!({"e":"panic","at":"set up","msg":short(m)}));
        }
    }
    ev.extend(tail);
    json!({"b": c.b, "ev": ev})
}
/// A ready outcome.
struct Raw(Value);
impl Shown for Raw {
    fn shown(&self) -> Value {
        self.0.clone()
    }
}

pub const ALL: [&str; 12] = [
    "adaboost", "adaboostv", "madaboost", "smoothboost", "graphsepboost", "lpboost", "erlpboost", "softboost",
    "totalboost", "cerlpboost", "mlpboost", "gbm",
];

fn keys(b: &str) -> Vec<&'static str> {
    match b {
        "adaboost" | "adaboostv" | "madaboost" => vec!["tol", "quit"],
        "smoothboost" => vec!["tol", "gamma"],
        "cerlpboost" | "mlpboost" => vec!["tol", "nu", "fw"],
        "gbm" => vec!["tol", "loss"],
        "totalboost" => vec!["tol"],
        "graphsepboost" => vec![],
        _ => vec!["tol", "nu"],
    }
}

/// The last value of each setting, and the default of the others.
fn in_force(b: &str, m: usize, calls: &[Call]) -> Vec<Call> {
    let mf = m as f64;
    let mut out = vec![];
    for k in keys(b) {
        if let Some((_, v)) = calls.iter().rev().find(|(c, _)| c == k) {
            out.push((k.to_string(), v.clone()));
            continue;
        }
        let dflt: Option<String> = match (k, b) {
            ("quit", _) => None,
            ("nu", _) => Some("1".into()),
            ("fw", _) => Some("short".into()),
            ("loss", _) => Some("L2".into()),
            // has to be set
            ("gamma", _) => None,
            (_, "adaboost" | "madaboost") => Some(format!("{:?}", 1.0 / (mf + 1.0))),
            (_, "adaboostv" | "lpboost" | "softboost" | "totalboost") => Some(format!("{:?}", 1.0 / mf)),
            (_, "smoothboost") => Some("0.5".into()),
            (_, "gbm") => Some("0.0".into()),
            _ => Some("0.01".into()),
        };
        if let Some(v) = dflt {
            out.push((k.to_string(), v));
        }
    }
    out
}

fn one(rng: &mut StdRng, out: &mut Out, id: &str, b: &str, m: usize, calls: &[Call], play: bool) {
    if !out.wants(id) {
        return;
    }
    let mut y = labels(rng, m.min(40));
    y.resize(m, -1.0);
    let kind = rng.gen_range(0..4);
    let tab: Vec<Vec<f64>> = (0..rng.gen_range(2..6)).map(|_| rand_conf(rng, m, kind)).collect();
    let plain = in_force(b, m, calls);
    let play = play && (b != "smoothboost" || plain.iter().any(|(k, _)| k == "gamma"));
    let c = Case { b, y: &y, tab: &tab, d: 1 + m % 3, calls, plain: &plain, play };
    out.run(id, || session(&c));
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x5e77);
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let v: Value = serde_json::from_str(line).unwrap();
            let b = v["b"].as_str().unwrap();
            let m = v["m"].as_u64().unwrap() as usize;
            let calls: Vec<Call> = v["ops"].as_array().unwrap().iter()
                .map(|o| (o["k"].as_str().unwrap().to_string(), o["v"].as_str().unwrap().to_string())).collect();
            let mut r = StdRng::seed_from_u64(cfg.seed ^ (k as u64 + 1) * 7919);
            one(&mut r, out, &format!("set-beh{k}"), b, m, &calls, m < 50);
        }
    }
    let n = if cfg.thorough { 220 } else { 36 };
    for b in ALL {
        for k in 0..n {
            let m = match k % 9 {
                8 => rng.gen_range(900..2300),
                7 => rng.gen_range(8..30),
                _ => rng.gen_range(2..9),
            };
            let mut calls: Vec<Call> = vec![];
            let ks = keys(b);
            let len = if ks.is_empty() || k == 0 { 0 } else { rng.gen_range(0..7) };
            for _ in 0..len {
                let key = ks[rng.gen_range(0..ks.len())];
                let v = match key {
                    "tol" => match rng.gen_range(0..4) {
                        0 => ["0.5", "1/4", "0.1", "0.7"][rng.gen_range(0..4)].to_string(),
                        1 => format!("{:?}", rng.gen_range(0.001..0.9f64)),
                        2 => ["1e-5", "1e-9", "0.003", "1e-12"][rng.gen_range(0..4)].to_string(),
                        _ => format!("{:?}", rng.gen_range(0.2..0.99f64)),
                    },
                    "quit" => rng.gen_range(1..20usize).to_string(),
                    "nu" => match rng.gen_range(0..4) {
                        0 => m.to_string(),
                        1 => "1".to_string(),
                        2 => rng.gen_range(1..=m).to_string(),
                        _ => format!("{:?}", rng.gen_range(1.0..=m as f64)),
                    },
                    "fw" => ["classic", "short", "line", "pairwise"][rng.gen_range(0..4)].to_string(),
                    "gamma" => format!("{:?}", rng.gen_range(0.01..0.49f64)),
                    _ => ["L1", "L2"][rng.gen_range(0..2)].to_string(),
                };
                calls.push((key.to_string(), v));
            }
            // has to be set
            if b == "smoothboost" && k % 9 != 0 && !calls.iter().any(|c| c.0 == "gamma") {
                calls.insert(0, ("gamma".into(), format!("{:?}", rng.gen_range(0.01..0.49f64))));
            }
            // a setting as small as this only concerns the round limit
            let play = m < 50 && !in_force(b, m, &calls).iter().any(|(c, v)| c == "tol" && parse_num(v) < 1e-4 && b != "gbm");
            let mut r = StdRng::seed_from_u64(cfg.seed ^ (k as u64 + 77) * 104729);
            one(&mut r, out, &format!("set-{b}-{k}"), b, m, &calls, play);
        }
    }
}
