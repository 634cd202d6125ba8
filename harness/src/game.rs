//! Plays boosters against scripted weak learners and records the game.
use crate::common::*;
use miniboosts::prelude::*;
use miniboosts::research::Research;
use miniboosts::NaiveAggregation;
use std::collections::BTreeMap;
use std::ops::ControlFlow;

/// What the harness reads off a combined hypothesis.
pub trait Combined {
    fn parts(&self) -> (Vec<f64>, Vec<usize>);
}
impl Combined for WeightedMajority<H> {
    fn parts(&self) -> (Vec<f64>, Vec<usize>) {
        (self.weights.clone(), self.hypotheses.iter().map(|h| h.id).collect())
    }
}
impl Combined for NaiveAggregation<H> {
    fn parts(&self) -> (Vec<f64>, Vec<usize>) {
        (vec![], vec![])
    }
}

/// What a booster tells about the end of its last game, if it has an accessor for that.
pub trait Ended {
    fn ended(&self) -> i64 {
        -1
    }
}
macro_rules! ended {
    ($($b:ident),*) => { $(impl Ended for $b<'_, H> {
        fn ended(&self) -> i64 {
            (self.terminated() as u64).min(1_000_000_000) as i64
        }
    })* };
}
macro_rules! silent {
    ($($b:ident),*) => { $(impl Ended for $b<'_, H> {})* };
}
ended!(LPBoost, ERLPBoost, MLPBoost);
silent!(AdaBoost, AdaBoostV, MadaBoost, SmoothBoost, SoftBoost, TotalBoost, CERLPBoost, GraphSepBoost);

pub type Params = BTreeMap<&'static str, f64>;

pub struct Play<'a> {
    pub booster: &'a str,
    pub p: &'a Params,
    pub y: &'a [f64],
    /// confidence tables of the hypotheses, by id
    pub class: &'a [Vec<f64>],
    /// "run": one call of `run`; "step": preprocess/boost/postprocess by hand
    pub mode: &'a str,
    pub limit: usize,
    /// number of consecutive runs on the same booster object
    pub reps: usize,
    /// the weak learner always answers with a hypothesis of largest edge
    pub best: bool,
    /// number of rows of the tables beyond the training rows, on which the output is evaluated too
    pub query: usize,
}

pub fn get(p: &Params, k: &str) -> Option<f64> {
    p.get(k).copied()
}

/// Builds the booster named `$name` with parameters `$p` on `$s`, bound to `$b`, and evaluates `$e`.
#[macro_export]
macro_rules! with_booster {
    ($name:expr, $p:expr, $s:expr, $b:ident, $e:expr, $gs:expr) => {{
        use $crate::game::get;
        let p = $p;
        let fw = || match get(p, "fw").unwrap_or(2.0) as i64 {
            0 => FWType::Classic,
            1 => FWType::ShortStep,
            2 => FWType::LineSearch,
            _ => FWType::BlendedPairwise,
        };
        match $name {
            "adaboost" => {
                #[allow(unused_mut)]
                let mut $b = AdaBoost::init($s);
                if let Some(t) = get(p, "tol") { $b = $b.tolerance(t); }
                if let Some(t) = get(p, "quit") { $b = $b.force_quit_at(t as usize); }
                $e
            }
            "adaboostv" => {
                #[allow(unused_mut)]
                let mut $b = AdaBoostV::init($s);
                if let Some(t) = get(p, "tol") { $b = $b.tolerance(t); }
                if let Some(t) = get(p, "quit") { $b = $b.force_quit_at(t as usize); }
                $e
            }
            "madaboost" => {
                #[allow(unused_mut)]
                let mut $b = MadaBoost::init($s);
                if let Some(t) = get(p, "tol") { $b = $b.tolerance(t); }
                if let Some(t) = get(p, "quit") { $b = $b.force_quit_at(t as usize); }
                $e
            }
            "smoothboost" => {
                #[allow(unused_mut)]
                let mut $b = SmoothBoost::init($s);
                if let Some(t) = get(p, "tol") { $b = $b.tolerance(t); }
                if let Some(t) = get(p, "gamma") { $b = $b.gamma(t); }
                $e
            }
            "lpboost" => {
                #[allow(unused_mut)]
                let mut $b = LPBoost::init($s);
                let ord = get(p, "ord").unwrap_or(0.0) as i64;
                // the setters may come in any order, and the last call of a setter counts
                if ord == 2 {
                    if get(p, "tol").is_some() { $b = $b.tolerance(0.7); }
                    if get(p, "nu").is_some() { $b = $b.nu(1.25); }
                }
                if ord != 0 { if let Some(t) = get(p, "nu") { $b = $b.nu(t); } }
                if let Some(t) = get(p, "tol") { $b = $b.tolerance(t); }
                if ord == 0 { if let Some(t) = get(p, "nu") { $b = $b.nu(t); } }
                $e
            }
            "erlpboost" => {
                #[allow(unused_mut)]
                let mut $b = ERLPBoost::init($s);
                let ord = get(p, "ord").unwrap_or(0.0) as i64;
                // the setters may come in any order, and the last call of a setter counts
                if ord == 2 {
                    if get(p, "tol").is_some() { $b = $b.tolerance(0.7); }
                    if get(p, "nu").is_some() { $b = $b.nu(1.25); }
                }
                if ord != 0 { if let Some(t) = get(p, "nu") { $b = $b.nu(t); } }
                if let Some(t) = get(p, "tol") { $b = $b.tolerance(t); }
                if ord == 0 { if let Some(t) = get(p, "nu") { $b = $b.nu(t); } }
                $e
            }
            "softboost" => {
                #[allow(unused_mut)]
                let mut $b = SoftBoost::init($s);
                let ord = get(p, "ord").unwrap_or(0.0) as i64;
                // the setters may come in any order, and the last call of a setter counts
                if ord == 2 {
                    if get(p, "tol").is_some() { $b = $b.tolerance(0.7); }
                    if get(p, "nu").is_some() { $b = $b.nu(1.25); }
                }
                if ord != 0 { if let Some(t) = get(p, "nu") { $b = $b.nu(t); } }
                if let Some(t) = get(p, "tol") { $b = $b.tolerance(t); }
                if ord == 0 { if let Some(t) = get(p, "nu") { $b = $b.nu(t); } }
                $e
            }
            "totalboost" => {
                #[allow(unused_mut)]
                let mut $b = TotalBoost::init($s);
                if let Some(t) = get(p, "tol") { $b = $b.tolerance(t); }
                $e
            }
            "cerlpboost" => {
                #[allow(unused_mut)]
                let mut $b = CERLPBoost::init($s);
                let ord = get(p, "ord").unwrap_or(0.0) as i64;
                // the setters may come in any order, and the last call of a setter counts
                if ord == 2 {
                    if get(p, "tol").is_some() { $b = $b.tolerance(0.7); }
                    if get(p, "nu").is_some() { $b = $b.nu(1.25); }
                    if get(p, "fw").is_some() { $b = $b.fw_type(FWType::ShortStep); }
                }
                if ord != 0 { if get(p, "fw").is_some() { $b = $b.fw_type(fw()); } }
                if ord != 0 { if let Some(t) = get(p, "nu") { $b = $b.nu(t); } }
                if let Some(t) = get(p, "tol") { $b = $b.tolerance(t); }
                if ord == 0 { if let Some(t) = get(p, "nu") { $b = $b.nu(t); } }
                if ord == 0 { if get(p, "fw").is_some() { $b = $b.fw_type(fw()); } }
                $e
            }
            "mlpboost" => {
                #[allow(unused_mut)]
                let mut $b = MLPBoost::init($s);
                let ord = get(p, "ord").unwrap_or(0.0) as i64;
                // the setters may come in any order, and the last call of a setter counts
                if ord == 2 {
                    if get(p, "tol").is_some() { $b = $b.tolerance(0.7); }
                    if get(p, "nu").is_some() { $b = $b.nu(1.25); }
                    if get(p, "fw").is_some() { $b = $b.frank_wolfe(FWType::ShortStep); }
                }
                if ord != 0 { if get(p, "fw").is_some() { $b = $b.frank_wolfe(fw()); } }
                if ord != 0 { if let Some(t) = get(p, "nu") { $b = $b.nu(t); } }
                if let Some(t) = get(p, "tol") { $b = $b.tolerance(t); }
                if ord == 0 { if let Some(t) = get(p, "nu") { $b = $b.nu(t); } }
                if ord == 0 { if get(p, "fw").is_some() { $b = $b.frank_wolfe(fw()); } }
                $e
            }
            "graphsepboost" => $gs,
            other => panic!("unknown booster {other}"),
        }
    }};
}

/// Rounds of a game that need not be the one judged.
pub const OTHER: usize = 500;

/// Plays the game; the weak learner's answers come from `pick(round, dist)`.
pub fn play<P>(g: &Play, pick: P) -> Value
where
    P: Fn(usize, &[f64]) -> usize,
{
    let s = index_sample(g.y);
    let mut ev: Vec<Value> = Vec::new();
    let one = |mode: &str, reps: usize, ev: &mut Vec<Value>| {
        let built = guard(|| {
            with_booster!(g.booster, g.p, &s, b, go(g, mode, reps, &s, &mut b, &pick, ev), {
                let mut b = GraphSepBoost::init(&s);
                go(g, mode, reps, &s, &mut b, &pick, ev)
            })
        });
        // a parameter was rejected
        if let Err(m) = built {
            ev.push(json!({"e":"panic","at":"init","msg":short(&m)}));
        }
    };
    match g.mode {
        // one object used twice, then a fresh one
        "twice" => {
            one("mixed", 2, &mut ev);
            if last_is_end(&ev) {
                one("run", 1, &mut ev);
            }
        }
        // an object that played another game before, then a fresh one
        "other" => {
            one("other", 2, &mut ev);
            if last_is_end(&ev) {
                one("run", 1, &mut ev);
            }
        }
        mode => one(mode, g.reps.max(1), &mut ev),
    }
    let mut par = serde_json::Map::new();
    for (k, v) in g.p.iter() {
        par.insert(k.to_string(), num(*v));
    }
    let has: Vec<&str> = g.p.keys().copied().collect();
    let yi: Vec<i64> = g.y.iter().map(|v| *v as i64).collect();
    let mut v = json!({"booster": g.booster, "mode": g.mode, "m": g.y.len(), "y": yi, "p": par, "has": has,
           "best": g.best as i32, "limit": g.limit, "ev": ev});
    if g.query > 0 {
        v["tab"] = mat(g.class);
        v["q"] = json!(g.query);
    }
    v
}

fn last_is_end(ev: &[Value]) -> bool {
    ev.last().map(|e| e["e"] == "end").unwrap_or(false)
}

fn go<B, O, P>(g: &Play, mode: &str, reps: usize, s: &Sample, b: &mut B, pick: &P, ev: &mut Vec<Value>)
where
    B: Booster<H, Output = O> + Research<Output = O> + Ended,
    O: Classifier + Combined,
    P: Fn(usize, &[f64]) -> usize,
{
    let y = g.y;
    for rep in 0..reps {
        let wl = Rec::new(g.limit, |k, d: &[f64]| {
            // the answers of another game
            let id = pick(if mode == "other" && rep == 0 { OTHER + k } else { k }, d);
            H::new(id, g.class[id].clone())
        });
        let seen = std::cell::Cell::new(0usize);
        let drain = |ev: &mut Vec<Value>| {
            let asks = wl.asks.borrow();
            for a in asks.iter().skip(seen.get()) {
                let u: Vec<f64> = g.class[a.h].iter().zip(y).map(|(c, y)| c * y).collect();
                ev.push(json!({"e":"ask","d":nums(&a.dist),"h":a.h,"u":nums(&u)}));
            }
            seen.set(asks.len());
        };
        let panic = |ev: &mut Vec<Value>, at: &str, msg: String| {
            if msg.contains(LIMIT) {
                ev.push(json!({"e":"limit"}));
            } else {
                ev.push(json!({"e":"panic","at":at,"msg":short(&msg)}));
            }
        };
        let by_run = mode == "run" || (mode == "mixed" && rep % 2 == 1);
        ev.push(json!({"e":"begin","mode": if by_run {"run"} else {"step"}, "fresh": (rep == 0) as i32, "fin": b.ended()}));
        let out: Result<O, String>;
        if by_run {
            out = guard(|| b.run(&wl));
            drain(ev);
        } else {
            if let Err(m) = guard(|| b.preprocess(&wl)) {
                panic(ev, "preprocess", m);
                break;
            }
            drain(ev);
            ev.push(json!({"e":"pre"}));
            let mut it = 1usize;
            let mut failed = None;
            loop {
                let r = guard(|| b.boost(&wl, it));
                drain(ev);
                match r {
                    Err(m) => {
                        failed = Some(m);
                        break;
                    }
                    Ok(flow) => {
                        let brk = matches!(flow, ControlFlow::Break(_));
                        let at = match flow {
                            ControlFlow::Break(k) => k as i64,
                            _ => 0,
                        };
                        let cur = guard(|| b.current_hypothesis().parts());
                        let (w, h, ok) = match cur {
                            Ok((w, h)) => (w, h, 1),
                            Err(_) => (vec![], vec![], 0),
                        };
                        ev.push(json!({"e":"step","it":it,"flow": if brk {"B"} else {"C"},
                            "at": at.min(1_000_000_000), "cok": ok, "cw": nums(&w), "ch": ints(&h)}));
                        if brk {
                            break;
                        }
                        it += 1;
                    }
                }
            }
            if let Some(m) = failed {
                panic(ev, "boost", m);
                break;
            }
            out = guard(|| b.postprocess(&wl));
            drain(ev);
        }
        match out {
            Err(m) => {
                panic(ev, if by_run { "run" } else { "postprocess" }, m);
                break;
            }
            Ok(f) => {
                let (w, h) = f.parts();
                let conf = guard(|| f.confidence_all(s));
                let pred = guard(|| f.predict_all(s));
                match (conf, pred) {
                    (Ok(c), Ok(p)) => {
                        let mut e = json!({"e":"end","w":nums(&w),"h":ints(&h),"f":nums(&c),"p":p,"fin":b.ended()});
                        if g.query > 0 {
                            let all = index_sample(&vec![1.0; y.len() + g.query]);
                            match guard(|| (y.len()..y.len() + g.query).map(|r| (f.confidence(&all, r), f.predict(&all, r))).collect::<Vec<_>>()) {
                                Ok(v) => {
                                    e["qf"] = nums(&v.iter().map(|x| x.0).collect::<Vec<_>>());
                                    e["qp"] = json!(v.iter().map(|x| x.1).collect::<Vec<_>>());
                                }
                                Err(m) => {
                                    panic(ev, "evaluate", m);
                                    break;
                                }
                            }
                        }
                        ev.push(e);
                    }
                    (Err(m), _) | (_, Err(m)) => panic(ev, "evaluate", m),
                }
            }
        }
    }
}
