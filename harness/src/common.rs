//! Shared pieces of the conformance harness: scripted weak learners that
//! record what a booster does, and the writer of trace records.
use miniboosts::prelude::*;
use polars::prelude::*;
pub use rand::prelude::*;
pub use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub behaviours: Option<String>,
    pub only: Option<String>,
}

/// Numbers are traced as strings; `{:?}` of an f64 round-trips.
pub fn num(x: f64) -> Value {
    Value::String(format!("{x:?}"))
}
pub fn nums(xs: &[f64]) -> Value {
    Value::Array(xs.iter().map(|x| num(*x)).collect())
}
pub fn ints(xs: &[usize]) -> Value {
    Value::Array(xs.iter().map(|x| json!(x)).collect())
}
pub fn mat(xs: &[Vec<f64>]) -> Value {
    Value::Array(xs.iter().map(|r| nums(r)).collect())
}

/// One line per run, flushed, so that a run that never ends is visible.
pub struct Out {
    f: std::fs::File,
    only: Option<String>,
    pub n: usize,
    /// seconds after which a run counts as not terminating
    pub run_limit: u64,
}
impl Out {
    pub fn new(cfg: &Cfg) -> Self {
        let f = std::fs::File::create(&cfg.out).expect("trace file");
        Self { f, only: cfg.only.clone(), n: 0, run_limit: 120 }
    }
    pub fn wants(&self, id: &str) -> bool {
        self.only.as_deref().map(|o| o == id).unwrap_or(true)
    }
    /// Announces a run (so that a hang can be attributed), performs it and writes its record.
    pub fn run<F: FnOnce() -> Value>(&mut self, id: &str, f: F) {
        if !self.wants(id) {
            return;
        }
        std::fs::write(format!("{}", CURRENT.with(|c| c.borrow().clone())), id).ok();
        let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let flag = stop.clone();
        let limit = self.run_limit;
        std::thread::spawn(move || {
            let t = std::time::Instant::now();
            while t.elapsed().as_secs() < limit {
                std::thread::sleep(std::time::Duration::from_millis(200));
                if flag.load(std::sync::atomic::Ordering::Relaxed) {
                    return;
                }
            }
            println!("HANG");
            std::process::exit(4);
        });
        let mut v = f();
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        v["id"] = json!(id);
        writeln!(self.f, "{v}").unwrap();
        self.f.flush().unwrap();
        self.n += 1;
    }
}
thread_local! {
    pub static CURRENT: RefCell<String> = RefCell::new(String::new());
}

pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

pub const LIMIT: &str = "VERIF-ASK-LIMIT";

pub fn short(s: &str) -> String {
    s.chars().take(200).map(|c| if c == '"' || c == '\\' || c == '\n' { ' ' } else { c }).collect()
}

// ---------------------------------------------------------------- samples

pub fn dense_sample(x: &[Vec<f64>], y: &[f64]) -> Sample {
    let d = x[0].len();
    let cols: Vec<Series> = (0..d)
        .map(|j| {
            let col: Vec<f64> = x.iter().map(|r| r[j]).collect();
            Series::new(&format!("x{j}"), col)
        })
        .collect();
    let df = DataFrame::new(cols).unwrap();
    let t = Series::new("y", y.to_vec());
    Sample::from_dataframe(df, t).unwrap()
}

/// A sample whose only feature is the row number; scripted hypotheses
/// look rows up by number.
pub fn index_sample(y: &[f64]) -> Sample {
    let x: Vec<Vec<f64>> = (0..y.len()).map(|i| vec![i as f64]).collect();
    dense_sample(&x, y)
}

pub fn labels(rng: &mut StdRng, m: usize) -> Vec<f64> {
    loop {
        let y: Vec<f64> = (0..m).map(|_| if rng.gen::<bool>() { 1.0 } else { -1.0 }).collect();
        let p = y.iter().filter(|v| **v > 0.0).count();
        if p > 0 && p < m {
            return y;
        }
    }
}

// ------------------------------------------------------------- hypotheses

/// A table hypothesis: `conf[row]` is its confidence on `row`.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct H {
    pub id: usize,
    pub conf: Arc<Vec<f64>>,
}
impl H {
    pub fn new(id: usize, conf: Vec<f64>) -> Self {
        H { id, conf: Arc::new(conf) }
    }
}
impl Classifier for H {
    fn confidence(&self, _s: &Sample, row: usize) -> f64 {
        self.conf[row]
    }
}
impl Regressor for H {
    fn predict(&self, _s: &Sample, row: usize) -> f64 {
        self.conf[row]
    }
}

pub struct Ask {
    pub dist: Vec<f64>,
    pub h: usize,
}

/// A weak learner under the harness's control. `f(round, dist)` (round from
/// 0) picks the answer; every query is recorded.
pub struct Rec<F> {
    pub asks: RefCell<Vec<Ask>>,
    pub limit: usize,
    pub f: F,
}
impl<F: Fn(usize, &[f64]) -> H> Rec<F> {
    pub fn new(limit: usize, f: F) -> Self {
        Rec { asks: RefCell::new(Vec::new()), limit, f }
    }
}
impl<F: Fn(usize, &[f64]) -> H> WeakLearner for Rec<F> {
    type Hypothesis = H;
    fn name(&self) -> &str {
        "scripted"
    }
    fn produce(&self, _sample: &Sample, dist: &[f64]) -> H {
        let k = self.asks.borrow().len();
        if k >= self.limit {
            panic!("{LIMIT}");
        }
        let h = (self.f)(k, dist);
        self.asks.borrow_mut().push(Ask { dist: dist.to_vec(), h: h.id });
        h
    }
}

pub fn edge(y: &[f64], d: &[f64], c: &[f64]) -> f64 {
    y.iter().zip(d).zip(c).map(|((y, d), c)| y * d * c).sum()
}

/// Index of the hypothesis of largest edge (first one on ties).
pub fn best(y: &[f64], d: &[f64], class: &[Vec<f64>]) -> usize {
    let mut b = 0;
    let mut be = f64::NEG_INFINITY;
    for (k, c) in class.iter().enumerate() {
        let e = edge(y, d, c);
        if e > be + 1e-12 {
            be = e;
            b = k;
        }
    }
    b
}

pub fn rand_conf(rng: &mut StdRng, m: usize, kind: usize) -> Vec<f64> {
    (0..m)
        .map(|_| match kind % 4 {
            0 => if rng.gen::<bool>() { 1.0 } else { -1.0 },
            1 => rng.gen_range(-100..=100) as f64 / 100.0,
            2 => [-1.0, 0.0, 1.0][rng.gen_range(0..3)],
            _ => rng.gen_range(-1.0..1.0),
        })
        .collect()
}

/// now and then a large size
pub fn size(rng: &mut StdRng, k: usize, every: usize, big: std::ops::RangeInclusive<usize>, m: usize) -> usize {
    if k % every == every / 2 { rng.gen_range(big) } else { m }
}
