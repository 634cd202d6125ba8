// Shared by the demonstrations: samples, scripted weak learners, small oracles.
#![allow(dead_code, unused_imports, unused_macros)]
use miniboosts::prelude::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub fn scratch(name: &str) -> String {
    format!("{}/{}", std::env::var("SCRATCH").expect("SCRATCH"), name)
}

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { println!("FAIL: {}", format!($($a)*)); std::process::exit(1); } };
}
pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs()))
}
pub fn all_close(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| close(*a, *b))
}

thread_local! { static NFILE: Cell<usize> = Cell::new(0); }
pub fn read(text: &str, ext: &str, header: bool, target: &str) -> Sample {
    let k = NFILE.with(|c| { c.set(c.get() + 1); c.get() });
    let p = scratch(&format!("s{k}.{ext}"));
    std::fs::write(&p, text).unwrap();
    SampleReader::default().file(p).has_header(header).target_feature(target).read().unwrap()
}
/// a dense sample with features x0, x1, ... and target y
pub fn dense(x: &[Vec<f64>], y: &[f64]) -> Sample {
    let mut t: String = (0..x[0].len()).map(|j| format!("x{j},")).collect();
    t += "y\n";
    for (r, y) in x.iter().zip(y) {
        for v in r { t += &format!("{v:?},"); }
        t += &format!("{y:?}\n");
    }
    read(&t, "csv", true, "y")
}
/// the same numbers with sparse features; feature j has index j
pub fn sparse(x: &[Vec<f64>], y: &[f64]) -> Sample {
    let mut t = String::new();
    for (r, y) in x.iter().zip(y) {
        t += &format!("{y:?}");
        for (j, v) in r.iter().enumerate() { if *v != 0.0 { t += &format!(" {j}:{v:?}"); } }
        t += "\n";
    }
    read(&t, "svm", false, "y")
}
/// a sample whose only feature is the row number
pub fn rows(y: &[f64]) -> Sample {
    let x: Vec<Vec<f64>> = (0..y.len()).map(|i| vec![i as f64]).collect();
    dense(&x, y)
}

/// a hypothesis given by its confidence on every row
#[derive(Clone, Debug, PartialEq)]
pub struct T(pub usize, pub Rc<Vec<f64>>);
impl Classifier for T {
    fn confidence(&self, _: &Sample, row: usize) -> f64 { self.1[row] }
}
/// a regressor given by its value on every row
#[derive(Clone, Debug, PartialEq)]
pub struct R(pub usize, pub Rc<Vec<f64>>);
impl Regressor for R {
    fn predict(&self, _: &Sample, row: usize) -> f64 { self.1[row] }
}

/// answers from a list (over and over), recording the distributions it was shown
pub struct Script {
    pub hs: Vec<Vec<f64>>,
    pub dists: RefCell<Vec<Vec<f64>>>,
    pub limit: usize,
}
impl Script {
    pub fn new(hs: &[Vec<f64>]) -> Self { Script { hs: hs.to_vec(), dists: RefCell::new(vec![]), limit: 100_000 } }
}
impl WeakLearner for Script {
    type Hypothesis = T;
    fn produce(&self, _: &Sample, dist: &[f64]) -> T {
        let k = self.dists.borrow().len();
        ensure!(k < self.limit, "the weak learner was asked more than {} times", self.limit);
        self.dists.borrow_mut().push(dist.to_vec());
        let k = k % self.hs.len();
        T(k, Rc::new(self.hs[k].clone()))
    }
}

/// the same with regressors: answers from a list (over and over), recording the distributions it was shown
pub struct ScriptR {
    pub hs: Vec<Vec<f64>>,
    pub dists: RefCell<Vec<Vec<f64>>>,
    pub limit: usize,
}
impl ScriptR {
    pub fn new(hs: &[Vec<f64>]) -> Self { ScriptR { hs: hs.to_vec(), dists: RefCell::new(vec![]), limit: 100_000 } }
}
impl WeakLearner for ScriptR {
    type Hypothesis = R;
    fn produce(&self, _: &Sample, dist: &[f64]) -> R {
        let k = self.dists.borrow().len();
        ensure!(k < self.limit, "the weak learner was asked more than {} times", self.limit);
        self.dists.borrow_mut().push(dist.to_vec());
        let k = k % self.hs.len();
        R(k, Rc::new(self.hs[k].clone()))
    }
}

pub fn edge(y: &[f64], d: &[f64], h: &[f64]) -> f64 {
    y.iter().zip(d).zip(h).map(|((y, d), h)| y * d * h).sum()
}

/// answers with a hypothesis of largest edge in a class
pub struct Best {
    pub y: Vec<f64>,
    pub class: Vec<Vec<f64>>,
    pub dists: RefCell<Vec<Vec<f64>>>,
    pub got: RefCell<Vec<usize>>,
    pub limit: usize,
}
impl Best {
    pub fn new(y: &[f64], class: &[Vec<f64>]) -> Self {
        Best { y: y.to_vec(), class: class.to_vec(), dists: RefCell::new(vec![]), got: RefCell::new(vec![]), limit: 100_000 }
    }
}
impl WeakLearner for Best {
    type Hypothesis = T;
    fn produce(&self, _: &Sample, dist: &[f64]) -> T {
        ensure!(self.dists.borrow().len() < self.limit, "the weak learner was asked more than {} times", self.limit);
        self.dists.borrow_mut().push(dist.to_vec());
        let mut b = 0;
        let mut be = f64::NEG_INFINITY;
        for (k, h) in self.class.iter().enumerate() {
            let e = edge(&self.y, dist, h);
            if e > be + 1e-12 { be = e; b = k; }
        }
        self.got.borrow_mut().push(b);
        T(b, Rc::new(self.class[b].clone()))
    }
}

pub fn margins(f: &WeightedMajority<T>, s: &Sample) -> Vec<f64> {
    f.confidence_all(s).into_iter().zip(s.target()).map(|(c, y)| c * y).collect()
}
/// mean of the nu smallest margins
pub fn soft_margin(m: &[f64], nu: f64) -> f64 {
    let mut m = m.to_vec();
    m.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut left = nu;
    let mut v = 0.0;
    for x in m { let w = left.min(1.0); v += w * x; left -= w; }
    v / nu
}
pub fn normal(v: &[f64]) -> Vec<f64> {
    let s: f64 = v.iter().sum();
    v.iter().map(|x| x / s).collect()
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0 >> 33
    }
    pub fn unit(&mut self) -> f64 { self.next() as f64 / (1u64 << 31) as f64 }
    pub fn sign(&mut self) -> f64 { if self.next() % 2 == 0 { 1.0 } else { -1.0 } }
}
/// runs something that may panic
pub fn ok<R>(f: impl FnOnce() -> R) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => { println!("FAIL: panic"); std::process::exit(1) }
    }
}
