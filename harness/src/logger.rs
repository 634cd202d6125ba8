//! The logger, compared with the same game driven by hand.
use crate::anygame::ALL;
use crate::common::*;
use crate::game::*;
use crate::with_booster;
use miniboosts::prelude::*;
use miniboosts::research::{ObjectiveFunction, Research};
use miniboosts::{ExponentialLoss, HardMarginObjective, Logger, LoggerBuilder, SoftMarginObjective};
use std::cell::RefCell;
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::{Duration, Instant};

type Events = Rc<RefCell<Vec<Value>>>;

/// Answers round k with hypothesis k mod n, after a nap.
struct Wl {
    ev: Events,
    asked: std::cell::Cell<usize>,
    class: Vec<Vec<f64>>,
    naps: Vec<u64>,
    max: usize,
}
impl WeakLearner for Wl {
    type Hypothesis = H;
    fn name(&self) -> &str {
        "scripted"
    }
    fn info(&self) -> Option<Vec<(&str, String)>> {
        None
    }
    fn produce(&self, _s: &Sample, dist: &[f64]) -> H {
        let k = self.asked.get();
        if k >= self.max {
            panic!("{LIMIT}");
        }
        self.asked.set(k + 1);
        if let Some(ms) = self.naps.get(k) {
            std::thread::sleep(Duration::from_millis(*ms));
        }
        let h = k % self.class.len();
        self.ev.borrow_mut().push(json!({"e":"ask","d":nums(dist),"h":h}));
        H::new(h, self.class[h].clone())
    }
}

struct SpyObjective {
    ev: Events,
    kind: usize,
    nu: f64,
    nap: u64,
}
impl<O: Classifier> ObjectiveFunction<O> for SpyObjective {
    fn name(&self) -> &str {
        "spy"
    }
    fn eval(&self, s: &Sample, f: &O) -> f64 {
        std::thread::sleep(Duration::from_millis(self.nap));
        let v = match self.kind {
            0 => SoftMarginObjective::new(self.nu).eval(s, f),
            1 => HardMarginObjective::new().eval(s, f),
            _ => ExponentialLoss::new().eval(s, f),
        };
        self.ev.borrow_mut().push(json!({"e":"eval","k":"objective","conf":nums(&f.confidence_all(s)),"v":num(v)}));
        v
    }
}

struct Job<'a> {
    booster: &'a str,
    p: Params,
    y: Vec<f64>,
    yt: Vec<f64>,
    class: Vec<Vec<f64>>,
    limit: Option<u64>,
    unit: usize,
    naps: Vec<u64>,
    nap: u64,
    every: usize,
    kind: usize,
    nu: f64,
    builder: bool,
    file: std::path::PathBuf,
}

/// Drives the booster by hand, for at most `most` rounds.
fn drive<B, O>(job: &Job, b: &mut B, train: &Sample, test: &Sample, most: usize) -> Result<(Vec<Value>, Vec<Value>, Option<Vec<f64>>), String>
where
    B: Booster<H, Output = O> + Research<Output = O>,
    O: Classifier,
{
    let ev: Events = Default::default();
    let wl = Wl { ev: ev.clone(), asked: Default::default(), class: job.class.clone(), naps: vec![], max: 1000 };
    let mut cur = vec![];
    guard(|| {
        b.preprocess(&wl);
        let mut stopped = false;
        for it in 1..=most {
            let flow = b.boost(&wl, it);
            let f = b.current_hypothesis();
            cur.push(json!({"tr":nums(&f.confidence_all(train)),"te":nums(&f.confidence_all(test))}));
            if matches!(flow, ControlFlow::Break(_)) {
                stopped = true;
                break;
            }
        }
        let out = if stopped || most < 25 { Some(b.postprocess(&wl).confidence_all(train)) } else { None };
        (ev.borrow().clone(), cur, out)
    })
}

fn logged<B, O>(job: &Job, b: B, train: &Sample, test: &Sample) -> Value
where
    B: Booster<H, Output = O> + Research<Output = O>,
    O: Classifier,
{
    let ev: Events = Default::default();
    let wl = Wl { ev: ev.clone(), asked: Default::default(), class: job.class.clone(), naps: job.naps.clone(), max: 200 };
    let obj = SpyObjective { ev: ev.clone(), kind: job.kind, nu: job.nu, nap: job.nap };
    let (mt, e2) = (test.shape().0, ev.clone());
    let loss = move |s: &Sample, f: &O| -> f64 {
        let p = f.predict_all(s);
        let v = p.iter().zip(s.target()).filter(|(p, y)| **p as f64 != **y).count() as f64 / p.len() as f64;
        let k = if s.shape().0 == mt { "test" } else { "train" };
        e2.borrow_mut().push(json!({"e":"eval","k":k,"conf":nums(&f.confidence_all(s)),"v":num(v)}));
        v
    };
    ev.borrow_mut().push(match job.limit {
        None => json!({"e":"start","limit":-1}),
        Some(ms) => json!({"e":"start","limit":ms * [1, 1000, 60_000][job.unit]}),
    });
    let t = Instant::now();
    let out = guard(|| {
        if job.builder {
            let mut l = LoggerBuilder::new()
                .booster(b).weak_learner(wl).train_sample(train).test_sample(test)
                .objective_function(obj).loss_function(loss).print_every(job.every);
            if let Some(v) = job.limit {
                l = match job.unit {
                    0 => l.time_limit_as_millis(v as u128),
                    1 => l.time_limit_as_secs(v),
                    _ => l.time_limit_as_mins(v),
                };
            }
            l.build().run(&job.file).unwrap().confidence_all(train)
        } else {
            let mut l = Logger::new(b, wl, obj, loss, train, test).print_every(job.every);
            if let Some(v) = job.limit {
                l = match job.unit {
                    0 => l.time_limit_as_millis(v as u128),
                    1 => l.time_limit_as_secs(v),
                    _ => l.time_limit_as_mins(v),
                };
            }
            l.run(&job.file).unwrap().confidence_all(train)
        }
    });
    let wall = t.elapsed().as_millis() as u64 + 1;
    let evals = ev.borrow().iter().filter(|e| e["k"] == "objective").count() as u64;
    ev.borrow_mut().push(match out {
        Ok(f) => json!({"e":"end","out":nums(&f),"wall":wall - (evals * job.nap).min(wall)}),
        Err(m) => json!({"e":"panic","at":"run","msg":short(&m)}),
    });
    let ev = ev.borrow().clone();
    json!({"ev": ev})
}

fn file(p: &std::path::Path) -> Value {
    let text = std::fs::read_to_string(p).unwrap_or_default();
    let mut it = text.lines();
    let header = it.next().unwrap_or("").to_string();
    let rows: Vec<Value> = it
        .map(|l| {
            let c: Vec<&str> = l.split(',').collect();
            let g = |i: usize| num(c.get(i).and_then(|x| x.trim().parse::<f64>().ok()).unwrap_or(f64::NAN));
            json!({"n":c.len(),"obj":g(0),"train":g(1),"test":g(2),"ms":c.get(3).and_then(|x| x.trim().parse::<i64>().ok()).unwrap_or(-1)})
        })
        .collect();
    json!({"header":header,"rows":rows,"tail":text.ends_with('\n') as usize})
}

macro_rules! fresh {
    ($job:expr, $s:expr, $b:ident, $e:expr) => {
        with_booster!($job.booster, &$job.p, $s, $b, $e, {
            #[allow(unused_mut)]
            let mut $b = GraphSepBoost::init($s);
            $e
        })
    };
}

fn play(job: &mut Job) -> Value {
    let (train, test) = (index_sample(&job.y), index_sample(&job.yt));
    let excuse = |why: &str| json!({"ev":[{"e":"excuse","why":why}],"ref":{"asks":[],"cur":[],"out":[]},"file":{},"sleep":[]});
    let (asks, cur, out) = match fresh!(job, &train, b, drive(job, &mut b, &train, &test, 25)) {
        Ok(v) => v,
        Err(m) => return excuse(&short(&m)),
    };
    if out.is_none() {
        // the game is long; it is cut by the time limit
        (job.limit, job.unit) = (Some(25), 0);
        job.naps = vec![0; 9];
        job.naps.push(40);
    }
    let mut v = fresh!(job, &train, b, logged(job, b, &train, &test));
    let f = file(&job.file);
    let n = f["rows"].as_array().unwrap().len();
    let out = if n < cur.len() || out.is_none() {
        match fresh!(job, &train, b, drive(job, &mut b, &train, &test, n.min(24))) {
            Ok((_, _, Some(o))) => o,
            _ => return excuse("no output of a game cut short"),
        }
    } else {
        out.unwrap()
    };
    let mut naps = job.naps.clone();
    naps.resize(300, 0);
    // a round that does not ask does not nap
    (asks.len()..300).for_each(|i| naps[i] = 0);
    v["ref"] = json!({"asks":asks,"cur":cur,"out":nums(&out)});
    v["file"] = f;
    v["sleep"] = json!(naps);
    v["booster"] = json!(job.booster);
    std::fs::remove_file(&job.file).ok();
    v
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let dir = std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH");
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x10f);
    let n = if cfg.thorough { 90 } else { 22 };
    for booster in ALL {
        for k in 0..n {
            let m = rng.gen_range(2..=8);
            let y = labels(&mut rng, m);
            let mt = m + [1, 2, 3][k % 3];
            let yt = labels(&mut rng, mt);
            let kind = rng.gen_range(0..5usize);
            let class: Vec<Vec<f64>> = (0..rng.gen_range(1..=6))
                .map(|j| {
                    let mut c = rand_conf(&mut rng, mt, if booster == "graphsepboost" { 0 } else if kind == 4 { j } else { kind });
                    if edge(&y, &vec![1.0; m], &c[..m]) < 0.0 {
                        c.iter_mut().for_each(|v| *v = -*v);
                    }
                    c
                })
                .collect();
            let p = crate::anygame::params(&mut rng, booster, m, k);
            let (limit, unit, naps) = match k % 6 {
                1 => (Some(4), 0, vec![1, 2, 3, 1, 0, 5]),
                2 => (Some(0), [0, 1, 2][k / 6 % 3], vec![0, 0, 2]),
                3 => (Some(1), 2, vec![0, 3]),
                4 => (Some(1), 1, vec![1]),
                5 => (None, 0, vec![3, 0, 2]),
                _ => (None, 0, vec![]),
            };
            let (limit, unit, naps) = if k == 10 && booster == "adaboost" { (Some(1), 1, vec![600; 5]) } else { (limit, unit, naps) };
            let p = if k == 10 && booster == "adaboost" { Params::from([("quit", 4.0)]) } else { p };
            let mut job = Job {
                booster, p, y, yt, class, limit, unit, naps,
                nap: if k % 6 == 5 { 10 } else { 0 },
                every: [usize::MAX, 1, 100][k % 3],
                kind: rng.gen_range(0..3),
                nu: rng.gen_range(1.0..=m as f64),
                builder: k % 2 == 0,
                file: std::path::Path::new(&dir).join("log.csv"),
            };
            out.run(&format!("{booster}-{k}"), || play(&mut job));
        }
    }
}
