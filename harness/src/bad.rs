//! The worst-case base learner.
use crate::common::*;
use miniboosts::prelude::*;
use miniboosts::BadClassifier;
use std::cell::RefCell;

struct Spy {
    wl: BadBaseLearner,
    ev: RefCell<Vec<Value>>,
}
impl Spy {
    fn new(n: usize, tol: Option<f64>, nu: Option<f64>, s: &Sample) -> Self {
        let mut b = BadBaseLearnerBuilder::new(s);
        if let Some(t) = tol {
            b = b.tolerance(t);
        }
        if let Some(v) = nu {
            b = b.nu(v);
        }
        let ev = vec![json!({"e":"build","n":n,"tol":num(tol.unwrap_or(1e-9)),"nu":num(nu.unwrap_or(1.0))})];
        Spy { wl: b.build(), ev: RefCell::new(ev) }
    }
}
impl WeakLearner for Spy {
    type Hypothesis = BadClassifier;
    fn name(&self) -> &str {
        "spy"
    }
    fn produce(&self, sample: &Sample, dist: &[f64]) -> BadClassifier {
        if self.ev.borrow().len() > 400 {
            panic!("{LIMIT}");
        }
        let h = self.wl.produce(sample, dist);
        let u: Vec<f64> = sample.target().iter().zip(h.confidence_all(sample)).map(|(y, c)| y * c).collect();
        self.ev.borrow_mut().push(json!({"e":"ask","d":nums(dist),"u":nums(&u)}));
        h
    }
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed);
    let runs = if cfg.thorough { 300 } else { 80 };
    for k in 0..runs {
        let n = if k % 10 == 9 { rng.gen_range(20..=60) } else { rng.gen_range(2..=16) };
        let n = if k == 4 { 1 } else { n };
        let dummy = k % 2 == 0;
        let y = if dummy { vec![] } else { labels(&mut rng, n) };
        let tol = if k % 7 == 0 { None } else { Some([1e-6, 0.01, 0.5, 1.0][rng.gen_range(0..4)]) };
        let nu = match k % 5 {
            0 => None,
            1 => Some(n as f64),
            2 => Some(rng.gen_range(1..=n) as f64),
            _ => Some(rng.gen_range(1.0..=n as f64)),
        };
        out.run(&format!("ask-{k}"), || {
            let mut pre = vec![];
            let s = if dummy {
                let s = Sample::dummy(n);
                let x: Vec<Vec<f64>> = (0..n).map(|i| s.at(i).0).collect();
                pre.push(json!({"e":"dummy","n":n,"shape":[s.shape().0, s.shape().1],"y":nums(s.target()),"x":mat(&x)}));
                s
            } else {
                index_sample(&y)
            };
            let spy = match guard(|| Spy::new(n, tol, nu, &s)) {
                Ok(v) => v,
                Err(m) => return json!({"ev":[{"e":"panic","at":"build","msg":short(&m)}]}),
            };
            for q in 0..12 {
                let mut d: Vec<f64> = match q {
                    0 => vec![1.0; n],
                    1..=5 => {
                        let i = rng.gen_range(0..n);
                        (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()
                    }
                    6 | 7 => {
                        let (i, w) = (rng.gen_range(0..n), rng.gen_range(1..=n));
                        (0..n).map(|j| if j >= i && j < i + w { 1.0 } else { 0.0 }).collect()
                    }
                    _ => (0..n).map(|_| rng.gen_range(0.0..1.0)).collect(),
                };
                let z: f64 = d.iter().sum();
                d.iter_mut().for_each(|v| *v /= z);
                if let Err(m) = guard(|| spy.produce(&s, &d)) {
                    spy.ev.borrow_mut().push(json!({"e":"panic","at":"produce","msg":short(&m)}));
                    break;
                }
            }
            pre.extend(spy.ev.into_inner());
            json!({"ev": pre})
        });
    }
    let games = if cfg.thorough { 60 } else { 24 };
    for k in 0..games {
        let n = [4, 6, 8, 10, 12, 16, 20, 7, 9, 24, 30, 40][k % 12];
        let nu = 1.0f64.max([1.0f64, 2.0, 1.5, 1.0, 3.0][k % 5].min(n as f64 / 4.0).floor());
        let tol = [0.5, 1.0, 0.1, 0.02][k / 3 % 4];
        let btol = [0.1, 0.01, 0.3][k % 3];
        out.run(&format!("game-{k}"), || {
            let s = Sample::dummy(n);
            let spy = Spy::new(n, Some(tol), Some(nu), &s);
            let r = guard(|| {
                let mut b = LPBoost::init(&s).tolerance(btol).nu(nu);
                b.run(&spy);
            });
            let mut ev = spy.ev.into_inner();
            ev.push(match r {
                Ok(()) => json!({"e":"end","tol":num(btol)}),
                Err(m) => json!({"e":"panic","at":"run","msg":short(&m)}),
            });
            json!({"ev": ev})
        });
    }
}
