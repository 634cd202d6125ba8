//! Operations on combined hypotheses, and storing hypotheses.
use crate::common::*;
use miniboosts::prelude::*;
use serde::de::DeserializeOwned;
use serde::Serialize;

type V = WeightedMajority<H>;

fn observe(v: &V, s: &Sample) -> Value {
    let n = s.shape().0;
    let conf: Vec<f64> = (0..n).map(|r| v.confidence(s, r)).collect();
    let pred: Vec<i64> = (0..n).map(|r| Classifier::predict(v, s, r)).collect();
    let reg: Vec<f64> = (0..n).map(|r| Regressor::predict(v, s, r)).collect();
    let regall: Vec<f64> = Regressor::predict_all(v, s);
    let predall: Vec<i64> = Classifier::predict_all(v, s);
    let (dw, dh) = v.clone().decompose();
    json!({"e":"obs","w":nums(&v.weights),"h":ids(&v.hypotheses),"dw":nums(&dw),"dh":ids(&dh),"conf":nums(&conf),"pred":pred,
        "confall":nums(&v.confidence_all(s)),"predall":predall,"reg":nums(&reg),"regall":nums(&regall)})
}
fn ids(hs: &[H]) -> Value {
    ints(&hs.iter().map(|h| h.id).collect::<Vec<_>>())
}

fn play(tab: &[Vec<f64>], ops: &[(String, Vec<f64>, Vec<usize>)]) -> Value {
    let s = index_sample(&vec![1.0; tab[0].len()]);
    let hs: Vec<H> = tab.iter().enumerate().map(|(k, c)| H::new(k, c.clone())).collect();
    let mut v: V = WeightedMajority { weights: vec![], hypotheses: vec![] };
    let mut ev: Vec<Value> = vec![];
    for (o, w, h) in ops {
        ev.push(json!({"e":o,"w":nums(w),"h":ints(h)}));
        let r = guard(|| {
            let mut u = v.clone();
            match o.as_str() {
                "build" => {
                    let m: Vec<H> = h.iter().map(|k| hs[*k].clone()).collect();
                    u = WeightedMajority::from_slices(w, &m);
                }
                "new" => u = WeightedMajority { weights: vec![], hypotheses: vec![] },
                "push" => u.push(w[0], hs[h[0]].clone()),
                "norm" => u.normalize(),
                "store" => u = serde_json::from_str(&serde_json::to_string(&u).unwrap()).unwrap(),
                _ => unreachable!(),
            }
            let o = observe(&u, &s);
            (u, o)
        });
        match r {
            Ok((u, o)) => {
                v = u;
                ev.push(o);
            }
            Err(m) => {
                ev.push(json!({"e":"panic","at":o,"msg":short(&m)}));
                break;
            }
        }
    }
    json!({"tab": mat(tab), "ev": ev})
}

fn stored<T: Serialize + DeserializeOwned, A: Fn(&T) -> Vec<f64>>(kind: &str, h: &T, answer: A) -> Value {
    let r = guard(|| {
        let a = serde_json::to_string(h).unwrap();
        let u: T = serde_json::from_str(&a).unwrap();
        let b = serde_json::to_string(&u).unwrap();
        (answer(h), answer(&u), a == b)
    });
    match r {
        Ok((a, b, same)) => json!({"e":"stored","kind":kind,"before":nums(&a),"after":nums(&b),"same":same}),
        Err(m) => json!({"e":"panic","at":kind,"msg":short(&m)}),
    }
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x1414);
    if let Some(f) = &cfg.behaviours {
        let tab = vec![vec![1.0, -0.3, 1.0], vec![-0.5, 1.0, 0.2], vec![0.0, 0.4, -1.0]];
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let v: Value = serde_json::from_str(&line.replace("<<", "[").replace(">>", "]")).expect("behaviour");
            let ops: Vec<(String, Vec<f64>, Vec<usize>)> = v.as_array().unwrap().iter().map(|o| {
                (o[0].as_str().unwrap().to_string(),
                 o[1].as_array().unwrap().iter().map(|x| crate::exp::parse_num(x.as_str().unwrap())).collect(),
                 o[2].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect())
            }).collect();
            out.run(&format!("beh-{k}"), || play(&tab, &ops));
        }
    }
    let n = if cfg.thorough { 800 } else { 200 };
    for k in 0..n {
        let rows = rng.gen_range(1..=6);
        let nh = rng.gen_range(1..=6);
        let tab: Vec<Vec<f64>> = (0..nh).map(|j| if k % 3 == 0 { (0..rows).map(|_| rng.gen_range(-4.0..4.0)).collect() } else { rand_conf(&mut rng, rows, j + k) }).collect();
        let scale = [1.0, 1.0, 1e-8, 1e8, 1e-150][k % 5];
        let one = |rng: &mut StdRng| -> f64 {
            match rng.gen_range(0..5) {
                0 => 0.0,
                1 => -0.0,
                2 => [1.0, -1.0][rng.gen_range(0..2)],
                _ => rng.gen_range(-2.0..2.0) * scale,
            }
        };
        let mut ops: Vec<(String, Vec<f64>, Vec<usize>)> = vec![];
        if k % 2 == 0 {
            let c = rng.gen_range(1..=6);
            let mut w: Vec<f64> = (0..c).map(|_| one(&mut rng)).collect();
            let at = rng.gen_range(0..c);
            w[at] = rng.gen_range(-2.0..2.0) * scale;
            if k % 16 == 0 {
                w.iter_mut().for_each(|w| *w *= 0.0);
            }
            let h = (0..c).map(|_| rng.gen_range(0..nh)).collect();
            ops.push(("build".into(), w, h));
        } else {
            ops.push(("new".into(), vec![], vec![]));
        }
        for _ in 0..rng.gen_range(1..8) {
            match rng.gen_range(0..4) {
                0 if ops.iter().any(|o| o.1.iter().any(|w| *w != 0.0)) => ops.push(("norm".into(), vec![], vec![])),
                1 => ops.push(("store".into(), vec![], vec![])),
                _ => ops.push(("push".into(), vec![one(&mut rng)], vec![rng.gen_range(0..nh)])),
            }
        }
        out.run(&format!("ops-{k}"), || play(&tab, &ops));
    }
    // hypotheses of the real weak learners
    let n = if cfg.thorough { 200 } else { 60 };
    for k in 0..n {
        let m = rng.gen_range(4..=20);
        let m = size(&mut rng, k, 30, 100..=300, m);
        let d = rng.gen_range(1..=3);
        let x: Vec<Vec<f64>> = (0..m).map(|_| (0..d).map(|_| rng.gen_range(-5.0..5.0)).collect()).collect();
        let y = labels(&mut rng, m);
        let q = dense_sample(&(0..10).map(|_| (0..d).map(|_| rng.gen_range(-6.0..6.0)).collect()).collect::<Vec<Vec<f64>>>(), &[1.0; 10]);
        let mut p: Vec<f64> = (0..m).map(|_| rng.gen_range(0.0..1.0)).collect();
        let z: f64 = p.iter().sum();
        p.iter_mut().for_each(|v| *v /= z);
        out.run(&format!("stored-{k}"), || {
            let s = dense_sample(&x, &y);
            let mut ev = vec![];
            let r = guard(|| {
                let tree = DecisionTreeBuilder::new(&s).max_depth(1 + k % 4).build().produce(&s, &p);
                let stump = DecisionTreeBuilder::new(&s).max_depth(1).criterion(Criterion::Edge).build().produce(&s, &p);
                let nb = GaussianNB::init().produce(&s, &p);
                let reg = RegressionTreeBuilder::new(&s).loss(GBMLoss::L2).max_depth(1 + k % 4).build().produce(&s, &p);
                (tree, stump, nb, reg)
            });
            match r {
                Ok((tree, stump, nb, reg)) => {
                    ev.push(stored("tree", &tree, |h| h.confidence_all(&q)));
                    ev.push(stored("naive Bayes", &nb, |h| h.confidence_all(&q)));
                    ev.push(stored("regression tree", &reg, |h| Regressor::predict_all(h, &q)));
                    let vote = WeightedMajority::from_slices(&[p[0], -0.37], &[tree, stump]);
                    ev.push(stored("vote of trees", &vote, |h| Classifier::confidence_all(h, &q)));
                    let sum = WeightedMajority { weights: vec![p[1], -2.5], hypotheses: vec![reg.clone(), reg] };
                    ev.push(stored("sum of regression trees", &sum, |h| Regressor::predict_all(h, &q)));
                }
                Err(m) => ev.push(json!({"e":"panic","at":"produce","msg":short(&m)})),
            }
            json!({"tab": [["0"]], "ev": ev})
        });
    }
}
