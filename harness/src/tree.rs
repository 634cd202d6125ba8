//! Decision trees and regression trees of the real learners, node by node.
use crate::common::*;
use crate::table::*;
use miniboosts::LossFunction;
use miniboosts::prelude::*;

/// A loss whose derivatives are given.
#[derive(Clone)]
pub struct Given {
    g: Vec<f64>,
    h: Vec<f64>,
}
impl LossFunction for Given {
    fn name(&self) -> &str {
        "given"
    }
    fn eval_at_point(&self, _p: f64, _y: f64) -> f64 {
        0.0
    }
    fn gradient(&self, _p: &[f64], _y: &[f64]) -> Vec<f64> {
        self.g.clone()
    }
    fn hessian(&self, _p: &[f64], _y: &[f64]) -> Vec<f64> {
        self.h.clone()
    }
    fn best_coefficient(&self, _r: &[f64], _p: &[f64]) -> f64 {
        1.0
    }
}

#[derive(Clone)]
pub struct Job {
    pub kind: String,
    pub x: Vec<Vec<f64>>,
    pub y: Vec<f64>,
    /// weights of the examples, one vector per tree (newton: Hessians)
    pub w: Vec<Vec<f64>>,
    pub bins: Vec<Option<usize>>,
    pub lam: f64,
    /// as given to the builder
    pub depth: usize,
    /// "given", "L1" or "L2" (then `w` holds predictions)
    pub loss: String,
    pub sparse: bool,
    pub query: Vec<Vec<f64>>,
}

fn criterion(kind: &str) -> Criterion {
    match kind {
        "entropy" => Criterion::Entropy,
        "gini" => Criterion::Gini,
        "twoing" => Criterion::Twoing,
        "edge" => Criterion::Edge,
        k => panic!("criterion {k}"),
    }
}

fn nodes(v: &Value, names: &[String], ev: &mut Vec<Value>) {
    if let Some(b) = v.get("Branch") {
        let f = b["rule"]["feature"].as_str().unwrap();
        let j = names.iter().position(|n| n == f).map(|j| j + 1).unwrap_or(0);
        ev.push(json!({"e":"node","kind":"B","f":j,"thr":num(b["rule"]["threshold"].as_f64().unwrap()),"extra":0,"ans":""}));
        nodes(&b["left"], names, ev);
        nodes(&b["right"], names, ev);
    } else {
        let l = &v["Leaf"];
        let a = if l["confidence"].is_null() { &l["prediction"] } else { &l["confidence"] };
        ev.push(json!({"e":"node","kind":"L","f":0,"thr":"0","extra":0,"ans":num(a.as_f64().unwrap_or(f64::NAN))}));
    }
}

pub fn distinct(col: &[f64]) -> usize {
    let mut c: Vec<f64> = col.iter().map(|v| v + 0.0).collect();
    c.sort_by(|a, b| a.partial_cmp(b).unwrap());
    c.dedup();
    c.len()
}

pub fn play(job: &Job) -> Value {
    let mut ev: Vec<Value> = vec![];
    let d = job.x[0].len();
    let m = job.y.len();
    let r = guard(|| {
        let s = if job.sparse { read_svm(&svm_of(&job.x, &job.y, &mut || false)) } else { read_frame(&frame_of(&job.x, &job.y)) };
        let all: Vec<Vec<f64>> = job.x.iter().chain(&job.query).cloned().collect();
        let ay: Vec<f64> = vec![1.0; all.len()];
        let q = read_frame(&frame_of(&all, &ay));
        (s, q, all)
    });
    let (s, q, all) = match r {
        Ok(v) => v,
        Err(m) => return json!({"ev":[{"e":"panic","at":"read","msg":short(&m)}]}),
    };
    let names: Vec<String> = (1..=d).map(|j| format!("Feat. [{j}]")).collect();
    let cols: Vec<Vec<f64>> = (0..d).map(|j| (0..m).map(|i| job.x[i][j]).collect()).collect();
    let bins: Vec<usize> = (0..d).map(|j| job.bins[j].unwrap_or(distinct(&cols[j]).min(255))).collect();
    let newton = job.kind == "newton";
    let begin = |y: &[f64], w: &[f64]| {
        json!({"e":"begin","kind":job.kind,"cols":mat(&cols),"bins":bins,"y":nums(y),"w":nums(w),"lam":num(job.lam),
            "splits": if newton { job.depth - 1 } else { job.depth }})
    };
    macro_rules! grow {
        ($learner:expr, $w:expr, $ans:expr, $pred:expr) => {{
            let from = ev.len();
            let h = $learner.produce(&s, $w);
            let v = serde_json::to_value(&h).unwrap();
            nodes(&v["root"], &names, &mut ev);
            if newton {
                ev[from..].iter_mut().for_each(|e| e["extra"] = json!(1));
            }
            ev.push(json!({"e":"end","rows":mat(&all),"ans":nums(&$ans(&h)),"pred":$pred(&h)}));
        }};
    }
    if newton {
        let none = |_: &miniboosts::RegressionTreeRegressor| -> Vec<i64> { vec![] };
        let answer = |h: &miniboosts::RegressionTreeRegressor| Regressor::predict_all(h, &q);
        if job.loss == "given" {
            ev.push(begin(&job.y, &job.w[0]));
            let r = guard(|| {
                let mut b = RegressionTreeBuilder::new(&s).loss(Given { g: job.y.clone(), h: job.w[0].clone() }).max_depth(job.depth).lambda_l2(job.lam);
                job.bins.iter().enumerate().for_each(|(j, n)| if let Some(n) = n { b.set_nbins(&names[j], *n) });
                let t = b.build();
                grow!(t, &job.y, answer, none);
            });
            if let Err(m) = r {
                ev.push(json!({"e":"panic","at":"produce","msg":short(&m)}));
            }
        } else {
            let loss = if job.loss == "L1" { GBMLoss::L1 } else { GBMLoss::L2 };
            let mut b = RegressionTreeBuilder::new(&s).loss(loss).max_depth(job.depth).lambda_l2(job.lam);
            job.bins.iter().enumerate().for_each(|(j, n)| if let Some(n) = n { b.set_nbins(&names[j], *n) });
            let t = b.build();
            for p in &job.w {
                let (g, h) = (loss.gradient(p, &job.y), loss.hessian(p, &job.y));
                ev.push(json!({"e":"loss","loss":job.loss,"pred":nums(p),"y":nums(&job.y),"g":nums(&g),"h":nums(&h)}));
                ev.push(begin(&g, &h));
                let r = guard(|| grow!(t, p, answer, none));
                if let Err(m) = r {
                    ev.push(json!({"e":"panic","at":"produce","msg":short(&m)}));
                    break;
                }
            }
        }
    } else {
        let mut b = DecisionTreeBuilder::new(&s).max_depth(job.depth).criterion(criterion(&job.kind));
        job.bins.iter().enumerate().for_each(|(j, n)| if let Some(n) = n { b.set_nbins(&names[j], *n) });
        let t = b.build();
        for w in &job.w {
            ev.push(begin(&job.y, w));
            let r = guard(|| grow!(t, w, |h: &miniboosts::DecisionTreeClassifier| h.confidence_all(&q), |h: &miniboosts::DecisionTreeClassifier| Classifier::predict_all(h, &q)));
            if let Err(m) = r {
                ev.push(json!({"e":"panic","at":"produce","msg":short(&m)}));
                break;
            }
        }
    }
    json!({"ev": ev})
}

fn arr(v: &Value) -> Vec<f64> {
    v.as_array().unwrap().iter().map(|x| crate::exp::parse_num(x.as_str().unwrap())).collect()
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let newton = std::env::var("TREE").expect("TREE") == "newton";
    let mut rng = StdRng::seed_from_u64(cfg.seed);
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let j: Value = serde_json::from_str(line).unwrap();
            let cols: Vec<Vec<f64>> = j["cols"].as_array().unwrap().iter().map(arr).collect();
            let m = cols[0].len();
            let x: Vec<Vec<f64>> = (0..m).map(|i| cols.iter().map(|c| c[i]).collect()).collect();
            let mut w = arr(&j["w"]);
            if !newton {
                let z: f64 = w.iter().sum();
                w.iter_mut().for_each(|v| *v /= z);
            }
            let query = (0..3).map(|i| cols.iter().map(|_| [-0.3, 1.1, 2.7][i]).collect()).collect();
            let splits = j["splits"].as_u64().unwrap() as usize;
            let job = Job {
                kind: j["kind"].as_str().unwrap().into(),
                x,
                y: arr(&j["y"]),
                w: vec![w],
                bins: j["bins"].as_array().unwrap().iter().map(|b| Some(b.as_u64().unwrap() as usize)).collect(),
                lam: crate::exp::parse_num(j["lam"].as_str().unwrap()),
                depth: if newton { splits + 1 } else { splits },
                loss: "given".into(),
                sparse: k % 3 == 1,
                query,
            };
            out.run(&format!("beh-{k}"), || play(&job));
        }
    }
    let n = if cfg.thorough { 1500 } else { 240 };
    for k in 0..n {
        let m = if k % 24 == 11 { rng.gen_range(24..=48) } else { rng.gen_range(2..=if k % 10 == 9 { 24 } else { 12 }) };
        let m = size(&mut rng, k, 60, 60..=200, m);
        let d = rng.gen_range(1..=4);
        let style = if k % 24 == 11 { 3 } else { rng.gen_range(0..5) };
        let scale = [1.0, 1.0, 1e-4, 1e5, 1.0][rng.gen_range(0..5)];
        let shift = [0.0, 0.0, -7.5, 40.0][rng.gen_range(0..4)];
        let one = |rng: &mut StdRng| -> f64 {
            match style {
                0 => rng.gen_range(-3..=3) as f64,
                1 => [0.0, 1.0][rng.gen_range(0..2)],
                2 => rng.gen_range(-20..=20) as f64 / 4.0,
                3 => shift + scale * rng.gen_range(-1.0..1.0),
                _ => if rng.gen::<bool>() { 0.0 } else { rng.gen_range(-5.0..5.0) },
            }
        };
        let mut x: Vec<Vec<f64>> = (0..m).map(|_| (0..d).map(|_| one(&mut rng)).collect()).collect();
        let query: Vec<Vec<f64>> = (0..6).map(|_| (0..d).map(|_| one(&mut rng) * 1.3 + 0.01).collect()).collect();
        if k % 12 == 5 {
            let c = [0.0, 2.5, -1.0][k % 3];
            x.iter_mut().for_each(|r| r[0] = c);
        }
        let bins = (0..d).map(|_| if rng.gen_range(0..3) == 0 { Some(rng.gen_range(1..=9)) } else { None }).collect();
        let deep = k % 24 == 11;
        let depth = if deep { rng.gen_range(7..=11) } else { rng.gen_range(1..=4) };
        let sparse = k % 3 == 1;
        let job = if newton {
            let loss = ["L2", "L1", "given"][rng.gen_range(0..3)].to_string();
            let ints = rng.gen::<bool>();
            // targets of any unit
            let unit = [1.0, 1.0, 1.0, 1e-2, 1e-4, 1e3, 1.0][k % 7];
            let val = |rng: &mut StdRng| unit * if ints { rng.gen_range(-3..=3) as f64 } else { rng.gen_range(-4.0..4.0) };
            let y: Vec<f64> = (0..m).map(|_| val(&mut rng)).collect();
            let trees = if loss == "given" { 1 } else { rng.gen_range(1..=3) };
            let w = (0..trees)
                .map(|q| (0..m).map(|_| if loss == "given" { if ints { [0.0, 0.25, 1.0, 2.0][rng.gen_range(0..4)] } else { rng.gen_range(0.0..2.0) } } else if q == 0 && k % 4 == 0 { 0.0 } else { val(&mut rng) }).collect())
                .collect();
            let lam = [0.01, 0.01, 1.0, 0.5, 25.0, 0.001][rng.gen_range(0..6)];
            let lam = if loss == "L2" && rng.gen_range(0..3) == 0 { 0.0 } else { lam };
            Job { kind: "newton".into(), x, y, w, bins, lam, depth, loss, sparse, query }
        } else {
            let kind = ["entropy", "gini", "twoing", "edge"][k % 4].to_string();
            let y = if k % 20 == 19 { vec![[1.0, -1.0][k / 20 % 2]; m] } else { labels(&mut rng, m) };
            let trees = rng.gen_range(1..=3);
            let w = (0..trees)
                .map(|_| match rng.gen_range(0..5) {
                    0 => vec![1.0 / m as f64; m],
                    1 => dyadic(&mut rng, m, 20, true),
                    2 => dyadic(&mut rng, m, 45, false),
                    3 => {
                        // a few examples have almost all the weight
                        let mut w: Vec<f64> = (0..m).map(|_| 10f64.powi(-rng.gen_range(0..14)) * rng.gen_range(0.5..1.0)).collect();
                        let z: f64 = w.iter().sum();
                        w.iter_mut().for_each(|v| *v /= z);
                        w
                    }
                    _ => {
                        let mut w: Vec<f64> = (0..m).map(|_| rng.gen_range(0.0..1.0)).collect();
                        let z: f64 = w.iter().sum();
                        w.iter_mut().for_each(|v| *v /= z);
                        w
                    }
                })
                .collect();
            Job { kind, x, y, w, bins, lam: 0.0, depth, loss: "".into(), sparse, query }
        };
        out.run(&format!("rand-{k}"), || play(&job));
    }
    // only a chain of cuts tells the labels apart
    for k in 0..if newton { 0 } else { 8 } {
        let m: usize = rng.gen_range(11..=15);
        let x: Vec<Vec<f64>> = (0..m).map(|i| vec![i as f64 - 2.0]).collect();
        let y: Vec<f64> = (0..m).map(|i| if (i + k) % 2 == 0 { 1.0 } else { -1.0 }).collect();
        let mut w: Vec<f64> = (0..m).map(|i| 0.5f64.powi(i as i32)).collect();
        let z: f64 = w.iter().sum();
        w.iter_mut().for_each(|v| *v /= z);
        let kind = ["entropy", "gini", "twoing", "edge"][k % 4].to_string();
        let depth = if k < 4 { 20 } else { rng.gen_range(7..=10) };
        let job = Job { kind, x, y, w: vec![w], bins: vec![None], lam: 0.0, depth, loss: "".into(), sparse: k % 2 == 1, query: vec![vec![0.4]] };
        out.run(&format!("chain-{k}"), || play(&job));
    }
    // more values than the default number of bins
    for k in 0..2 {
        let m = 262 - 2 * k;
        let mut v: Vec<f64> = (0..m).map(|i| i as f64).collect();
        v.shuffle(&mut rng);
        let x: Vec<Vec<f64>> = v.iter().map(|a| vec![*a]).collect();
        let (kind, y, w): (&str, Vec<f64>, Vec<f64>) = if newton {
            ("newton", v.iter().map(|a| (if *a > 100.0 { 1.0 } else { -2.0 }) * (1.0 + (*a % 5.0))).collect(), vec![1.0; m])
        } else {
            (["gini", "edge"][k], v.iter().map(|a| if (*a > 100.0) ^ (*a % 7.0 < 2.0) { 1.0 } else { -1.0 }).collect(), dyadic(&mut rng, m, 20, true))
        };
        let job = Job { kind: kind.into(), x, y, w: vec![w], bins: vec![None], lam: 0.5, depth: 1 + newton as usize, loss: "given".into(), sparse: false, query: vec![] };
        out.run(&format!("wide-{k}"), || play(&job));
    }
}
