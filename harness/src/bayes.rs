//! The naive Bayes learner.
use crate::common::*;
use crate::exp::parse_num;
use crate::table::*;
use miniboosts::prelude::*;

struct Job {
    x: Vec<Vec<f64>>,
    y: Vec<f64>,
    w: Vec<Vec<f64>>,
    query: Vec<Vec<f64>>,
    sparse: bool,
}

fn play(job: &Job) -> Value {
    let mut ev: Vec<Value> = vec![];
    let (m, d) = (job.y.len(), job.x[0].len());
    let r = guard(|| {
        let s = if job.sparse { read_svm(&svm_of(&job.x, &job.y, &mut || false)) } else { read_frame(&frame_of(&job.x, &job.y)) };
        let all: Vec<Vec<f64>> = job.x.iter().chain(&job.query).cloned().collect();
        let q = read_frame(&frame_of(&all, &vec![1.0; all.len()]));
        (s, q, all)
    });
    let (s, q, all) = match r {
        Ok(v) => v,
        Err(m) => return json!({"ev":[{"e":"panic","at":"read","msg":short(&m)}]}),
    };
    let cols: Vec<Vec<f64>> = (0..d).map(|j| (0..m).map(|i| job.x[i][j]).collect()).collect();
    let nb = GaussianNB::init();
    for w in &job.w {
        ev.push(json!({"e":"fit","cols":mat(&cols),"y":nums(&job.y),"w":nums(w)}));
        let r = guard(|| {
            let h = nb.produce(&s, w);
            let prob: Vec<Value> = (0..all.len())
                .map(|i| Value::Array(h.probabilities(&q, i).iter().map(|(y, p)| json!([num(*y), num(*p)])).collect()))
                .collect();
            json!({"e":"ask","rows":mat(&all),"ans":nums(&h.confidence_all(&q)),"pred":h.predict_all(&q),"prob":prob})
        });
        match r {
            Ok(v) => ev.push(v),
            Err(m) => {
                ev.push(json!({"e":"panic","at":"produce","msg":short(&m)}));
                break;
            }
        }
    }
    json!({"ev": ev})
}

fn arr(v: &Value) -> Vec<f64> {
    v.as_array().unwrap().iter().map(|x| parse_num(x.as_str().unwrap())).collect()
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed);
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let j: Value = serde_json::from_str(line).unwrap();
            let cols: Vec<Vec<f64>> = j["cols"].as_array().unwrap().iter().map(arr).collect();
            let m = cols[0].len();
            let x: Vec<Vec<f64>> = (0..m).map(|i| cols.iter().map(|c| c[i]).collect()).collect();
            let mut w = arr(&j["w"]);
            let z: f64 = w.iter().sum();
            w.iter_mut().for_each(|v| *v /= z);
            let job = Job { x, y: arr(&j["y"]), w: vec![w], query: vec![arr(&j["row"])], sparse: k % 3 == 1 };
            out.run(&format!("beh-{k}"), || play(&job));
        }
    }
    let n = if cfg.thorough { 1500 } else { 240 };
    for k in 0..n {
        let m = rng.gen_range(2..=16);
        let m = size(&mut rng, k, 80, 100..=260, m);
        let d = if k % 8 == 7 { rng.gen_range(20..60) } else { rng.gen_range(1..=5) };
        let style = rng.gen_range(0..5);
        let one = |rng: &mut StdRng| -> f64 {
            match style {
                0 => rng.gen_range(-3..=3) as f64,
                1 => [0.0, 1.0][rng.gen_range(0..2)],
                2 => rng.gen_range(-20..=20) as f64 / 4.0,
                3 => 1e3 * rng.gen_range(-1.0..1.0),
                _ => if rng.gen::<bool>() { 0.0 } else { rng.gen_range(-0.05..0.05) },
            }
        };
        let x: Vec<Vec<f64>> = (0..m).map(|_| (0..d).map(|_| one(&mut rng)).collect()).collect();
        // between the examples, and far away from them
        let query: Vec<Vec<f64>> = (0..6)
            .map(|i| (0..d).map(|_| one(&mut rng) * [0.5, 1.0, 1.3, 30.0, 1e3, 1.0][i] + 0.01).collect())
            .collect();
        let y = match k % 6 {
            5 => (0..m).map(|_| [0.0, 1.0, 2.0, 5.0][rng.gen_range(0..4)]).collect(),
            4 if k % 24 == 4 => vec![[1.0, -1.0][k / 24 % 2]; m],
            _ => labels(&mut rng, m),
        };
        let w = (0..rng.gen_range(1..=3))
            .map(|_| {
                let mut w: Vec<f64> = match rng.gen_range(0..5) {
                    0 => vec![1.0; m],
                    1 => (0..m).map(|_| rng.gen_range(0.0..1.0)).collect(),
                    2 => (0..m).map(|_| [0.0, 1.0, 2.0][rng.gen_range(0..3)]).collect(),
                    3 => (0..m).map(|_| 10f64.powi(-rng.gen_range(0..12)) * rng.gen_range(0.5..1.0)).collect(),
                    _ => (0..m).map(|i| if y[i] == y[0] { 1.0 } else { [0.0, 1e-9][k % 2] }).collect(),
                };
                if w.iter().sum::<f64>() <= 0.0 {
                    w[0] = 1.0;
                }
                let z: f64 = w.iter().sum();
                w.iter_mut().for_each(|v| *v /= z);
                w
            })
            .collect();
        let job = Job { x, y, w, query, sparse: k % 3 == 1 };
        out.run(&format!("rand-{k}"), || play(&job));
    }
}
