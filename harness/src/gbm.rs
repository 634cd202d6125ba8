//! Runs of the gradient boosting machine.
use crate::common::*;
use miniboosts::prelude::*;
use std::ops::ControlFlow;

struct G<'a> {
    loss: &'a str,
    y: &'a [f64],
    /// values of the regressors on the training rows and q more
    tab: &'a [Vec<f64>],
    q: usize,
    mode: &'a str,
    limit: usize,
    reps: usize,
    /// a tolerance has no influence on the run
    tol: Option<f64>,
}

fn play<P: Fn(usize, &[f64]) -> usize>(g: &G, pick: P) -> Value {
    let m = g.y.len();
    let s = index_sample(g.y);
    let all = index_sample(&vec![0.0; m + g.q]);
    let loss = if g.loss == "L1" { GBMLoss::L1 } else { GBMLoss::L2 };
    let mut b = GBM::init_with_loss(&s, loss);
    if let Some(tol) = g.tol {
        b = b.tolerance(tol);
    }
    let mut ev: Vec<Value> = vec![];
    for _ in 0..g.reps {
        let wl = Rec::new(g.limit, |k, d: &[f64]| {
            let id = pick(k, d);
            H::new(id, g.tab[id].clone())
        });
        let seen = std::cell::Cell::new(0usize);
        let drain = |ev: &mut Vec<Value>| {
            let asks = wl.asks.borrow();
            for a in asks.iter().skip(seen.get()) {
                ev.push(json!({"e":"ask","d":nums(&a.dist),"h":a.h,"u":nums(&g.tab[a.h][..m])}));
            }
            seen.set(asks.len());
        };
        let panic = |ev: &mut Vec<Value>, at: &str, msg: String| {
            if msg.contains(LIMIT) {
                ev.push(json!({"e":"limit"}));
            } else {
                ev.push(json!({"e":"panic","at":at,"msg":short(&msg)}));
            }
        };
        ev.push(json!({"e":"begin","mode":g.mode}));
        let out: Result<WeightedMajority<H>, String>;
        if g.mode == "run" {
            out = guard(|| b.run(&wl));
            drain(&mut ev);
        } else {
            b.preprocess(&wl);
            ev.push(json!({"e":"pre"}));
            let mut it = 1;
            let mut fail = None;
            loop {
                let r = guard(|| b.boost(&wl, it));
                drain(&mut ev);
                match r {
                    Err(m) => {
                        fail = Some(m);
                        break;
                    }
                    Ok(ControlFlow::Break(at)) => {
                        ev.push(json!({"e":"step","flow":"B","it":it,"at":(at as u64).min(1_000_000_000)}));
                        break;
                    }
                    Ok(_) => ev.push(json!({"e":"step","flow":"C"})),
                }
                it += 1;
            }
            if let Some(m) = fail {
                panic(&mut ev, "boost", m);
                break;
            }
            out = guard(|| b.postprocess(&wl));
        }
        match out {
            Err(m) => {
                panic(&mut ev, "run", m);
                break;
            }
            Ok(f) => {
                let fs = guard(|| {
                    let a: Vec<f64> = Regressor::predict_all(&f, &s);
                    let b: Vec<f64> = (m..m + g.q).map(|r| Regressor::predict(&f, &all, r)).collect();
                    (a, b)
                });
                match fs {
                    Ok((a, q)) => ev.push(json!({"e":"end","w":nums(&f.weights),
                        "h":ints(&f.hypotheses.iter().map(|h| h.id).collect::<Vec<_>>()),"f":nums(&a),"qf":nums(&q)})),
                    Err(m) => panic(&mut ev, "evaluate", m),
                }
            }
        }
    }
    json!({"loss": g.loss, "m": m, "q": g.q, "y": nums(g.y), "tab": mat(g.tab), "limit": g.limit, "mode": g.mode, "ev": ev})
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x9999);
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let v: Value = serde_json::from_str(&line.replace("<<", "[").replace(">>", "]")).expect("behaviour");
            let row = |r: &Value| -> Vec<f64> { r.as_array().unwrap().iter().map(|x| crate::exp::parse_num(x.as_str().unwrap())).collect() };
            let y = row(&v[1]);
            let mut tab: Vec<Vec<f64>> = v[2].as_array().unwrap().iter().map(row).collect();
            if tab.is_empty() {
                continue;
            }
            tab.iter_mut().for_each(|c| c.extend([0.5, -2.0]));
            let mode = if k % 4 == 3 { "run" } else { "step" };
            let loss = v[0].as_str().unwrap().to_string();
            out.run(&format!("beh-{k}"), || {
                let g = G { loss: &loss, y: &y, tab: &tab, q: 2, mode, limit: tab.len(), reps: 1, tol: if k % 2 == 0 { None } else { Some(0.1) } };
                play(&g, |r, _| r.min(tab.len() - 1))
            });
        }
    }
    let n = if cfg.thorough { 600 } else { 140 };
    for k in 0..n {
        let m = rng.gen_range(2..=8);
        let m = size(&mut rng, k, 35, 130..=260, m);
        let q = rng.gen_range(0..=4);
        let ints = k % 3 == 0;
        let one = |rng: &mut StdRng| -> f64 { if ints { rng.gen_range(-3..=3) as f64 } else { rng.gen_range(-3.0..3.0) } };
        let y: Vec<f64> = (0..m).map(|_| one(&mut rng) * if k % 5 == 0 { 100.0 } else if k % 14 == 3 { 0.0 } else { 1.0 }).collect();
        let nh = rng.gen_range(1..=6);
        let tab: Vec<Vec<f64>> = (0..nh)
            .map(|j| match (j + k) % 7 {
                0 => vec![1.0; m + q],
                1 => (0..m + q).map(|i| if i == j { 2.0 } else { 0.0 }).collect(),
                2 if k % 4 == 0 => vec![0.0; m + q],
                _ => (0..m + q).map(|_| one(&mut rng)).collect(),
            })
            .collect();
        let loss = if rng.gen::<bool>() { "L1" } else { "L2" };
        let policy = rng.gen_range(0..2);
        let seed: u64 = rng.gen();
        let mode = if k % 3 == 2 { "run" } else { "step" };
        let reps = 1 + (rng.gen_range(0..5) == 0) as usize;
        let limit = if k % 10 == 0 { 105 } else { 12 };
        out.run(&format!("rand-{k}"), || {
            let g = G { loss, y: &y, tab: &tab, q, mode, limit, reps, tol: [None, Some(0.5), Some(1e-3)][k / 2 % 3] };
            play(&g, |r, _| if policy == 0 { r % tab.len() } else { StdRng::seed_from_u64(seed.wrapping_add(r as u64)).gen_range(0..tab.len()) })
        });
    }
    // to the round limit
    for k in 0..4 {
        let y = vec![1.0, 0.3, -2.0 + k as f64];
        let tab = vec![vec![1.0, 0.9, 0.2], vec![0.1, 0.95, -0.3], vec![0.7, -0.2, 1.0], vec![0.3, 0.3, 0.35]];
        let (loss, mode) = (["L1", "L2"][k % 2], ["run", "step"][k / 2]);
        out.run(&format!("limit-{k}"), || {
            let g = G { loss, y: &y, tab: &tab, q: 0, mode, limit: 105, reps: 1, tol: if k == 1 { Some(0.2) } else { None } };
            play(&g, |r, _| r % 4)
        });
    }
}
