//! Projections, edges, margins and entropies as the boosters compute them.
use crate::common::*;
use crate::exp::parse_num;
use miniboosts::verif::utils::*;

struct J {
    y: Vec<f64>,
    h: Vec<Vec<f64>>,
    w: Vec<f64>,
}

fn add<F: FnOnce() -> Value>(ev: &mut Vec<Value>, at: &str, f: F) {
    match guard(f) {
        Ok(v) => ev.push(v),
        Err(m) => ev.push(json!({"e":"panic","at":at,"msg":short(&m)})),
    }
}

fn project(ev: &mut Vec<Value>, logs: &[f64], nu: f64) {
    add(ev, "project", || {
        let d = project_log_distribution_to_capped_simplex(nu, logs.iter().copied());
        json!({"e":"project","of":"logs","logs":nums(logs),"nu":num(nu),"eta":"1","d":nums(&d)})
    });
}

fn margins(ev: &mut Vec<Value>, g: &[f64], nu: f64, eta: f64) {
    add(ev, "project margins", || {
        let d = exp_distribution_from_margins(eta, nu, g.iter().copied());
        json!({"e":"project","of":"margins","logs":nums(g),"nu":num(nu),"eta":num(eta),"d":nums(&d)})
    });
}

fn play(j: &J, rng: &mut StdRng, nus: &[f64], etas: &[f64]) -> Vec<Value> {
    let m = j.y.len();
    let s = index_sample(&j.y);
    let hs: Vec<H> = j.h.iter().enumerate().map(|(k, c)| H::new(k, c.clone())).collect();
    let mut ev = vec![];
    let d = crate::table::dyadic(rng, m, 40, true);
    for (k, h) in hs.iter().enumerate() {
        add(&mut ev, "margins", || json!({"e":"margins","k":k + 1,"v":nums(&margins_of_hypothesis(&s, h))}));
        add(&mut ev, "edge", || json!({"e":"edge","k":k + 1,"d":nums(&d),"v":num(edge_of_hypothesis(&s, &d, h))}));
    }
    add(&mut ev, "votemargins", || json!({"e":"votemargins","v":nums(&margins_of_weighted_hypothesis(&s, &j.w, &hs))}));
    add(&mut ev, "voteedge", || json!({"e":"voteedge","d":nums(&d),"v":num(edge_of_weighted_hypothesis(&s, &d, &j.w, &hs))}));
    for (nu, eta) in nus.iter().zip(etas) {
        add(&mut ev, "logexp", || {
            let v: Vec<f64> = log_exp_distribution(*eta, &s, &j.w, &hs).collect();
            json!({"e":"logexp","eta":num(*eta),"v":nums(&v)})
        });
        add(&mut ev, "exp_distribution", || {
            let d = exp_distribution(*eta, *nu, &s, &j.w, &hs);
            json!({"e":"project","of":"vote","logs":[],"nu":num(*nu),"eta":num(*eta),"d":nums(&d)})
        });
    }
    for d in [d, vec![1.0 / m as f64; m], (0..m).map(|i| (i == m / 2) as u8 as f64).collect()] {
        add(&mut ev, "entropy", || json!({"e":"entropy","d":nums(&d),"v":num(entropy(&d)),"u":num(entropy_from_uni_distribution(&d))}));
    }
    let a: Vec<f64> = (0..m).map(|_| rng.gen_range(-3.0..3.0)).collect();
    let b: Vec<f64> = j.h[0].clone();
    add(&mut ev, "inner", || json!({"e":"inner","a":nums(&a),"b":nums(&b),"v":num(inner_product(&a, &b))}));
    add(&mut ev, "normalize", || {
        let mut v = a.clone();
        normalize(&mut v);
        json!({"e":"normalize","a":nums(&a),"v":nums(&v)})
    });
    ev
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x5173);
    let none = |ev: Vec<Value>| json!({"y":["1"],"h":[["1"]],"w":["1"],"ev":ev});
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let j: Value = serde_json::from_str(line).unwrap();
            let logs: Vec<f64> = j["logs"].as_array().unwrap().iter().map(|x| parse_num(x.as_str().unwrap())).collect();
            let nu = parse_num(j["nu"].as_str().unwrap());
            out.run(&format!("beh-{k}"), || {
                let mut ev = vec![];
                project(&mut ev, &logs, nu);
                none(ev)
            });
        }
    }
    let n = if cfg.thorough { 3000 } else { 400 };
    for k in 0..n {
        let m = if k % 25 == 24 { rng.gen_range(30..=150) } else { rng.gen_range(1..=12) };
        let nus: Vec<f64> = (0..3)
            .map(|i| match i {
                0 => [1.0, m as f64][k % 2],
                1 => rng.gen_range(1..=m) as f64,
                _ => if m == 1 { 1.0 } else { rng.gen_range(1.0..m as f64) },
            })
            .collect();
        if k % 2 == 0 {
            // weights of every size, with ties and far outliers
            let scale = [1.0, 20.0, 700.0, 1e4, 1e-3, 1e6][k / 2 % 6];
            let style = rng.gen_range(0..4);
            let mut logs: Vec<f64> = (0..m)
                .map(|_| match style {
                    0 => scale * rng.gen_range(-1.0..1.0),
                    1 => scale * rng.gen_range(-2..=2) as f64,
                    2 => scale * rng.gen_range(-1.0f64..1.0).powi(5),
                    _ => if rng.gen_range(0..3) == 0 { scale * rng.gen_range(-1.0..0.0) } else { rng.gen_range(-1.0..1.0) },
                })
                .collect();
            if k % 6 == 2 {
                let c = [1e3, -1e3, -2e5][rng.gen_range(0..3)];
                logs.iter_mut().for_each(|v| *v += c);
            }
            out.run(&format!("logs-{k}"), || {
                let mut ev = vec![];
                for nu in &nus {
                    project(&mut ev, &logs, *nu);
                    margins(&mut ev, &logs, *nu, [0.5, 1.0, 37.5][k / 2 % 3]);
                }
                none(ev)
            });
        } else {
            let nh = rng.gen_range(1..=4);
            let y: Vec<f64> = (0..m).map(|_| if rng.gen::<bool>() { 1.0 } else { -1.0 }).collect();
            let h: Vec<Vec<f64>> = (0..nh).map(|i| rand_conf(&mut rng, m, i + k)).collect();
            let mut w: Vec<f64> = (0..nh).map(|_| rng.gen_range(0.0..1.0)).collect();
            if k % 3 == 0 {
                w[0] = 0.0;
            }
            if k % 4 != 2 {
                for v in w.iter_mut().skip(k % 2) {
                    if rng.gen_range(0..3) == 0 {
                        *v = -*v;
                    }
                }
            }
            if k % 5 != 0 {
                let z: f64 = w.iter().map(|v| v.abs()).sum::<f64>().max(1e-9);
                w.iter_mut().for_each(|v| *v /= z);
            }
            let etas = [0.5, rng.gen_range(1.0..50.0), 2000.0];
            let mut r = StdRng::seed_from_u64(rng.gen());
            out.run(&format!("vote-{k}"), || {
                let j = J { y, h, w };
                let ev = play(&j, &mut r, &nus, &etas);
                json!({"y":nums(&j.y),"h":mat(&j.h),"w":nums(&j.w),"ev":ev})
            });
        }
    }
}
