//! Runs of the boosters that optimise the soft margin.
use crate::common::*;
use crate::game::*;
use crate::opt;

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let which = std::env::var("BOOSTER").expect("BOOSTER");
    let which = which.as_str();
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x1234);
    let capped = which != "totalboost";
    let fw = which == "cerlpboost" || which == "mlpboost";
    // behaviours of the specification: (algorithm, nu, tolerance, rule, class)
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let v: Value = serde_json::from_str(&line.replace("<<", "[").replace(">>", "]")).expect("behaviour");
            let q = |i: usize| crate::exp::parse_num(v[i].as_str().unwrap());
            let cls: Vec<Vec<f64>> = v[4].as_array().unwrap().iter()
                .map(|r| r.as_array().unwrap().iter().map(|x| crate::exp::parse_num(x.as_str().unwrap())).collect()).collect();
            let m = cls[0].len();
            let y: Vec<f64> = (0..m).map(|i| if (i + k) % 2 == 0 { 1.0 } else { -1.0 }).collect();
            let class: Vec<Vec<f64>> = cls.iter().map(|u| u.iter().zip(&y).map(|(u, y)| u * y).collect()).collect();
            let mut p = Params::new();
            if capped {
                p.insert("nu", q(1));
            } else if q(1) != 1.0 {
                continue;
            }
            p.insert("tol", q(2));
            if fw {
                p.insert("fw", if v[3] == "classic" { 0.0 } else { 1.0 });
            }
            if k % 3 != 0 {
                p.insert("ord", (k % 3) as f64);
            }
            let mode = if k % 4 == 3 { "run" } else { "step" };
            out.run(&format!("beh-{k}"), || {
                let g = Play { booster: which, p: &p, y: &y, class: &class, mode, limit: 60, reps: 1, best: true, query: 0 };
                let v = play(&g, |_, d| best(&y, d, &class));
                certify(v, which, &p, &y, &class)
            });
        }
    }

    let n = if cfg.thorough { 700 } else { 150 };
    for k in 0..n {
        let m = if k % 25 == 24 { rng.gen_range(15..=40) } else { rng.gen_range(2..=8) };
        let m = size(&mut rng, k, 75, if which == "erlpboost" || which == "softboost" || which == "totalboost" { 40..=80 } else { 100..=200 }, m);
        let y = labels(&mut rng, m);
        let nh = rng.gen_range(2..=10);
        let kind = rng.gen_range(0..5usize);
        let class: Vec<Vec<f64>> = (0..nh)
            .map(|j| {
                let mut c = rand_conf(&mut rng, m, if kind == 4 { j } else { kind });
                if k % 3 != 0 && edge(&y, &vec![1.0; m], &c) < 0.0 {
                    c.iter_mut().for_each(|v| *v = -*v);
                }
                c
            })
            .collect();
        let mut p = Params::new();
        if capped && k % 8 != 0 {
            let nu = match rng.gen_range(0..5) {
                0 => 1.0,
                1 => m as f64,
                2 => rng.gen_range(1..=m) as f64,
                _ => 1.0 + (m as f64 - 1.0) * (rng.gen_range(0..=16) as f64 / 16.0),
            };
            p.insert("nu", nu);
        }
        let mut tol = if fw { [0.1, 0.2, 0.3, 0.4][k % 4] } else { [0.01, 0.05, 0.1, 0.3][k % 4] };
        if k % 10 == 9 {
            tol = [0.002, 0.001, 0.0005][k / 10 % 3];
        }
        if k % 11 % 3 != 0 {
            p.insert("ord", (k % 11 % 3) as f64);
        }
        if k % 7 != 0 {
            p.insert("tol", tol);
        }
        if fw {
            p.insert("fw", ((k / 4) % 4) as f64);
        }
        let best_resp = k % 5 != 4;
        let seed: u64 = rng.gen();
        let mode = if k % 6 == 5 { "run" } else { "step" };
        let limit = if cfg.thorough { 150 } else if fw || which == "lpboost" { 80 } else { 40 };
        one(out, &format!("lp-{k}"), which, &p, &y, &class, mode, limit, best_resp, seed);
    }

    // long games: a large class of votes of which an optimal combination
    // needs many
    let n = if cfg.thorough { 60 } else if fw { 6 } else { 10 };
    for k in 0..n {
        let m = rng.gen_range(12..=28);
        let y = labels(&mut rng, m);
        let graded = k % 3 == 2;
        let class: Vec<Vec<f64>> = (0..50)
            .map(|_| y.iter().map(|y| {
                let right = if rng.gen_bool(0.62) { *y } else { -*y };
                if graded { right * rng.gen_range(1..=8) as f64 / 8.0 } else { right }
            }).collect())
            .collect();
        let mut p = Params::new();
        if capped && k % 4 != 0 {
            p.insert("nu", rng.gen_range(1.0..(m as f64 / 3.0)));
        }
        p.insert("tol", [1e-3, 1e-4, 1e-2][k % 3]);
        if fw {
            p.insert("fw", (k % 4) as f64);
        }
        let mode = if k % 5 == 4 { "run" } else { "step" };
        one(out, &format!("long-{k}"), which, &p, &y, &class, mode, if cfg.thorough { 60 } else if which == "lpboost" || fw { 40 } else { 26 }, true, 0);
    }

    // the optimal combination uses the second hypothesis by a hair
    for k in 0..if cfg.thorough { 24 } else { 8 } {
        let e = [1e-4, 3e-4, 1e-3, 3e-3][k % 4];
        let y: Vec<f64> = (0..3).map(|i| if (i + k) % 2 == 0 { 1.0 } else { -1.0 }).collect();
        let base = [[0.0, e, 1.0], [1.0, -1.0, 1.0]];
        let class: Vec<Vec<f64>> = base.iter().map(|u| u.iter().zip(&y).map(|(a, b)| a * b).collect()).collect();
        let mut p = Params::new();
        p.insert("tol", [1e-5, 1e-6][k / 4 % 2]);
        if fw {
            p.insert("fw", (k % 4) as f64);
        }
        one(out, &format!("hair-{k}"), which, &p, &y, &class, "step", 26, true, 0);
    }
}

#[allow(clippy::too_many_arguments)]
fn one(out: &mut Out, id: &str, which: &str, p: &Params, y: &[f64], class: &[Vec<f64>], mode: &str, limit: usize, best_resp: bool, seed: u64) {
    out.run(id, || {
        let g = Play { booster: which, p, y, class, mode, limit, reps: 1, best: best_resp, query: 0 };
        let v = play(&g, |r, d| {
            if best_resp { best(y, d, class) } else { StdRng::seed_from_u64(seed.wrapping_add(r as u64)).gen_range(0..class.len()) }
        });
        certify(v, which, p, y, class)
    });
}

fn floats(v: &Value) -> Vec<f64> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect()
}

/// Adds the class's margins, a certificate per query and the optimum over the class.
pub fn certify(mut v: Value, which: &str, p: &Params, y: &[f64], class: &[Vec<f64>]) -> Value {
    let m = y.len() as f64;
    let cls: Vec<Vec<f64>> = class.iter().map(|c| c.iter().zip(y).map(|(c, y)| c * y).collect()).collect();
    let nu = get(p, "nu").unwrap_or(1.0);
    let dft = if matches!(which, "erlpboost" | "cerlpboost" | "mlpboost") { 0.01 } else { 1.0 / m };
    let tol = get(p, "tol").unwrap_or(dft);
    let eta = ((m / nu).ln() / (tol / 2.0)).max(0.5);
    let mut seen: Vec<usize> = vec![];
    let mut gmin = 1.0f64;
    let mut certs = vec![];
    let mut lpw = vec![];
    for e in v["ev"].as_array().unwrap() {
        if e["e"] != "ask" {
            continue;
        }
        let mut full = vec![0.0; cls.len()];
        let mut ids: Vec<usize> = seen.clone();
        ids.sort();
        ids.dedup();
        let us: Vec<Vec<f64>> = ids.iter().map(|h| cls[*h].clone()).collect();
        if !us.is_empty() {
            let c = match which {
                "erlpboost" => opt::erlp(&us, nu, eta),
                "softboost" | "totalboost" => opt::soft(&us, nu, gmin - tol),
                _ => vec![],
            };
            for (k, x) in c.iter().enumerate() {
                full[ids[k]] = *x;
            }
        }
        certs.push(nums(&full));
        let h = e["h"].as_u64().unwrap() as usize;
        let d = floats(&e["d"]);
        gmin = gmin.min(d.iter().zip(&cls[h]).map(|(a, b)| a * b).sum());
        seen.push(h);
        let mut full = vec![0.0; cls.len()];
        if which == "mlpboost" {
            let mut ids = seen.clone();
            ids.sort();
            ids.dedup();
            let us: Vec<Vec<f64>> = ids.iter().map(|h| cls[*h].clone()).collect();
            for (k, x) in opt::lp(&us, nu).1.iter().enumerate() {
                full[ids[k]] = *x;
            }
        }
        lpw.push(nums(&full));
    }
    let (dstar, _) = opt::lp(&cls, nu);
    v["cls"] = mat(&cls);
    v["certs"] = Value::Array(certs);
    v["lpw"] = Value::Array(lpw);
    v["dstar"] = nums(&dstar);
    v
}
