//! Games of every classification booster: the protocol, the distributions,
//! repeatability and the combined hypothesis.
use crate::common::*;
use crate::exp::parse_behaviour;
use crate::game::*;

pub const ALL: [&str; 11] = [
    "adaboost", "adaboostv", "madaboost", "smoothboost", "graphsepboost", "lpboost", "erlpboost", "softboost",
    "totalboost", "cerlpboost", "mlpboost",
];

pub fn params(rng: &mut StdRng, b: &str, m: usize, k: usize) -> Params {
    let mut p = Params::new();
    match b {
        "adaboost" | "adaboostv" | "madaboost" => match k % 3 {
            0 => {
                p.insert("quit", rng.gen_range(1..=6) as f64);
            }
            1 => {
                // a tolerance whose round limit is small
                let want: f64 = rng.gen_range(1.0..9.0);
                let c = match b {
                    "adaboost" => (m as f64).ln(),
                    "adaboostv" => 2.0 * (m as f64).ln(),
                    _ => m as f64 - 1.0,
                };
                p.insert("tol", (c / want).sqrt().min(0.95));
            }
            _ => {}
        },
        "smoothboost" => {
            p.insert("gamma", [0.1, 0.25, 0.4, 0.49][k % 4]);
            if k % 3 != 0 {
                p.insert("tol", [0.2, 0.5, 0.75][k % 3]);
            }
        }
        "graphsepboost" => {}
        _ => {
            if b != "totalboost" && k % 6 != 0 {
                let nu = match rng.gen_range(0..5) {
                    0 => 1.0,
                    1 => m as f64,
                    2 => rng.gen_range(1..=m) as f64,
                    _ => 1.0 + (m as f64 - 1.0) * (rng.gen_range(0..=16) as f64 / 16.0),
                };
                p.insert("nu", nu);
            }
            if k % 5 != 0 {
                let t = match b {
                    "erlpboost" | "cerlpboost" | "mlpboost" => [0.1, 0.2, 0.4, 1.0][rng.gen_range(0..4)],
                    _ => [0.01, 0.1, 0.3, 0.7][rng.gen_range(0..4)],
                };
                p.insert("tol", if k % 7 == 6 || k % 12 == 3 { [0.002, 0.001, 0.0005][k % 3] } else { t });
            }
            if k % 11 % 3 != 0 {
                p.insert("ord", (k % 11 % 3) as f64);
            }
            if b == "cerlpboost" || b == "mlpboost" {
                p.insert("fw", rng.gen_range(0..4) as f64);
            }
        }
    }
    p
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x6a3e);
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let moves = parse_behaviour(line);
            if moves.is_empty() {
                continue;
            }
            let m = moves[0].len();
            let y: Vec<f64> = (0..m).map(|i| if (i + k) % 2 == 0 { 1.0 } else { -1.0 }).collect();
            let class: Vec<Vec<f64>> = moves.iter().map(|u| u.iter().zip(&y).map(|(u, y)| u * y).collect()).collect();
            for (j, b) in ALL.iter().enumerate() {
                // each behaviour is replayed on some of the boosters, in turn
                if !cfg.thorough && (k + j) % 4 != 0 {
                    continue;
                }
                let mut p = params(&mut rng, b, m, k / 4);
                if p.contains_key("quit") {
                    p.insert("quit", moves.len() as f64);
                }
                let mode = ["step", "run", "twice", "other"][k % 4];
                out.run(&format!("beh-{b}-{k}"), || {
                    let g = Play { booster: b, p: &p, y: &y, class: &class, mode, limit: 12, reps: 1, best: false, query: 0 };
                    play(&g, |r, _| r % class.len())
                });
            }
        }
    }
    let n = if cfg.thorough { 240 } else { 36 };
    for b in ALL {
        for k in 0..n {
            let m = if k % 18 == 17 { rng.gen_range(15..=50) } else { rng.gen_range(2..=9) };
            let m = size(&mut rng, k, 36, 80..=160, m);
            let y = labels(&mut rng, m);
            let nh = rng.gen_range(1..=8);
            let kind = rng.gen_range(0..5usize);
            let pm = b == "graphsepboost" && k % 2 == 0;
            let class: Vec<Vec<f64>> = (0..nh)
                .map(|j| {
                    let mut c = rand_conf(&mut rng, m, if pm { 0 } else if kind == 4 { j } else { kind });
                    if k % 3 != 0 && edge(&y, &vec![1.0; m], &c) < 0.0 {
                        c.iter_mut().for_each(|v| *v = -*v);
                    }
                    c
                })
                .collect();
            let p = params(&mut rng, b, m, k);
            let seed: u64 = rng.gen();
            let how = k % 4;
            let mode = ["step", "twice", "run", "other", "other"][rng.gen_range(0..5)];
            let limit = if cfg.thorough { 60 } else { 20 };
            out.run(&format!("{b}-{k}"), || {
                let g = Play { booster: b, p: &p, y: &y, class: &class, mode, limit, reps: 1, best: how == 0, query: 0 };
                play(&g, |r, d| match how {
                    0 if r >= OTHER => r * 7 % class.len(),
                    0 => best(&y, d, &class),
                    // a fixed script
                    1 => r % class.len(),
                    // the worst answer
                    2 if r % 2 == 1 => {
                        let neg: Vec<Vec<f64>> = class.iter().map(|c| c.iter().map(|v| -v).collect()).collect();
                        best(&y, d, &neg)
                    }
                    _ => StdRng::seed_from_u64(seed.wrapping_add(r as u64)).gen_range(0..class.len()),
                })
            });
        }
    }
}
