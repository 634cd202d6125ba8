//! Runs of AdaBoost, AdaBoostV and MadaBoost.
use crate::common::*;
use crate::game::*;

/// A behaviour printed by TLC: the sequence of margin vectors the weak
/// learner answered, e.g. `<<<<1, -1, 1>>, <<-1, 1, 1>>>>`.
pub fn parse_behaviour(line: &str) -> Vec<Vec<f64>> {
    let s = line.replace("<<", "[").replace(">>", "]");
    let v: Value = serde_json::from_str(&s).expect("behaviour");
    v.as_array()
        .unwrap()
        .iter()
        .map(|r| {
            r.as_array()
                .unwrap()
                .iter()
                .map(|x| match x {
                    Value::String(q) => parse_num(q),
                    x => x.as_f64().unwrap(),
                })
                .collect()
        })
        .collect()
}

pub fn parse_num(q: &str) -> f64 {
    match q.split_once('/') {
        Some((a, b)) => a.parse::<f64>().unwrap() / b.parse::<f64>().unwrap(),
        None => q.parse().unwrap(),
    }
}

fn moves_to_class(y: &[f64], moves: &[Vec<f64>]) -> Vec<Vec<f64>> {
    moves.iter().map(|u| u.iter().zip(y).map(|(u, y)| u * y).collect()).collect()
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let which = std::env::var("BOOSTER").expect("BOOSTER");
    let which = which.as_str();
    let mut rng = StdRng::seed_from_u64(cfg.seed);

    // behaviours of the specification
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let moves = parse_behaviour(line);
            if moves.is_empty() {
                continue;
            }
            let m = moves[0].len();
            let y: Vec<f64> = (0..m).map(|i| if (i + k) % 2 == 0 { 1.0 } else { -1.0 }).collect();
            let class = moves_to_class(&y, &moves);
            let mut p = Params::new();
            p.insert("quit", moves.len() as f64);
            if which == "adaboostv" {
                p.insert("tol", 0.1);
            }
            let mode = if k % 3 == 0 { "run" } else { "step" };
            out.run(&format!("beh-{k}"), || {
                let g = Play { booster: which, p: &p, y: &y, class: &class, mode, limit: moves.len() + 2, reps: 1, best: false, query: 0 };
                play(&g, |r, _| r.min(class.len() - 1))
            });
        }
    }

    let n = if cfg.thorough { 900 } else { 120 };
    for k in 0..n {
        let m = rng.gen_range(2..=10);
        let m = size(&mut rng, k, 30, 100..=400, m);
        let y = labels(&mut rng, m);
        let nh = rng.gen_range(1..=12);
        let kind = rng.gen_range(0..5usize);
        let mut class: Vec<Vec<f64>> = (0..nh).map(|j| rand_conf(&mut rng, m, if kind == 4 { j } else { kind })).collect();
        // make the class weakly useful in half of the cases
        if rng.gen::<bool>() {
            for c in class.iter_mut() {
                if edge(&y, &vec![1.0; m], c) < 0.0 {
                    c.iter_mut().for_each(|v| *v = -*v);
                }
            }
        }
        let mut p = Params::new();
        let rounds = rng.gen_range(1..=if cfg.thorough { 40 } else { 16 });
        p.insert("quit", rounds as f64);
        if rng.gen_range(0..3) > 0 {
            p.insert("tol", [0.01, 0.05, 0.1, 0.3, 0.5][rng.gen_range(0..5)]);
        }
        let policy = rng.gen_range(0..4);
        let seed: u64 = rng.gen();
        let mode = if rng.gen::<bool>() { "run" } else { "step" };
        let reps = 1 + (rng.gen_range(0..4) == 0) as usize;
        out.run(&format!("rand-{k}"), || {
            let g = Play { booster: which, p: &p, y: &y, class: &class, mode, limit: rounds + 3, reps, best: policy == 0, query: 0 };
            play(&g, |r, d| match policy {
                0 => best(&y, d, &class),
                1 => r % class.len(),
                2 => StdRng::seed_from_u64(seed.wrapping_add(r as u64)).gen_range(0..class.len()),
                _ => {
                    // the worst hypothesis that is still not useless, if any
                    let mut b = best(&y, d, &class);
                    let mut be = f64::INFINITY;
                    for (j, c) in class.iter().enumerate() {
                        let e = edge(&y, d, c);
                        if e > 0.05 && e < be {
                            be = e;
                            b = j;
                        }
                    }
                    b
                }
            })
        });
    }

    // round limit: nothing but max_loop ends these games
    for k in 0..6 {
        let m = 3 + k;
        let y = labels(&mut rng, m);
        let class: Vec<Vec<f64>> = (0..m).map(|j| (0..m).map(|i| if i == j { -y[i] } else { y[i] }).collect()).collect();
        let mut p = Params::new();
        p.insert("tol", [0.3, 0.4, 0.5][k % 3]);
        out.run(&format!("loop-{k}"), || {
            let g = Play { booster: which, p: &p, y: &y, class: &class, mode: "step", limit: 400, reps: 1, best: true, query: 0 };
            play(&g, |_, d| best(&y, d, &class))
        });
    }

    // one example is got wrong for a long while and right ever after, then the other way round
    for k in 0..(if cfg.thorough { 40 } else { 8 }) {
        let m = rng.gen_range(6..=14);
        let y = labels(&mut rng, m);
        let conf = if k % 3 == 0 { 1.0 } else { rng.gen_range(0.3..1.0) };
        let class: Vec<Vec<f64>> = (0..40)
            .map(|j| (0..m).map(|i| {
                let wrong = if i == 0 { j % 2 == 0 } else { rng.gen_range(0..10) < 3 };
                if wrong { -conf * y[i] } else { conf * y[i] }
            }).collect())
            .collect();
        let mut p = Params::new();
        let phase = if k % 4 >= 2 { rng.gen_range(24..=28) } else { rng.gen_range(6..=14) };
        p.insert("quit", (3 * phase) as f64);
        p.insert("tol", 0.05);
        let mode = if k % 2 == 0 { "run" } else { "step" };
        out.run(&format!("swing-{k}"), || {
            let g = Play { booster: which, p: &p, y: &y, class: &class, mode, limit: 3 * phase + 3, reps: 1, best: false, query: 0 };
            play(&g, |r, d| {
                let want = (r / phase + k) % 2;
                let half: Vec<Vec<f64>> = class.iter().skip(want).step_by(2).cloned().collect();
                2 * best(&y, d, &half) + want
            })
        });
    }

    // edges next to 1 and -1
    for k in 0..(if cfg.thorough { 60 } else { 16 }) {
        let m = rng.gen_range(2..=8);
        let y = labels(&mut rng, m);
        let sign = if k % 4 == 3 { -1.0 } else { 1.0 };
        let class: Vec<Vec<f64>> = (0..6)
            .map(|j| {
                let far = 10f64.powf(rng.gen_range(-8.0..-1.0));
                (0..m).map(|i| if (i + j) % 2 == 0 { sign * y[i] } else { sign * y[i] * (1.0 - far) }).collect()
            })
            .collect();
        let mut p = Params::new();
        p.insert("quit", 6.0);
        p.insert("tol", 0.1);
        let mode = if k % 2 == 0 { "run" } else { "step" };
        out.run(&format!("near-{k}"), || {
            let g = Play { booster: which, p: &p, y: &y, class: &class, mode, limit: 9, reps: 1, best: false, query: 0 };
            play(&g, |r, _| r % 6)
        });
    }

    // a perfect or perfectly wrong hypothesis in round 1 (uniform weights are exact for these m)
    for (k, m) in [2usize, 4, 8, 16].into_iter().enumerate() {
        for sign in [1.0, -1.0] {
            for mode in ["run", "step"] {
                let y = labels(&mut rng, m);
                let class: Vec<Vec<f64>> = vec![y.iter().map(|v| v * sign).collect(), rand_conf(&mut rng, m, 1)];
                let p = Params::new();
                out.run(&format!("perfect-{k}-{sign}-{mode}"), || {
                    let g = Play { booster: which, p: &p, y: &y, class: &class, mode, limit: 5, reps: 1, best: false, query: 0 };
                    play(&g, |r, _| r.min(1))
                });
            }
        }
    }

    // long games in which some weights vanish
    if which != "madaboost" {
        for k in 0..(if cfg.thorough { 3 } else { 1 }) {
            let m = 13 + k;
            let y = labels(&mut rng, m);
            // always right on the first three examples, wrong on exactly one of the others
            let class: Vec<Vec<f64>> = (3..m).map(|j| (0..m).map(|i| if i == j { -y[i] } else { y[i] }).collect()).collect();
            let mut p = Params::new();
            p.insert("tol", 0.01);
            p.insert("quit", 1350.0);
            out.run(&format!("vanish-{k}"), || {
                let g = Play { booster: which, p: &p, y: &y, class: &class, mode: "run", limit: 1400, reps: 1, best: true, query: 0 };
                play(&g, |_, d| best(&y, d, &class))
            });
        }
    }
}
