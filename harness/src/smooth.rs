//! Runs of SmoothBoost.
use crate::common::*;
use crate::exp::parse_behaviour;
use crate::game::*;

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x5555);
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let moves = parse_behaviour(line);
            if moves.is_empty() {
                continue;
            }
            let m = moves[0].len();
            let y: Vec<f64> = (0..m).map(|i| if (i + k) % 2 == 0 { 1.0 } else { -1.0 }).collect();
            let class: Vec<Vec<f64>> = moves.iter().map(|u| u.iter().zip(&y).map(|(u, y)| u * y).collect()).collect();
            let mut p = Params::new();
            p.insert("gamma", 0.4);
            p.insert("tol", 0.5);
            let mode = if k % 4 == 3 { "run" } else { "step" };
            out.run(&format!("beh-{k}"), || {
                let g = Play { booster: "smoothboost", p: &p, y: &y, class: &class, mode, limit: moves.len(), reps: 1, best: false, query: 0 };
                play(&g, |r, _| r.min(class.len() - 1))
            });
        }
    }
    let n = if cfg.thorough { 700 } else { 120 };
    for k in 0..n {
        let m = if k % 20 == 19 { rng.gen_range(12..=30) } else { rng.gen_range(2..=9) };
        let m = size(&mut rng, k, 40, 100..=300, m);
        let y = labels(&mut rng, m);
        let nh = rng.gen_range(1..=8);
        let kind = rng.gen_range(0..5usize);
        let class: Vec<Vec<f64>> = (0..nh)
            .map(|j| {
                let mut c = rand_conf(&mut rng, m, if kind == 4 { j } else { kind });
                if k % 3 != 0 && edge(&y, &vec![1.0; m], &c) < 0.0 {
                    c.iter_mut().for_each(|v| *v = -*v);
                }
                if k % 7 == 1 {
                    // nearly always right
                    c = y.iter().map(|v| if rng.gen_range(0..6) == 0 { -v } else { *v }).collect();
                }
                c
            })
            .collect();
        let mut p = Params::new();
        p.insert("gamma", [0.49, 0.45, 0.4, 0.3, 0.2, 0.1, 0.0][rng.gen_range(0..7)]);
        if k % 4 != 0 {
            p.insert("tol", [0.9, 0.75, 0.5, 0.3, 0.2, 0.1][rng.gen_range(0..6)]);
        }
        let policy = rng.gen_range(0..3);
        let seed: u64 = rng.gen();
        let mode = if k % 3 == 2 { "run" } else { "step" };
        let reps = 1 + (rng.gen_range(0..5) == 0) as usize;
        let limit = if cfg.thorough { 150 } else if k % 6 == 0 { 70 } else { 25 };
        out.run(&format!("rand-{k}"), || {
            let g = Play { booster: "smoothboost", p: &p, y: &y, class: &class, mode, limit, reps, best: policy == 0, query: 0 };
            play(&g, |r, d| match policy {
                0 => best(&y, d, &class),
                1 => r % class.len(),
                _ => StdRng::seed_from_u64(seed.wrapping_add(r as u64)).gen_range(0..class.len()),
            })
        });
    }
    // one example is got wrong for a long while and right ever after
    for k in 0..(if cfg.thorough { 24 } else { 5 }) {
        let m = rng.gen_range(3..=7);
        let y = labels(&mut rng, m);
        let class: Vec<Vec<f64>> = (0..40)
            .map(|j| (0..m).map(|i| {
                let wrong = if i == 0 { j % 2 == 0 } else { rng.gen_range(0..10) < 3 };
                if wrong { -y[i] } else { y[i] }
            }).collect())
            .collect();
        let mut p = Params::new();
        p.insert("gamma", [0.2, 0.3, 0.1][k % 3]);
        p.insert("tol", 0.1);
        let phase = rng.gen_range(24..=30);
        let mode = if k % 2 == 0 { "run" } else { "step" };
        out.run(&format!("swing-{k}"), || {
            let g = Play { booster: "smoothboost", p: &p, y: &y, class: &class, mode, limit: 3 * phase, reps: 1, best: false, query: 0 };
            play(&g, |r, d| {
                let want = (r >= phase) as usize;
                let half: Vec<Vec<f64>> = class.iter().skip(want).step_by(2).cloned().collect();
                2 * best(&y, d, &half) + want
            })
        });
    }
    // to the round limit: hypotheses that are of no use
    for k in 0..4 {
        let m = 2 + k;
        let y = labels(&mut rng, m);
        let class: Vec<Vec<f64>> = vec![vec![0.0; m], y.iter().map(|v| -v).collect(), y.iter().map(|v| v * 0.1).collect()];
        let mut p = Params::new();
        p.insert("gamma", [0.49, 0.45, 0.4, 0.49][k]);
        p.insert("tol", [0.9, 0.75, 0.6, 0.95][k]);
        let mode = if k % 2 == 0 { "run" } else { "step" };
        out.run(&format!("limit-{k}"), || {
            let g = Play { booster: "smoothboost", p: &p, y: &y, class: &class, mode, limit: 80, reps: 1, best: false, query: 0 };
            play(&g, |r, _| r % 3)
        });
    }
}
