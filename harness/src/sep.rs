//! Runs of graph separation boosting.
use crate::common::*;
use crate::game::*;

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x7777);
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            // (labels, predictions of every hypothesis)
            let v: Value = serde_json::from_str(&line.replace("<<", "[").replace(">>", "]")).expect("behaviour");
            let y: Vec<f64> = v[0].as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect();
            let q = 3;
            let class: Vec<Vec<f64>> = v[1].as_array().unwrap().iter()
                .map(|r| {
                    let mut c: Vec<f64> = r.as_array().unwrap().iter()
                        .map(|x| if x.as_f64().unwrap() > 0.0 { [1.0, 0.0, 0.3][rng.gen_range(0..3)] } else { [-1.0, -0.2][rng.gen_range(0..2)] })
                        .collect();
                    c.extend(rand_conf(&mut rng, q, 0));
                    c
                })
                .collect();
            if class.is_empty() {
                continue;
            }
            let p = Params::new();
            let mode = if k % 4 == 3 { "run" } else { "step" };
            out.run(&format!("beh-{k}"), || {
                let g = Play { booster: "graphsepboost", p: &p, y: &y, class: &class, mode, limit: class.len(), reps: 1, best: false, query: q };
                play(&g, |r, _| r.min(class.len() - 1))
            });
        }
    }
    let n = if cfg.thorough { 700 } else { 130 };
    for k in 0..n {
        let m = if k % 20 == 19 { rng.gen_range(12..=24) } else { rng.gen_range(2..=9) };
        let y = labels(&mut rng, m);
        let nh = rng.gen_range(1..=10);
        let q = rng.gen_range(1..=8);
        let kind = rng.gen_range(0..4usize);
        let class: Vec<Vec<f64>> = (0..nh)
            .map(|j| {
                let mut c = rand_conf(&mut rng, m + q, if k % 2 == 0 { 0 } else { kind });
                if k % 3 == 0 {
                    // separates one example from the others
                    let i = j % m;
                    (0..m).for_each(|r| c[r] = if r == i { 1.0 } else { -1.0 });
                }
                if k % 5 == 0 {
                    // further rows that look like training rows
                    (0..q).for_each(|r| c[m + r] = c[(r * 7 + 1) % m]);
                }
                c
            })
            .collect();
        let p = Params::new();
        let policy = rng.gen_range(0..3);
        let seed: u64 = rng.gen();
        let mode = if k % 3 == 2 { "run" } else { "step" };
        let reps = 1 + (rng.gen_range(0..4) == 0) as usize;
        out.run(&format!("rand-{k}"), || {
            let g = Play { booster: "graphsepboost", p: &p, y: &y, class: &class, mode, limit: m * m + 2, reps, best: policy == 0, query: q };
            play(&g, |r, d| match policy {
                0 => best(&y, d, &class),
                1 => r % class.len(),
                _ => StdRng::seed_from_u64(seed.wrapping_add(r as u64)).gen_range(0..class.len()),
            })
        });
    }
    // many examples, most of one label
    for k in 0..if cfg.thorough { 16 } else { 4 } {
        let m = rng.gen_range(55..=95);
        let few = rng.gen_range(1..=3);
        let sign = [1.0, -1.0][k % 2];
        let y: Vec<f64> = (0..m).map(|i| if i * 7 % m < few { sign } else { -sign }).collect();
        let class: Vec<Vec<f64>> = (0..14).map(|_| rand_conf(&mut rng, m + 2, 0)).collect();
        let p = Params::new();
        out.run(&format!("many-{k}"), || {
            let g = Play { booster: "graphsepboost", p: &p, y: &y, class: &class, mode: "step", limit: 60, reps: 1, best: false, query: 2 };
            play(&g, |r, _| r % class.len())
        });
    }
}
