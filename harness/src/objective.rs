//! The objective functions.
use crate::common::*;
use crate::exp::parse_num;
use miniboosts::prelude::*;
use miniboosts::research::ObjectiveFunction;
use miniboosts::{ExponentialLoss, HardMarginObjective, SoftMarginObjective};

fn play(y: &[f64], f: &[f64], nus: &[f64]) -> Value {
    let s = index_sample(y);
    let h = H::new(0, f.to_vec());
    let mut ev = vec![json!({"e":"sample","y":nums(y),"f":nums(f)})];
    let mut value = |kind: &str, nu: f64, r: Result<f64, String>| {
        ev.push(match r {
            Ok(v) => json!({"e":"value","kind":kind,"nu":num(nu),"v":num(v)}),
            Err(m) => json!({"e":"panic","at":kind,"nu":num(nu),"msg":short(&m)}),
        })
    };
    for nu in nus {
        value("soft", *nu, guard(|| SoftMarginObjective::new(*nu).eval(&s, &h)));
    }
    value("hard", 1.0, guard(|| HardMarginObjective::new().eval(&s, &h)));
    value("hard", 1.0, guard(|| HardMarginObjective::default().eval(&s, &h)));
    value("exp", 1.0, guard(|| ExponentialLoss::new().eval(&s, &h)));
    json!({"ev": ev})
}

fn arr(v: &Value) -> Vec<f64> {
    v.as_array().unwrap().iter().map(|x| parse_num(x.as_str().unwrap())).collect()
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x0b);
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let j: Value = serde_json::from_str(line).unwrap();
            let nu = parse_num(j["nu"].as_str().unwrap());
            out.run(&format!("beh-{k}"), || play(&arr(&j["y"]), &arr(&j["f"]), &[nu]));
        }
    }
    let n = if cfg.thorough { 4000 } else { 500 };
    for k in 0..n {
        let m = if k % 20 == 19 { rng.gen_range(20..=200) } else { rng.gen_range(1..=12) };
        let y: Vec<f64> = (0..m).map(|_| if rng.gen::<bool>() { 1.0 } else { -1.0 }).collect();
        let mut f = rand_conf(&mut rng, m, k % 4);
        match k % 7 {
            0 => f.iter_mut().for_each(|v| *v *= 1e6),
            1 => f.iter_mut().for_each(|v| *v *= 1e-9),
            2 => f = f.iter().map(|v| v.abs()).collect(),
            _ => {}
        }
        let nus: Vec<f64> = (0..4)
            .map(|i| match i {
                0 => [1.0, m as f64][k % 2],
                1 => rng.gen_range(1..=m) as f64,
                2 => 1.0 + (m as f64 - 1.0) * (rng.gen_range(0..=16) as f64 / 16.0),
                _ => if m == 1 { 1.0 } else { rng.gen_range(1.0..m as f64) },
            })
            .collect();
        out.run(&format!("rand-{k}"), || play(&y, &f, &nus));
    }
}
