//! Loss functions: values, derivatives, best steps.
use crate::common::*;
use crate::exp::parse_num;
use miniboosts::{GBMLoss, LossFunction};

/// A loss that only says what it is at a point.
struct Own(GBMLoss);
impl LossFunction for Own {
    fn name(&self) -> &str {
        "own"
    }
    fn eval_at_point(&self, p: f64, y: f64) -> f64 {
        self.0.eval_at_point(p, y)
    }
    fn gradient(&self, p: &[f64], y: &[f64]) -> Vec<f64> {
        self.0.gradient(p, y)
    }
    fn hessian(&self, p: &[f64], y: &[f64]) -> Vec<f64> {
        self.0.hessian(p, y)
    }
    fn best_coefficient(&self, r: &[f64], p: &[f64]) -> f64 {
        self.0.best_coefficient(r, p)
    }
}

fn ask<L: LossFunction>(loss: &L, kind: &str, p: &[f64], y: &[f64]) -> Vec<Value> {
    let mut ev = vec![];
    let mut add = |at: &str, r: Result<Value, String>| {
        ev.push(r.unwrap_or_else(|m| json!({"e":"panic","at":at,"msg":short(&m)})));
    };
    add("loss", guard(|| {
        let point: Vec<f64> = p.iter().zip(y).map(|(p, y)| loss.eval_at_point(*p, *y)).collect();
        json!({"e":"loss","kind":kind,"p":nums(p),"y":nums(y),"point":nums(&point),"eval":num(loss.eval(p, y)),
            "g":nums(&loss.gradient(p, y)),"h":nums(&loss.hessian(p, y))})
    }));
    add("step", guard(|| json!({"e":"step","kind":kind,"p":nums(p),"y":nums(y),"c":num(loss.best_coefficient(y, p))})));
    ev
}

fn play(kind: &str, p: &[f64], y: &[f64], own: bool) -> Value {
    let loss = if kind == "L1" { GBMLoss::L1 } else { GBMLoss::L2 };
    json!({"ev": if own { ask(&Own(loss), kind, p, y) } else { ask(&loss, kind, p, y) }})
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x1055);
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let j: Value = serde_json::from_str(line).unwrap();
            let arr = |v: &Value| -> Vec<f64> { v.as_array().unwrap().iter().map(|x| parse_num(x.as_str().unwrap())).collect() };
            out.run(&format!("beh-{k}"), || play(j["kind"].as_str().unwrap(), &arr(&j["p"]), &arr(&j["y"]), k % 5 == 0));
        }
    }
    let n = if cfg.thorough { 5000 } else { 600 };
    for k in 0..n {
        let m = if k % 15 == 14 { rng.gen_range(20..=80) } else { rng.gen_range(1..=9) };
        let style = rng.gen_range(0..4);
        let scale = [1.0, 1.0, 1e5, 1e-6][k % 4];
        let one = |rng: &mut StdRng| -> f64 {
            scale * match style {
                0 => rng.gen_range(-3..=3) as f64,
                1 => rng.gen_range(-1.0..1.0),
                2 => if rng.gen::<bool>() { 0.0 } else { rng.gen_range(-1.0..1.0) },
                _ => rng.gen_range(-1.0f64..1.0).powi(7),
            }
        };
        let p: Vec<f64> = (0..m).map(|_| one(&mut rng)).collect();
        let y: Vec<f64> = match k % 7 {
            0 => p.clone(),
            1 => p.iter().map(|v| v * 2.0).collect(),
            _ => (0..m).map(|_| one(&mut rng)).collect(),
        };
        let kind = if rng.gen::<bool>() { "L1" } else { "L2" };
        out.run(&format!("rand-{k}"), || play(kind, &p, &y, k % 5 == 0));
    }
}
