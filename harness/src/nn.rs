//! Neural networks: gradient steps, outputs, confidences, and networks as
//! the learner produces them.
use crate::common::*;
use crate::exp::parse_num;
use miniboosts::prelude::*;
use miniboosts::{NNClassifier, NNHypothesis, NNLoss, NeuralNetwork};

type L = (Vec<Vec<f64>>, Vec<f64>, Activation);

fn act_json(a: &Activation) -> Value {
    match a {
        Activation::Id => json!({"k":"id","c":"0"}),
        Activation::ReLu(c) => json!({"k":"relu","c":num(*c)}),
        Activation::Sigmoid(c) => json!({"k":"sigmoid","c":num(*c)}),
        Activation::SoftMax(c) => json!({"k":"softmax","c":num(*c)}),
    }
}
fn act_of(v: &Value) -> Activation {
    let c = parse_num(v["c"].as_str().unwrap());
    match v["k"].as_str().unwrap() {
        "id" => Activation::Id,
        "relu" => Activation::ReLu(c),
        "sigmoid" => Activation::Sigmoid(c),
        _ => Activation::SoftMax(c),
    }
}
fn net_json(ls: &[L]) -> Value {
    Value::Array(ls.iter().map(|(w, b, a)| json!({"w":mat(w),"b":nums(b),"act":act_json(a)})).collect())
}
fn net_of(v: &Value) -> Vec<L> {
    let arr = |v: &Value| -> Vec<f64> { v.as_array().unwrap().iter().map(|x| parse_num(x.as_str().unwrap())).collect() };
    v.as_array().unwrap().iter()
        .map(|l| (l["w"].as_array().unwrap().iter().map(arr).collect(), arr(&l["b"]), act_of(&l["act"])))
        .collect()
}

enum Do {
    Train(f64, NNLoss, Vec<usize>, usize),
    Eval(usize),
}

fn play(net: &[L], rows: &[Vec<f64>], y: &[f64], todo: &[Do]) -> Value {
    let s = dense_sample(rows, y);
    let mut h = NNHypothesis::verif_new(net.to_vec());
    let mut ev = vec![json!({"e":"net","net":net_json(net)})];
    for d in todo {
        match d {
            Do::Train(rate, loss, ix, times) => {
                for _ in 0..*times {
                    let r = guard(|| {
                        h.verif_train(*rate, *loss, &s, ix);
                    });
                    if let Err(m) = r {
                        ev.push(json!({"e":"panic","fam":"N01","at":"train","msg":short(&m)}));
                        return json!({"ev":ev});
                    }
                    let batch: Vec<Value> = ix.iter().map(|i| json!({"x":nums(&rows[*i]),"y":num(y[*i])})).collect();
                    ev.push(json!({"e":"train","rate":num(*rate),"batch":batch,"net":net_json(&h.verif_layers())}));
                }
            }
            Do::Eval(i) => {
                let r = guard(|| {
                    let z = h.verif_eval(rows[*i].clone());
                    let c = if z.len() <= 2 { NNClassifier::new(h.clone()).confidence(&s, *i) } else { 0.0 };
                    (z, c)
                });
                match r {
                    Ok((z, c)) => ev.push(json!({"e":"eval","x":nums(&rows[*i]),"z":nums(&z),"conf":num(c)})),
                    Err(m) => {
                        ev.push(json!({"e":"panic","fam":"N02","at":"eval","msg":short(&m)}));
                        return json!({"ev":ev});
                    }
                }
            }
        }
    }
    json!({"ev":ev})
}

fn val(rng: &mut StdRng, kind: usize) -> f64 {
    match kind {
        0 => rng.gen_range(-8..=8) as f64 / 4.0,
        1 => rng.gen_range(-2.0..2.0),
        2 => [0.0, 1.0, -1.0][rng.gen_range(0..3)],
        _ => rng.gen_range(-30.0..30.0),
    }
}
fn activation(rng: &mut StdRng, last: bool) -> Activation {
    let c = [1.0, 1.0, 0.5, 2.0, 0.1, 4.0][rng.gen_range(0..6)];
    match rng.gen_range(0..4) {
        0 => Activation::Id,
        1 if !last => Activation::ReLu([0.0, 1.0, -0.5, 0.25][rng.gen_range(0..4)]),
        1 | 2 => Activation::Sigmoid(c),
        _ => Activation::SoftMax(c),
    }
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let what = std::env::var("NN").unwrap_or_default();
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x4e);
    if what == "N03" {
        return produced(cfg, out, &mut rng);
    }
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let j: Value = serde_json::from_str(line).unwrap();
            let net = net_of(&j["net"]);
            let b = j["batch"].as_array().unwrap();
            let rows: Vec<Vec<f64>> = b.iter().map(|e| e["x"].as_array().unwrap().iter().map(|x| parse_num(x.as_str().unwrap())).collect()).collect();
            let y: Vec<f64> = b.iter().map(|e| parse_num(e["y"].as_str().unwrap())).collect();
            let rate = parse_num(j["rate"].as_str().unwrap());
            let mut todo = vec![];
            (0..rows.len()).for_each(|i| todo.push(Do::Eval(i)));
            todo.push(Do::Train(rate, NNLoss::CrossEntropy, (0..rows.len()).collect(), j["n"].as_u64().unwrap() as usize));
            (0..rows.len()).for_each(|i| todo.push(Do::Eval(i)));
            out.run(&format!("beh-{k}"), || play(&net, &rows, &y, &todo));
        }
    }
    let n = if cfg.thorough { 1500 } else { 220 };
    for k in 0..n {
        let kind = [0, 1, 2, 0, 1, 3][k % 6];
        let depth = rng.gen_range(1..=3);
        let inputs = rng.gen_range(1..=4);
        let mut prev = inputs;
        let mut net = vec![];
        for l in 0..depth {
            let last = l + 1 == depth;
            let d = if last { 1 + rng.gen_range(0..2) } else { rng.gen_range(1..=4) };
            let w = (0..d).map(|_| (0..prev).map(|_| val(&mut rng, kind)).collect()).collect();
            let b = (0..d).map(|_| val(&mut rng, kind)).collect();
            net.push((w, b, activation(&mut rng, last)));
            prev = d;
        }
        let m = if k % 15 == 14 { rng.gen_range(20..=40) } else { rng.gen_range(1..=7) };
        let xkind = [1, 0, 2, 0, 3][k % 5];
        let rows: Vec<Vec<f64>> = (0..m).map(|_| (0..inputs).map(|_| val(&mut rng, xkind)).collect()).collect();
        let y: Vec<f64> = (0..m).map(|_| if rng.gen::<bool>() { 1.0 } else { -1.0 }).collect();
        let mut todo = vec![];
        for _ in 0..rng.gen_range(1..=4) {
            let mut ix: Vec<usize> = (0..m).collect();
            ix.shuffle(&mut rng);
            ix.truncate(rng.gen_range(1..=m.min(10)));
            let rate = [1e-3, 1.0 / 64.0, 0.1, 1e-3 / 128.0, 0.5][rng.gen_range(0..5)];
            let loss = if rng.gen_range(0..4) == 0 { NNLoss::L2 } else { NNLoss::CrossEntropy };
            todo.push(Do::Eval(rng.gen_range(0..m)));
            todo.push(Do::Train(rate, loss, ix, rng.gen_range(1..=2)));
            todo.push(Do::Eval(rng.gen_range(0..m)));
        }
        out.run(&format!("net-{k}"), || play(&net, &rows, &y, &todo));
    }
}

/// Networks from the learner: layers as appended, and linear ones trained to the end.
fn produced(cfg: &Cfg, out: &mut Out, rng: &mut StdRng) {
    let shape = |net: &[L], inputs: usize, dims: &[usize], acts: &[Activation], fit: Value| {
        json!({"e":"produced","inputs":inputs,"dims":ints(dims),"acts":acts.iter().map(act_json).collect::<Vec<_>>(),
               "net":net_json(net),"fit":fit,"tol":"1e-4"})
    };
    let n = if cfg.thorough { 200 } else { 60 };
    for k in 0..n {
        let inputs = rng.gen_range(1..=4);
        let m = [1, 5, 64, 127, 128, 129, 300][k % 7];
        let rows: Vec<Vec<f64>> = (0..m).map(|_| (0..inputs).map(|_| val(rng, 1)).collect()).collect();
        let y: Vec<f64> = (0..m).map(|_| if rng.gen::<bool>() { 1.0 } else { -1.0 }).collect();
        let depth = rng.gen_range(1..=3);
        let dims: Vec<usize> = (0..depth).map(|l| if l + 1 == depth { rng.gen_range(1..=2) } else { rng.gen_range(1..=5) }).collect();
        let acts: Vec<Activation> = (0..depth).map(|l| activation(rng, l + 1 == depth)).collect();
        let (e, i) = (rng.gen_range(0..3), rng.gen_range(0..3));
        let who: Vec<usize> = (0..5).map(|_| rng.gen_range(0..m)).collect();
        out.run(&format!("shape-{k}"), || {
            let s = dense_sample(&rows, &y);
            let r = guard(|| {
                let mut nn = NeuralNetwork::init(&s).n_epoch(e).n_iter(i);
                for (d, a) in dims.iter().zip(&acts) {
                    nn = nn.append(*d, *a);
                }
                let f = nn.produce(&s, &vec![1.0 / m as f64; m]);
                let net = f.verif_network().verif_layers();
                let ev: Vec<Value> = who.iter().map(|w| {
                    json!({"e":"eval","x":nums(&rows[*w]),"z":nums(&f.verif_network().verif_eval(rows[*w].clone())),"conf":num(f.confidence(&s, *w))})
                }).collect();
                (net, ev)
            });
            match r {
                Ok((net, more)) => {
                    let mut ev = vec![shape(&net, inputs, &dims, &acts, json!([]))];
                    ev.extend(more);
                    json!({"ev":ev})
                }
                Err(m) => json!({"ev":[{"e":"panic","fam":"N03","at":"produce","msg":short(&m)}]}),
            }
        });
    }
    let n = if cfg.thorough { 40 } else { 12 };
    for k in 0..n {
        // a design whose columns are orthogonal to each other and to the constant
        let (x, scale): (Vec<Vec<f64>>, f64) = match k % 3 {
            0 => (vec![vec![1.0], vec![-1.0]], 1.5),
            1 => (vec![vec![1.0, 1.0], vec![1.0, -1.0], vec![-1.0, 1.0], vec![-1.0, -1.0]], 1.25),
            _ => (vec![vec![1.0], vec![0.0], vec![-1.0]], 2.0),
        };
        // steps that are not divided by the batch size overshoot on a wide design
        let scale = if k % 4 == 3 { [35.0, 30.0, 35.0][k % 3] } else { scale };
        let used = x.len();
        let extra = if k % 2 == 0 { 0 } else { rng.gen_range(1..=5) };
        let mut rows: Vec<Vec<f64>> = x.iter().map(|r| r.iter().map(|v| v * scale).collect()).collect();
        let mut carry: Vec<bool> = vec![true; used];
        for _ in 0..extra {
            rows.push((0..x[0].len()).map(|_| val(rng, 3)).collect());
            carry.push(false);
        }
        let mut ix: Vec<usize> = (0..rows.len()).collect();
        ix.shuffle(rng);
        let rows: Vec<Vec<f64>> = ix.iter().map(|i| rows[*i].clone()).collect();
        let carry: Vec<bool> = ix.iter().map(|i| carry[*i]).collect();
        let y: Vec<f64> = rows.iter().map(|_| if rng.gen::<bool>() { 1.0 } else { -1.0 }).collect();
        let dist: Vec<f64> = carry.iter().map(|c| if *c { 1.0 / used as f64 } else if k % 4 == 1 { 1e-13 } else { 0.0 }).collect();
        let d = 1 + (k / 2) % 2;
        out.run(&format!("fit-{k}"), || {
            let s = dense_sample(&rows, &y);
            let r = guard(|| {
                let nn = NeuralNetwork::init(&s).append(d, Activation::Id).minibatch_size(used).n_epoch(15).n_iter(1000);
                nn.produce(&s, &dist).verif_network().verif_layers()
            });
            match r {
                Ok(net) => {
                    let fit: Vec<Value> = (0..rows.len()).filter(|i| carry[*i]).map(|i| json!({"x":nums(&rows[i]),"y":num(y[i])})).collect();
                    json!({"ev":[shape(&net, x[0].len(), &[d], &[Activation::Id], json!(fit))]})
                }
                Err(m) => json!({"ev":[{"e":"panic","fam":"N03","at":"produce","msg":short(&m)}]}),
            }
        });
    }
}
