//! Weak learners set up by sequences of builder calls: what they report,
//! print and grow.
use crate::common::*;
use crate::exp::parse_num;
use crate::table::*;
use miniboosts::prelude::*;
use std::cell::Cell;

#[derive(Clone)]
struct Op {
    k: String,
    j: usize,
    v: String,
}

fn criterion(v: &str) -> Criterion {
    match v {
        "entropy" => Criterion::Entropy,
        "gini" => Criterion::Gini,
        "twoing" => Criterion::Twoing,
        "edge" => Criterion::Edge,
        k => panic!("criterion {k}"),
    }
}
fn which(text: &str) -> String {
    let lt = text.to_lowercase();
    ["entropy", "gini", "twoing", "edge"].into_iter().find(|k| lt.contains(k)).map(|s| s.to_string())
        .or(["L1", "L2"].into_iter().find(|k| text.contains(k)).map(|s| s.to_string()))
        .unwrap_or(text.trim().to_string())
}
fn first(t: &str) -> String {
    t.split_whitespace().next().unwrap_or("").to_string()
}

fn rows(info: Vec<(&str, String)>) -> (Vec<String>, serde_json::Map<String, Value>) {
    let mut out = serde_json::Map::new();
    for (label, text) in info {
        let lb = label.to_lowercase();
        let (k, v) = if lb.contains("bins") {
            ("bins", first(&text))
        } else if lb.contains("depth") {
            ("depth", first(&text))
        } else if lb.contains("criterion") {
            if which(&text).starts_with('L') { ("loss", which(&text)) } else { ("criterion", which(&text)) }
        } else if lb.contains("regularization") {
            ("lambda", text.parse::<f64>().map(|x| format!("{x:?}")).unwrap_or(text))
        } else if lb.contains("batch") {
            ("batch", first(&text))
        } else if lb.contains("per epoch") {
            ("iter", first(&text))
        } else if lb.contains("epochs") {
            ("epoch", first(&text))
        } else if lb.contains("layers") {
            ("layers", first(&text))
        } else {
            continue;
        };
        out.insert(k.into(), Value::String(v));
    }
    (out.keys().cloned().collect(), out)
}

/// A printed tree learner.
fn text(t: &str, names: &[String]) -> Value {
    let mut feats: Vec<Value> = vec![];
    let (mut depth, mut by) = ("?".to_string(), "?".to_string());
    for line in t.lines() {
        let l = line.trim();
        let ll = l.to_lowercase();
        if let Some(rest) = l.strip_prefix("* [") {
            let (name, rest) = rest.split_once(" |").unwrap_or(("", rest));
            let (n, rest) = rest.split_once("bins]").unwrap_or(("-1", rest));
            let end = |x: &str| -> String {
                let x = x.trim();
                if x.ends_with("Inf") { x.to_string() } else { x.parse::<f64>().map(|v| format!("{:?}", v + 0.0)).unwrap_or(x.to_string()) }
            };
            let bins: Vec<Value> = rest.split('[').skip(1).map(|b| {
                let (a, z) = b.split(')').next().unwrap().split_once(',').unwrap_or(("?", "?"));
                json!([end(a), end(z)])
            }).collect();
            let j = names.iter().position(|x| x == name.trim()).map(|j| j + 1).unwrap_or(0);
            feats.push(json!({"j": j, "n": n.trim().parse::<i64>().unwrap_or(-1), "bins": bins}));
        } else if ll.contains("depth") {
            depth = l.rsplit(':').next().unwrap().trim().to_string();
        } else if ll.contains("criterion") || ll.contains("loss") {
            by = which(l.rsplit(':').next().unwrap());
        }
    }
    json!({"e":"text","feats":feats,"depth":depth,"by":by})
}

macro_rules! tree {
    ($b:ident, $op:expr, $names:expr, { $($key:literal => $call:expr),* }) => {
        match $op.k.as_str() {
            "bins" => { $b.set_nbins(&$names[$op.j - 1], $op.v.parse().unwrap()); $b }
            $($key => $call,)*
            k => panic!("unknown setting {k}"),
        }
    };
}
fn dtree<'a>(s: &'a Sample, names: &[String], ops: &[Op], at: &Cell<usize>) -> DecisionTree<'a> {
    let mut b = DecisionTreeBuilder::new(s);
    for (i, op) in ops.iter().enumerate() {
        at.set(i);
        b = tree!(b, op, names, { "depth" => b.max_depth(op.v.parse().unwrap()), "criterion" => b.criterion(criterion(&op.v)) });
    }
    at.set(ops.len());
    b.build()
}
fn rtree<'a>(s: &'a Sample, names: &[String], ops: &[Op], at: &Cell<usize>) -> RegressionTree<'a, GBMLoss> {
    let mut b = RegressionTreeBuilder::new(s);
    for (i, op) in ops.iter().enumerate() {
        at.set(i);
        b = tree!(b, op, names, { "depth" => b.max_depth(op.v.parse().unwrap()), "lambda" => b.lambda_l2(parse_num(&op.v)),
            "loss" => b.loss(if op.v == "L1" { GBMLoss::L1 } else { GBMLoss::L2 }) });
    }
    at.set(ops.len());
    b.build()
}
fn network(s: &Sample, ops: &[Op], at: &Cell<usize>) -> NeuralNetwork {
    let mut b = NeuralNetwork::init(s);
    for (i, op) in ops.iter().enumerate() {
        at.set(i);
        let n = || op.v.parse::<usize>().unwrap();
        b = match op.k.as_str() {
            "epoch" => b.n_epoch(n()),
            "iter" => b.n_iter(n()),
            "batch" => b.minibatch_size(n()),
            "append" => b.append(n(), Activation::ReLu(1.0)),
            k => panic!("unknown setting {k}"),
        };
    }
    at.set(ops.len());
    b
}

struct Case<'a> {
    w: &'a str,
    x: &'a [Vec<f64>],
    y: &'a [f64],
    dist: &'a [f64],
    ops: &'a [Op],
    sparse: bool,
}

/// What is in force after `ops`, every setting once.
fn in_force(c: &Case) -> Vec<Op> {
    let last = |k: &str, j: usize, dflt: &str| -> Op {
        Op { k: k.into(), j, v: c.ops.iter().rev().find(|o| o.k == k && o.j == j).map(|o| o.v.clone()).unwrap_or(dflt.into()) }
    };
    let mut out = vec![last("depth", 0, "2")];
    if c.w == "dtree" {
        out.push(last("criterion", 0, "entropy"));
    } else {
        out.push(last("lambda", 0, "0.01"));
        out.push(last("loss", 0, "L2"));
    }
    for j in 1..=c.x[0].len() {
        let col: Vec<f64> = c.x.iter().map(|r| r[j - 1]).collect();
        out.push(last("bins", j, &crate::tree::distinct(&col).min(255).to_string()));
    }
    out
}

fn session(c: &Case) -> Value {
    let d = c.x[0].len();
    let m = c.x.len();
    let s = if c.sparse { read_svm(&svm_of(c.x, c.y, &mut || false)) } else { read_frame(&frame_of(c.x, c.y)) };
    let names: Vec<String> = (1..=d).map(|j| format!("Feat. [{j}]")).collect();
    let cols: Vec<Vec<f64>> = (0..d).map(|j| c.x.iter().map(|r| r[j]).collect()).collect();
    let mut ev = vec![json!({"e":"new","cols":mat(&cols),"m":m})];
    let at = Cell::new(0usize);
    let mut tail: Vec<Value> = vec![];
    let plain = in_force(c);
    let set: Vec<Value> = plain.iter().map(|o| if o.k == "bins" { json!({"k":"bins","j":o.j,"n":o.v.parse::<i64>().unwrap()}) } else { json!({"k":o.k,"v":o.v}) }).collect();
    macro_rules! look {
        ($t:expr, $fresh:expr, $grow:expr) => {{
            let t = $t;
            let (has, rs) = rows(t.info().unwrap_or_default());
            tail.push(json!({"e":"info","has":has,"rows":rs}));
            tail.push(text(&format!("{t}"), &names));
            // with several features the best split may not be unique
            if d == 1 {
                let fresh = $fresh;
                let v = |h| serde_json::to_value(h).unwrap().to_string().replace('"', "'");
                tail.push(json!({"e":"tree","set":set,"got":v($grow(&t)),"fresh":v($grow(&fresh))}));
            }
        }};
    }
    let fat = Cell::new(0);
    let r = guard(|| match c.w {
        "dtree" => look!(dtree(&s, &names, c.ops, &at), dtree(&s, &names, &plain, &fat), |t: &DecisionTree| t.produce(&s, c.dist)),
        "rtree" => look!(rtree(&s, &names, c.ops, &at), rtree(&s, &names, &plain, &fat), |t: &RegressionTree<GBMLoss>| t.produce(&s, c.dist)),
        _ => {
            let t = network(&s, c.ops, &at);
            let (has, rs) = rows(t.info().unwrap_or_default());
            tail.push(json!({"e":"info","has":has,"rows":rs}));
        }
    });
    let ok = at.get();
    for (i, o) in c.ops.iter().enumerate().take(ok + 1) {
        ev.push(json!({"e":"call","k":o.k,"j":o.j,"v":o.v,"n": if o.k == "bins" { o.v.parse::<i64>().unwrap() } else { 0 },"ok": (i < ok) as i32}));
    }
    if let Err(m) = r {
        if ok == c.ops.len() {
            tail = vec![json!({"e":"panic","msg":short(&m)})];
        }
    }
    ev.extend(tail);
    json!({"w": c.w, "ev": ev})
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x1ea4);
    let put = |rng: &mut StdRng, out: &mut Out, id: &str, w: &str, x: &[Vec<f64>], ops: &[Op], sparse: bool| {
        let m = x.len();
        let y = labels(rng, m);
        let dist: Vec<f64> = if w == "dtree" {
            let v: Vec<f64> = (0..m).map(|_| rng.gen_range(0.1..1.0)).collect();
            let z: f64 = v.iter().sum();
            v.iter().map(|a| a / z).collect()
        } else {
            (0..m).map(|_| rng.gen_range(-1.0..1.0)).collect()
        };
        let c = Case { w, x, y: &y, dist: &dist, ops, sparse };
        out.run(id, || session(&c));
    };
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let v: Value = serde_json::from_str(line).unwrap();
            let cols: Vec<Vec<f64>> = v["cols"].as_array().unwrap().iter()
                .map(|c| c.as_array().unwrap().iter().map(|x| parse_num(x.as_str().unwrap())).collect()).collect();
            let x: Vec<Vec<f64>> = (0..cols[0].len()).map(|i| cols.iter().map(|c| c[i]).collect()).collect();
            let ops: Vec<Op> = v["ops"].as_array().unwrap().iter().map(|o| Op {
                k: o["k"].as_str().unwrap().into(), j: o["j"].as_u64().unwrap() as usize, v: o["v"].as_str().unwrap().into() }).collect();
            let mut r = StdRng::seed_from_u64(cfg.seed ^ (k as u64 + 1) * 7919);
            put(&mut r, out, &format!("setup-beh{k}"), v["w"].as_str().unwrap(), &x, &ops, k % 3 == 2);
        }
    }
    let n = if cfg.thorough { 900 } else { 150 };
    for k in 0..n {
        let w = ["dtree", "rtree", "nn"][if k % 10 == 9 { 2 } else { k % 2 }];
        let (m, d) = match k % 25 {
            24 if w != "nn" => (rng.gen_range(250..320), 1),
            _ if w == "nn" => (rng.gen_range(2..300), 2),
            _ => (rng.gen_range(2..14), if k % 4 < 2 { 1 } else { rng.gen_range(2..5) }),
        };
        let kind = k % 3;
        let x: Vec<Vec<f64>> = (0..m).map(|_| (0..d).map(|_| match kind {
            0 => rng.gen_range(-4..=4) as f64,
            1 => [0.0, 0.0, 2.5, -7.25, 13.0][rng.gen_range(0..5)],
            _ => rng.gen_range(-30.0..30.0),
        }).collect()).collect();
        let mut ops: Vec<Op> = vec![];
        for _ in 0..rng.gen_range(0..8) {
            let key = match w {
                "dtree" => ["depth", "criterion", "bins"][rng.gen_range(0..3)],
                "rtree" => ["depth", "lambda", "bins", "loss"][rng.gen_range(0..4)],
                _ => ["epoch", "iter", "batch", "append"][rng.gen_range(0..4)],
            };
            let j = if key == "bins" { rng.gen_range(1..=d) } else { 0 };
            let v = match key {
                "depth" => rng.gen_range(1..6usize).to_string(),
                "criterion" => ["entropy", "gini", "twoing", "edge"][rng.gen_range(0..4)].to_string(),
                "bins" => [1, 2, 3, 4, 5, 9, 30, 300][rng.gen_range(0..8)].to_string(),
                "lambda" => ["0", "0.5", "3.25", "0.01"][rng.gen_range(0..4)].to_string(),
                "loss" => ["L1", "L2"][rng.gen_range(0..2)].to_string(),
                _ => rng.gen_range(1..90usize).to_string(),
            };
            ops.push(Op { k: key.into(), j, v });
        }
        if w == "rtree" && k % 8 != 7 && !ops.iter().any(|o| o.k == "loss") {
            let i = rng.gen_range(0..=ops.len());
            ops.insert(i, Op { k: "loss".into(), j: 0, v: "L2".into() });
        }
        let mut r = StdRng::seed_from_u64(cfg.seed ^ (k as u64 + 91) * 104729);
        put(&mut r, out, &format!("setup-{w}-{k}"), w, &x, &ops, kind < 2 && k % 5 < 2);
    }
}
