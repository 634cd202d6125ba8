//! Samples: reading, renaming, splitting, statistics, and learning from
//! dense and sparse twins.
use crate::common::*;
use miniboosts::prelude::*;
use polars::prelude::*;

pub fn scratch(ext: &str) -> std::path::PathBuf {
    thread_local!(static N: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
    let dir = std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH");
    let k = N.with(|n| {
        n.set(n.get() + 1);
        n.get()
    });
    std::path::Path::new(&dir).join(format!("f{k}.{ext}"))
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

fn read_csv(op: &Value) -> Sample {
    let style = op["style"].as_u64().unwrap_or(0);
    let nl = if style & 1 == 1 { "\r\n" } else { "\n" };
    let pad = if style & 2 == 2 { " " } else { "" };
    let header = strs(&op["header"]);
    let mut text = String::new();
    if !header.is_empty() {
        text += &header.join(",");
        text += nl;
    }
    let rows = op["rows"].as_array().unwrap();
    for (i, r) in rows.iter().enumerate() {
        let cells: Vec<String> = strs(r).iter().map(|c| format!("{pad}{c}{pad}")).collect();
        text += &cells.join(",");
        if i + 1 < rows.len() || style & 4 == 0 {
            text += nl;
        }
    }
    let p = scratch("csv");
    std::fs::write(&p, text).unwrap();
    let s = SampleReader::default().file(p.clone()).has_header(!header.is_empty()).target_feature(op["target"].as_str().unwrap()).read();
    std::fs::remove_file(&p).ok();
    s.unwrap()
}

pub fn read_svm(op: &Value) -> Sample {
    let style = op["style"].as_u64().unwrap_or(0);
    let nl = if style & 1 == 1 { "\r\n" } else { "\n" };
    let sep = if style & 2 == 2 { "  " } else { " " };
    let lines = op["lines"].as_array().unwrap();
    let mut text = String::new();
    for (i, l) in lines.iter().enumerate() {
        text += l["y"].as_str().unwrap();
        for e in l["f"].as_array().unwrap() {
            text += &format!("{sep}{}:{}", e[0], e[1].as_str().unwrap());
        }
        if style & 8 == 8 {
            text += " ";
        }
        if i + 1 < lines.len() || style & 4 == 0 {
            text += nl;
        }
    }
    let p = scratch(["svm", "txt", "libsvm"][(style % 3) as usize]);
    std::fs::write(&p, text).unwrap();
    let s = SampleReader::<_, &str>::default().file(p.clone()).read();
    std::fs::remove_file(&p).ok();
    s.unwrap()
}

pub fn read_frame(op: &Value) -> Sample {
    let names = strs(&op["names"]);
    let col = |v: &Value| -> Vec<f64> { strs(v).iter().map(|x| x.parse().unwrap()).collect() };
    let cols: Vec<Series> = names.iter().zip(op["cols"].as_array().unwrap()).map(|(n, c)| Series::new(n, col(c))).collect();
    Sample::from_dataframe(DataFrame::new(cols).unwrap(), Series::new("y", col(&op["target"]))).unwrap()
}

fn observe(e: &str, s: &Sample) -> Value {
    let (n, d) = s.shape();
    let names: Vec<String> = s.features().iter().map(|f| f.name().to_string()).collect();
    let rows: Vec<(Vec<f64>, f64)> = (0..n).map(|i| s.at(i)).collect();
    let col: Vec<Vec<f64>> = s.features().iter().map(|f| (0..n).map(|i| f[i]).collect()).collect();
    let byname: Vec<Vec<f64>> = names.iter().map(|f| (0..n).map(|i| s[f.as_str()][i]).collect()).collect();
    json!({"e":e,"shape":[n,d],"names":names,"target":nums(s.target()),
        "at":mat(&rows.iter().map(|r| r.0.clone()).collect::<Vec<_>>()),"aty":nums(&rows.iter().map(|r| r.1).collect::<Vec<_>>()),
        "col":mat(&col),"byname":mat(&byname),"uniq":nums(&s.unique_target()),
        "views":s.features().iter().map(crate::column::view).collect::<Vec<_>>()})
}

fn panic_ev(ev: &mut Vec<Value>, at: &str, msg: &str) {
    ev.push(json!({"e":"panic","at":at,"msg":short(msg)}));
}

/// Weights of the examples as traced.
fn stats(s: &Sample, w: &[f64], label: Option<f64>, key: &str) -> Value {
    let pairs = |v: Vec<(f64, f64)>| -> Value { Value::Array(v.iter().map(|(a, b)| json!([num(*a), num(*b)])).collect()) };
    match label {
        None => json!({"e":"stats","key":key,"label":"","w":nums(w),"mean":nums(&s.weighted_mean(w)),"mv":pairs(s.weighted_mean_and_variance(w))}),
        Some(y) => json!({"e":"stats","key":key,"label":num(y),"w":nums(w),"mean":nums(&s.weighted_mean_for_label(y, w)),
            "mv":pairs(s.weighted_mean_and_variance_for_label(y, w))}),
    }
}

fn run_ops(ops: &[Value]) -> Vec<Value> {
    let mut ev = vec![];
    let mut cur: Option<Sample> = None;
    let mut parts: Vec<(Sample, Sample)> = vec![];
    for op in ops {
        let mut o = op.clone();
        let what = op["e"].as_str().unwrap();
        match what {
            "csv" | "svm" | "frame" | "target" | "rename" | "take" => {
                let r = guard(|| {
                    let mut old = vec![];
                    let mut part = json!("");
                    let s = match what {
                        "csv" => read_csv(op),
                        "svm" => read_svm(op),
                        "frame" => read_frame(op),
                        "target" => cur.clone().unwrap().set_target(op["name"].as_str().unwrap()),
                        "rename" => {
                            let mut s = cur.clone().unwrap();
                            old = s.replace_names(strs(&op["names"]));
                            s
                        }
                        _ => {
                            let k = op["fold"].as_u64().unwrap() as usize % parts.len();
                            let s = if op["part"] == "train" { parts[k].0.clone() } else { parts[k].1.clone() };
                            part = observe("part", &s);
                            s
                        }
                    };
                    let ob = observe("obs", &s);
                    (s, ob, old, part)
                });
                match r {
                    Ok((s, ob, old, part)) => {
                        o["old"] = json!(old);
                        o["part"] = part;
                        ev.push(o);
                        ev.push(ob);
                        cur = Some(s);
                    }
                    Err(m) => {
                        ev.push(o);
                        panic_ev(&mut ev, "", &m);
                        return ev;
                    }
                }
            }
            "cv" => {
                let s = cur.as_ref().unwrap();
                let ratio = op["ratio"].as_str().unwrap_or("").to_string();
                let folds = op["folds"].as_u64().unwrap_or(0) as usize;
                o["ratio"] = json!(ratio);
                o["folds"] = json!(folds);
                ev.push(o);
                parts.clear();
                let r = guard(|| {
                    let mut c = miniboosts::CrossValidation::new(s);
                    if !ratio.is_empty() {
                        c = c.train_ratio(crate::exp::parse_num(&ratio));
                    }
                    if folds > 0 {
                        c = c.n_folds(folds);
                    }
                    if let Some(seed) = op["seed"].as_u64() {
                        c = c.seed(seed);
                    }
                    if op["shuffle"] == true {
                        c = c.shuffle();
                    }
                    let mut out = vec![];
                    for (a, b) in c.take(40) {
                        out.push(json!({"e":"fold","train":observe("part", &a),"test":observe("part", &b)}));
                        parts.push((a, b));
                    }
                    out
                });
                match r {
                    Ok(mut v) => {
                        ev.append(&mut v);
                        ev.push(json!({"e":"folds"}));
                    }
                    Err(m) => {
                        panic_ev(&mut ev, "S05", &m);
                        return ev;
                    }
                }
            }
            "stats" => {
                let s = cur.as_ref().unwrap();
                let w: Vec<f64> = strs(&op["w"]).iter().map(|x| x.parse().unwrap()).collect();
                let label = op["label"].as_str().unwrap();
                let y = if label.is_empty() { None } else { Some(label.parse().unwrap()) };
                match guard(|| stats(s, &w, y, op["key"].as_str().unwrap())) {
                    Ok(v) => ev.push(v),
                    Err(m) => {
                        panic_ev(&mut ev, "S04", &m);
                        return ev;
                    }
                }
            }
            w => panic!("unknown operation {w}"),
        }
    }
    ev
}

/// A distribution of `m` entries that are multiples of 2^-bits and sum to 1 exactly.
pub fn dyadic(rng: &mut StdRng, m: usize, bits: u32, zeros: bool) -> Vec<f64> {
    let unit = 1u64 << bits;
    loop {
        let raw: Vec<f64> = (0..m).map(|_| if zeros && rng.gen_range(0..3) == 0 { 0.0 } else { rng.gen_range(0.01..1.0) }).collect();
        let z: f64 = raw.iter().sum();
        if z <= 0.0 {
            continue;
        }
        return quantise(&raw.iter().map(|v| v / z).collect::<Vec<_>>(), unit);
    }
}
fn quantise(p: &[f64], unit: u64) -> Vec<f64> {
    let mut k: Vec<i64> = p.iter().map(|v| (v * unit as f64).floor() as i64).collect();
    let left = unit as i64 - k.iter().sum::<i64>();
    let top = (0..k.len()).max_by_key(|i| k[*i]).unwrap();
    k[top] += left;
    k.iter().map(|v| *v as f64 / unit as f64).collect()
}

/// A weak learner that sees a coarser distribution, on which its sums are exact.
struct Coarse<W>(W);
impl<W: WeakLearner> WeakLearner for Coarse<W> {
    type Hypothesis = W::Hypothesis;
    fn name(&self) -> &str {
        "coarse"
    }
    fn produce(&self, s: &Sample, d: &[f64]) -> W::Hypothesis {
        self.0.produce(s, &quantise(d, 1 << 24))
    }
}

const CRITS: [Criterion; 4] = [Criterion::Entropy, Criterion::Edge, Criterion::Gini, Criterion::Twoing];

/// What the learners answer on `s` (and on query rows `q` of the same
/// representation); see the notes on ties in DESIGN.md.
fn lessons(s: &Sample, q: &Sample, exact: &[f64], generic: &[f64], preds: &[f64], boost: bool) -> Vec<(String, Vec<f64>)> {
    let mut out = vec![];
    let both = |h: &dyn Fn(&Sample) -> Vec<f64>| -> Vec<f64> {
        let mut v = h(s);
        v.extend(h(q));
        v
    };
    for c in CRITS {
        let h = DecisionTreeBuilder::new(s).max_depth(1).criterion(c).build().produce(s, exact);
        out.push((format!("stump {c}"), both(&|x| h.confidence_all(x))));
        let h = DecisionTreeBuilder::new(s).max_depth(3).criterion(c).build().produce(s, generic);
        out.push((format!("tree {c}"), h.confidence_all(s)));
    }
    let h = GaussianNB::init().produce(s, generic);
    out.push(("naive Bayes".into(), both(&|x| h.confidence_all(x))));
    let h = RegressionTreeBuilder::new(s).loss(GBMLoss::L2).max_depth(3).build().produce(s, preds);
    out.push(("regression tree L2".into(), Regressor::predict_all(&h, s)));
    let h = RegressionTreeBuilder::new(s).loss(GBMLoss::L1).max_depth(2).build().produce(s, preds);
    out.push(("regression tree L1".into(), both(&|x| Regressor::predict_all(&h, x))));
    if boost {
        let stump = Coarse(DecisionTreeBuilder::new(s).max_depth(1).criterion(Criterion::Edge).build());
        let f = AdaBoost::init(s).tolerance(0.3).run(&stump);
        out.push(("AdaBoost".into(), both(&|x| f.confidence_all(x))));
        let f = LPBoost::init(s).tolerance(0.1).nu(1.0 + (s.shape().0 / 3) as f64).run(&stump);
        out.push(("LPBoost".into(), both(&|x| f.confidence_all(x))));
        let f = SmoothBoost::init(s).gamma(0.25).tolerance(0.4).run(&stump);
        out.push(("SmoothBoost".into(), both(&|x| f.confidence_all(x))));
    }
    out
}

/// Rows as an SVMLight file that has an entry for every column.
pub fn svm_of(x: &[Vec<f64>], y: &[f64], explicit: &mut dyn FnMut() -> bool) -> Value {
    let d = x[0].len();
    let mut lines: Vec<Value> = vec![];
    for (i, r) in x.iter().enumerate() {
        let mut f: Vec<Value> = vec![];
        for j in 0..d {
            let lone = i == 0 && x.iter().all(|r| r[j] == 0.0);
            if r[j] != 0.0 || lone || explicit() {
                f.push(json!([j, num(r[j])]));
            }
        }
        lines.push(json!({"y": num(y[i]), "f": f}));
    }
    json!({"e":"svm","lines":lines})
}
pub fn frame_of(x: &[Vec<f64>], y: &[f64]) -> Value {
    let d = x[0].len();
    let names: Vec<String> = (0..d).map(|j| format!("Feat. [{}]", j + 1)).collect();
    let cols: Vec<Value> = (0..d).map(|j| nums(&x.iter().map(|r| r[j]).collect::<Vec<_>>())).collect();
    json!({"e":"frame","names":names,"cols":cols,"target":nums(y)})
}

fn twins(rng: &mut StdRng, k: usize) -> Value {
    let (m, d) = match k % 100 {
        // more distinct values than a tree has bins
        50 => (300, 1),
        17 | 38 | 59 | 80 => (rng.gen_range(25..=60), 2),
        24 | 66 | 87 => (rng.gen_range(3..=12), rng.gen_range(7..=15)),
        _ => (rng.gen_range(3..=12), rng.gen_range(1..=4)),
    };
    let ints = k % 2 == 0;
    let dens = if m == 300 { 0.97 } else { [0.2, 0.5, 0.8][k % 3] };
    let ints = ints && m < 300;
    let one = |rng: &mut StdRng| -> f64 {
        if !rng.gen_bool(dens) {
            0.0
        } else if ints {
            [-2.0, -1.0, 1.0, 2.0, 3.0][rng.gen_range(0..5)]
        } else {
            let s: f64 = [1.0, -1.0][rng.gen_range(0..2)];
            s * if k % 7 == 3 { rng.gen_range(0.5..1.0) } else { rng.gen_range(0.0..5.0) }
        }
    };
    let sign = k % 5;
    let fix = |v: f64| match sign { 3 => v.abs(), 4 => -v.abs(), _ => v };
    let mut x: Vec<Vec<f64>> = (0..m).map(|_| (0..d).map(|_| fix(one(rng))).collect()).collect();
    if k % 12 == 1 {
        x.iter_mut().for_each(|r| r[0] = 0.0);
    }
    if k % 12 == 7 {
        x.iter_mut().for_each(|r| r[0] = if r[0] == 0.0 { 1.5 } else { r[0].abs() });
    }
    if k % 6 == 2 {
        x.iter_mut().for_each(|r| r[0] = if r[0] == 0.0 { 1.5 } else { r[0] });
    }
    let y = labels(rng, m);
    let xq: Vec<Vec<f64>> = (0..5).map(|_| (0..d).map(|_| one(rng)).collect()).collect();
    let yq = vec![1.0, -1.0, 1.0, 1.0, -1.0];
    let exact = dyadic(rng, m, 20, k % 4 == 1);
    let generic = dyadic(rng, m, 40, false);
    let preds: Vec<f64> = (0..m).map(|_| rng.gen_range(-3.0..3.0)).collect();
    let mut r2 = StdRng::seed_from_u64(rng.gen());
    let pe = [0.0, 0.3, 1.0][k % 3];
    let mut explicit = || pe > 0.0 && r2.gen_bool(pe);
    let mut ev: Vec<Value> = vec![];
    let (fr, sv, fq, sq) = (frame_of(&x, &y), svm_of(&x, &y, &mut explicit), frame_of(&xq, &yq), svm_of(&xq, &yq, &mut explicit));
    let whole = if k % 3 == 1 {
        let n = rng.gen_range(1..=16);
        let test = rng.gen::<bool>();
        let more: Vec<Vec<f64>> = (0..n).map(|_| (0..d).map(|_| one(rng)).collect()).collect();
        let z = labels(rng, n.max(2))[..n].to_vec();
        let (wx, wy) = if test { ([x.clone(), more].concat(), [y.clone(), z].concat()) } else { ([more, x.clone()].concat(), [z, y.clone()].concat()) };
        Some((frame_of(&wx, &wy), svm_of(&wx, &wy, &mut explicit), n, test))
    } else {
        None
    };
    let boost = k % 4 == 0;
    // the learners ask for labels both ways of positive weight
    let w = |p: &[f64], c: f64| -> bool { p.iter().zip(&y).any(|(p, y)| *p > 0.0 && *y == c) };
    let r = guard(|| {
        let (dense, sparse) = match &whole {
            None => (read_frame(&fr), read_svm(&sv)),
            // parts of a cross validation of larger twins
            Some((f, s, n, test)) => {
                let all = n + m;
                let hold = if *test { m } else { *n };
                let part = |s: &Sample| {
                    let (a, b) = miniboosts::CrossValidation::new(s).train_ratio(((all - hold) as f64 + 0.5) / all as f64).next().unwrap();
                    if *test { b } else { a }
                };
                (part(&read_frame(f)), part(&read_svm(s)))
            }
        };
        let (dq, sq) = (read_frame(&fq), read_svm(&sq));
        ev.push(fr.clone());
        ev.push(observe("obs", &dense));
        ev.push(observe("twin", &sparse));
        for (s, q) in [(&dense, &dq), (&sparse, &sq)] {
            let bins = DecisionTreeBuilder::new(s).build().info().unwrap()[0].1.parse::<usize>().unwrap();
            ev.push(json!({"e":"bins","n":bins}));
            for (wk, p) in [("exact", &exact), ("generic", &generic)] {
                ev.push(stats(s, p, None, wk));
                for c in [1.0, -1.0] {
                    if w(p, c) {
                        ev.push(stats(s, p, Some(c), &format!("{wk} {c}")));
                    }
                }
            }
            for (key, ans) in lessons(s, q, &exact, &generic, &preds, boost) {
                ev.push(json!({"e":"learn","key":key,"ans":nums(&ans)}));
            }
        }
    });
    if let Err(m) = r {
        panic_ev(&mut ev, "S03", &m);
    }
    json!({"ev": ev})
}

fn cell(rng: &mut StdRng) -> String {
    let v: f64 = rng.gen_range(-50.0..50.0);
    match rng.gen_range(0..12) {
        0 => "0".into(),
        1 => "-0".into(),
        2 => format!("{}", v.trunc() as i64),
        3 => format!("+{}", v.abs().trunc() as i64),
        4 => format!("{:e}", v),
        5 => format!("{:.1}E{}", v, rng.gen_range(-5..6)),
        6 => format!("{:.2}", v),
        7 => format!(".{}", rng.gen_range(1..99)),
        8 => format!("{}.", rng.gen_range(1..99)),
        9 => "0.0".into(),
        10 => format!("{v:?}"),
        _ => format!("{}", rng.gen_range(-2..3)),
    }
}

/// Numbers that differ, if only a little.
const NEAR: [&str; 6] = ["1", "1.0000000001", "-1", "-0.99999999999", "1e-12", "0"];

fn names(rng: &mut StdRng, d: usize) -> Vec<String> {
    let pool = ["x", "y", "class", "alpha beta", "Feat. [1]", "Feat. [2]", "é", "x1", "X", "0", "target", "a:b", "\"q\""];
    let mut p: Vec<String> = pool.iter().map(|s| s.to_string()).chain((0..d).map(|i| format!("c{i}"))).collect();
    p.shuffle(rng);
    p.truncate(d);
    p
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x7ab1e);
    let what = std::env::var("TABLE").unwrap_or_default();
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let v: Value = serde_json::from_str(line).expect("behaviour");
            let ops = v.as_array().unwrap().clone();
            out.run(&format!("beh-{k}"), || json!({"ev": run_ops(&ops)}));
        }
    }
    let n = if cfg.thorough { 1500 } else { 250 };
    if what == "S03" {
        for k in 0..n {
            let mut r = StdRng::seed_from_u64(rng.gen());
            out.run(&format!("twins-{k}"), || twins(&mut r, k));
        }
        return;
    }
    for k in 0..n {
        // some wide tables, some long ones
        let m = if k % 9 == 0 { rng.gen_range(1..=2) } else if k % 16 == 11 { rng.gen_range(25..=60) } else { rng.gen_range(1..=12) };
        let big = size(&mut rng, k, 50, 260..=600, 0);
        let m = big.max(m);
        let m = if what == "S05" && (k == 100 || k == 101) { 1300 + k } else { m };
        let d = if m > 1000 { 2 } else if big > 0 { 2 } else if k % 16 == 5 || k % 16 == 14 { rng.gen_range(9..=24) } else { rng.gen_range(1..=5) };
        let style = rng.gen_range(0..16);
        let mut ops: Vec<Value> = vec![];
        let svm = what == "S02" || (what != "S01" && k % 2 == 0);
        let mut feats;
        if svm {
            // sparsity: any line may be the first to use an index; indices with gaps
            let near = k % 12 == 5;
            let idx: Vec<usize> = {
                let mut v: Vec<usize> = (0..d + rng.gen_range(0..4)).collect();
                if k % 8 == 7 {
                    let far = if k % 16 == 7 { 1009 } else { 37 };
                    v.iter_mut().for_each(|j| *j = *j * far + 5);
                }
                v.shuffle(&mut rng);
                v.truncate(d);
                v
            };
            let dens = [0.15, 0.5, 0.9][k % 3];
            let mut used = std::collections::BTreeSet::new();
            let lines: Vec<Value> = (0..m)
                .map(|_| {
                    let mut f: Vec<Value> = vec![];
                    for j in &idx {
                        if rng.gen_bool(dens) {
                            used.insert(*j);
                            f.push(json!([j, cell(&mut rng)]));
                        }
                    }
                    if k % 3 != 0 {
                        f.sort_by_key(|e| e[0].as_u64().unwrap());
                    }
                    let y = if near { NEAR[rng.gen_range(0..NEAR.len())].to_string() }
                        else if k % 4 == 0 { cell(&mut rng) } else { ["1", "-1", "+1"][rng.gen_range(0..3)].to_string() };
                    json!({"y": y, "f": f})
                })
                .collect();
            ops.push(json!({"e":"svm","lines":lines,"style":style}));
            feats = used.iter().map(|j| format!("Feat. [{}]", j + 1)).collect::<Vec<_>>();
        } else {
            let header = if rng.gen::<bool>() { names(&mut rng, d + 1) } else { vec![] };
            let t = rng.gen_range(0..=d);
            let lab = k % 3 != 0;
            let rows: Vec<Value> = (0..m)
                .map(|_| Value::Array((0..=d).map(|j| json!(if j == t && lab { if k % 12 == 4 { NEAR[rng.gen_range(0..NEAR.len())] } else { ["1", "-1"][rng.gen_range(0..2)] }.to_string() } else { cell(&mut rng) })).collect()))
                .collect();
            let all: Vec<String> = if header.is_empty() { (1..=d + 1).map(|j| format!("Feat. [{j}]")).collect() } else { header.clone() };
            ops.push(json!({"e":"csv","header":header,"rows":rows,"target":all[t],"style":style}));
            feats = all;
            feats.remove(t);
        }
        let mut m = m;
        let mut tested = false;
        let parts = what == "S08" && k % 4 != 3;
        for step in 0..if parts { 3 } else { rng.gen_range(if what == "S05" { 2 } else { 1 }..5) } {
            let pick = if parts { [3, 4, 1][step] }
                else if what == "S05" && k % 3 == 1 && step < 2 { [1, 3][step] }
                else if step == 0 { match what.as_str() { "S04" => 2, "S05" => 3, _ => rng.gen_range(0..4) } } else { rng.gen_range(0..5) };
            match pick {
                0 if feats.len() > 1 => {
                    let j = rng.gen_range(0..feats.len());
                    ops.push(json!({"e":"target","name":feats[j]}));
                    tested = false;
                    feats.remove(j);
                }
                1 if !feats.is_empty() => {
                    feats = names(&mut rng, feats.len());
                    ops.push(json!({"e":"rename","names":feats}));
                    tested = false;
                }
                2 if m > 0 => {
                    // the weights of labels are those of the original target
                    let w = match rng.gen_range(0..4) {
                        0 => vec![1.0 / m as f64; m],
                        1 => dyadic(&mut rng, m, 30, true),
                        2 => {
                            let mut w = vec![0.0; m];
                            w[rng.gen_range(0..m)] = 1.0;
                            w
                        }
                        _ => dyadic(&mut rng, m, 50, false),
                    };
                    ops.push(json!({"e":"stats","w":nums(&w),"label":"","key":format!("all {}", ops.len())}));
                    let scale = [1.0, 1.0, 0.01, 40.0, 1e-6, 1e-12, 1e-40, 1e6][rng.gen_range(0..8)];
                    ops.push(json!({"e":"labelstats","scale":scale,"w":nums(&w)}));
                }
                3 if m > 0 => {
                    let ratio = ["", "0.5", "0.8", "0.9", "0.25", "1/3", "0.05", "0.99", "2/3"][rng.gen_range(0..9)];
                    let folds = [0, 1, 2, 3, 5, 10][rng.gen_range(0..6)];
                    let mut o = json!({"e":"cv","ratio":ratio,"folds":folds,"shuffle":rng.gen::<bool>()});
                    if rng.gen::<bool>() {
                        o["seed"] = json!(rng.gen_range(0..1000u64));
                    }
                    ops.push(o);
                    tested = true;
                }
                4 if tested && m > 3 => {
                    let part = if rng.gen::<bool>() { "train" } else { "test" };
                    ops.push(json!({"e":"take","fold":rng.gen_range(0..2),"part":part}));
                    tested = false;
                    m = 0;
                }
                _ => {}
            }
        }
        out.run(&format!("ops-{k}"), || {
            let mut full = vec![];
            // statistics of the labels that occur with positive weight
            for o in &ops {
                if o["e"] == "labelstats" {
                    let ev = run_ops(&full);
                    let obs = ev.iter().rev().find(|e| e["e"] == "obs");
                    let (Some(obs), false) = (obs, ev.iter().any(|e| e["e"] == "panic")) else { continue };
                    let y: Vec<f64> = strs(&obs["target"]).iter().map(|v| v.parse().unwrap()).collect();
                    let c = o["scale"].as_f64().unwrap();
                    let w: Vec<f64> = strs(&o["w"]).iter().map(|v| c * v.parse::<f64>().unwrap()).collect();
                    let mut seen = y.clone();
                    seen.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    seen.dedup();
                    for l in seen {
                        let wl: f64 = y.iter().zip(&w).filter(|(t, _)| **t == l).map(|p| p.1).sum();
                        if wl > 1e-9 * c {
                            full.push(json!({"e":"stats","w":nums(&w),"label":num(l),"key":format!("label {l} {}", full.len())}));
                        }
                    }
                } else {
                    full.push(o.clone());
                }
            }
            json!({"ev": run_ops(&full)})
        });
    }
}
