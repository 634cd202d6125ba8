//! Sessions of requests, usable and unusable ones.
use crate::common::*;
use crate::exp::parse_num;
use crate::game::Params;
use crate::with_booster;
use miniboosts::prelude::*;
use miniboosts::research::{CrossValidation, ObjectiveFunction};
use miniboosts::{GBMLoss, SoftMarginObjective};
use polars::prelude::*;
use std::cell::Cell;

/// The sign or value of the first feature; only ever asked for.
struct Never(Cell<usize>);
impl WeakLearner for Never {
    type Hypothesis = H;
    fn name(&self) -> &str {
        "never"
    }
    fn produce(&self, _: &Sample, _: &[f64]) -> H {
        self.0.set(self.0.get() + 1);
        panic!("{LIMIT}")
    }
}

fn text(v: &Value, k: &str) -> String {
    v[k].as_str().unwrap_or("").to_string()
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
fn file(ext: &str, body: &str) -> std::path::PathBuf {
    let dir = std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH");
    let p = std::path::Path::new(&dir).join(format!("request.{ext}"));
    std::fs::write(&p, body).unwrap();
    p
}
fn read(p: std::path::PathBuf, header: bool, target: &str) -> Result<Sample, String> {
    let r = guard(|| {
        let mut r = SampleReader::default().file(p.clone()).has_header(header);
        if !target.is_empty() {
            r = r.target_feature(target);
        }
        r.read()
    });
    std::fs::remove_file(&p).ok();
    r?.map_err(|e| e.to_string())
}

/// The sample loaded by request `q`, or why it was refused.
fn load(q: &Value) -> Result<Sample, String> {
    match q["op"].as_str().unwrap() {
        "csv" => {
            let header = strs(&q["header"]);
            let mut lines: Vec<String> = q["rows"].as_array().unwrap().iter().map(|r| strs(r).join(",")).collect();
            if !header.is_empty() {
                lines.insert(0, header.join(","));
            }
            let mut body = lines.join("\n");
            if !body.is_empty() {
                body += "\n";
            }
            read(file("csv", &body), !header.is_empty(), &text(q, "target"))
        }
        "svm" => {
            let mut body = String::new();
            for line in q["lines"].as_array().unwrap() {
                body += &text(line, "y");
                for e in line["f"].as_array().unwrap() {
                    match e[0].as_i64().unwrap() {
                        -1 => body += &format!(" k:{}", e[1].as_str().unwrap()),
                        k => body += &format!(" {k}:{}", e[1].as_str().unwrap()),
                    }
                }
                body += "\n";
            }
            read(file("svm", &body), false, "")
        }
        "missing" => {
            let dir = std::env::var("VERIF_SCRATCH").unwrap();
            let p = std::path::Path::new(&dir).join("no-such-file.csv");
            guard(|| SampleReader::default().file(p.clone()).has_header(true).target_feature("a").read())?.map_err(|e| e.to_string())
        }
        "nofile" => guard(|| SampleReader::<&str, &str>::default().has_header(true).target_feature("a").read())?.map_err(|e| e.to_string()),
        "frame" => guard(|| {
            let col = |v: &Value| -> Vec<f64> { strs(v).iter().map(|x| parse_num(x)).collect() };
            let cols: Vec<Series> = strs(&q["names"]).iter().zip(q["cols"].as_array().unwrap()).map(|(n, c)| Series::new(n, col(c))).collect();
            Sample::from_dataframe(DataFrame::new(cols).unwrap(), Series::new("y", col(&q["target"])))
        })?
        .map_err(|e| e.to_string()),
        "dummy" => guard(|| Sample::dummy(q["n"].as_u64().unwrap() as usize)),
        _ => unreachable!(),
    }
}

fn boost(q: &Value, s: &Sample) -> Result<(), String> {
    let wl = Never(Cell::new(0));
    let b = text(q, "b");
    let mut p = Params::new();
    for (k, name) in [("nu", "nu"), ("gamma", "gamma"), ("kappa", "tol")] {
        let v = text(q, k);
        if !v.is_empty() {
            p.insert(name, parse_num(&v));
        }
    }
    let r = guard(|| {
        if b == "gbm" {
            GBM::init_with_loss(s, GBMLoss::L2).run(&wl);
        } else {
            with_booster!(b.as_str(), &p, s, bo, { bo.run(&wl); }, { GraphSepBoost::init(s).run(&wl); });
        }
    });
    match r {
        Ok(()) => Err("ignored".into()),
        Err(_) if wl.0.get() > 0 => Ok(()),
        Err(m) => Err(format!("panic: {m}")),
    }
}

fn ask(q: &Value, s: &mut Sample) -> Result<(), String> {
    let x = |k: &str| parse_num(q[k].as_str().unwrap());
    match q["op"].as_str().unwrap() {
        "target" => {
            let c = s.clone();
            *s = guard(|| c.set_target(text(q, "name")))?;
            Ok(())
        }
        "rename" => guard(|| s.replace_names(strs(&q["names"]))).map(|_| ()),
        "boost" => boost(q, s),
        "score" => {
            let h = H::new(0, vec![0.25; s.shape().0]);
            guard(|| SoftMarginObjective::new(x("nu")).eval(s, &h)).map(|_| ())
        }
        "bad" => guard(|| BadBaseLearnerBuilder::new(s).nu(x("nu")).build()).map(|_| ()),
        "cv" => guard(|| CrossValidation::new(s).train_ratio(x("ratio"))).map(|_| ()),
        "tree" => {
            let depth = q["depth"].as_u64().unwrap() as usize;
            let bins = text(q, "bins");
            guard(|| {
                if q["kind"] == "decision" {
                    let mut b = DecisionTreeBuilder::new(s).max_depth(depth);
                    if !bins.is_empty() {
                        b.set_nbins(&bins, 3);
                    }
                    b.build();
                } else {
                    let mut b = RegressionTreeBuilder::new(s).loss(GBMLoss::L2).max_depth(depth);
                    if !bins.is_empty() {
                        b.set_nbins(&bins, 3);
                    }
                    b.build();
                }
            })
        }
        _ => unreachable!(),
    }
}

fn session(ops: &[Value]) -> Value {
    let mut ev = vec![];
    let mut s: Option<Sample> = None;
    for q in ops {
        let loads = ["csv", "svm", "missing", "nofile", "frame", "dummy"].contains(&q["op"].as_str().unwrap());
        let r = if loads {
            load(q).map(|x| s = Some(x))
        } else {
            match s.as_mut() {
                Some(s) => ask(q, s),
                None => continue,
            }
        };
        ev.push(match r {
            Ok(()) => json!({"e":"accepted","q":q}),
            Err(m) if m == "ignored" => json!({"e":"ignored","q":q}),
            Err(m) => json!({"e":"refused","q":q,"why":short(&m)}),
        });
        if let Some(s) = &s {
            let n = s.shape().0;
            let names: Vec<&str> = s.features().iter().map(|f| f.name()).collect();
            match guard(|| (0..n).map(|i| s.features().iter().map(|f| f[i]).collect()).collect::<Vec<Vec<f64>>>()) {
                Ok(rows) => ev.push(json!({"e":"sample","shape":[n, s.shape().1],"names":names,"target":nums(s.target()),"rows":mat(&rows)})),
                Err(m) => ev.push(json!({"e":"broken","q":q,"msg":short(&m)})),
            }
        }
    }
    json!({"ev": ev})
}

fn show(x: f64) -> Value {
    num(x)
}

fn label(rng: &mut StdRng, style: usize) -> f64 {
    match style {
        0 => [1.0, -1.0][rng.gen_range(0..2)],
        1 => [0.0, 1.0][rng.gen_range(0..2)],
        2 => [3e9, 4e9][rng.gen_range(0..2)],
        3 => [-1.0, 0.0, 1.0][rng.gen_range(0..3)],
        4 => [1.0, -1.0, 1.0 + 1e-12, -1.0, 1.0][rng.gen_range(0..5)],
        5 => [1.0, 1e10, 2e10][rng.gen_range(0..3)],
        6 => 1.0,
        7 => [1.0 - 1e-12, -1.0][rng.gen_range(0..2)],
        8 => [1.0, -1.0, 1.0, -1.0, f64::NAN][rng.gen_range(0..5)],
        9 => [-9007199254740992.0, 4.0][rng.gen_range(0..2)],
        _ => rng.gen_range(-2..=2) as f64,
    }
}

fn random_load(rng: &mut StdRng) -> (Value, usize, Vec<String>) {
    let n = rng.gen_range(0..=8);
    let d = rng.gen_range(1..=4);
    let names: Vec<String> = (0..d).map(|j| format!("c{j}")).collect();
    match rng.gen_range(0..6) {
        0 => {
            // a file, perhaps with something wrong
            let head = rng.gen::<bool>();
            let style = rng.gen_range(0..7);
            let mut rows: Vec<Vec<String>> = (0..n)
                .map(|_| (0..=d).map(|j| format!("{:?}", if j == d { label(rng, style) } else { rng.gen_range(-9..9) as f64 / 4.0 })).collect())
                .collect();
            if n > 0 && rng.gen_range(0..2) == 0 {
                let i = rng.gen_range(0..n);
                match rng.gen_range(0..4) {
                    0 => {
                        rows[i].pop();
                    }
                    1 => rows[i].push("0.5".into()),
                    2 => {
                        let j = rng.gen_range(0..=d);
                        rows[i][j] = ["", "x", "1,5x", "--1", "0x10"][rng.gen_range(0..5)].replace(',', ".");
                    }
                    _ => rows[i] = vec!["".into()],
                }
            }
            let mut all = names.clone();
            all.push("label".into());
            let given: Vec<String> = (1..=d + 1).map(|k| format!("Feat. [{k}]")).collect();
            let cols = if head { all.clone() } else { given };
            let target = match rng.gen_range(0..6) {
                0 => "".to_string(),
                1 => "nobody".to_string(),
                2 => cols[0].clone(),
                _ => cols[d].clone(),
            };
            let rest = cols.into_iter().filter(|c| *c != target).collect();
            (json!({"op":"csv","header": if head { all } else { vec![] },"rows":rows,"target":target}), n, rest)
        }
        1 => {
            let k = rng.gen_range(0..=9);
            (json!({"op":"dummy","n":k}), k, vec!["dummy".into()])
        }
        _ => {
            let n = n.max(1);
            let style = rng.gen_range(0..11);
            let short = rng.gen_range(0..8) == 0;
            let y: Vec<Value> = (0..if short { rng.gen_range(0..n) } else { n }).map(|_| show(label(rng, style))).collect();
            let cols: Vec<Vec<Value>> = (0..d).map(|_| (0..n).map(|_| show(rng.gen_range(-9..9) as f64 / 4.0)).collect()).collect();
            (json!({"op":"frame","names":names,"cols":cols,"target":y}), n, names)
        }
    }
}

fn random_use(rng: &mut StdRng, n: usize, names: &[String]) -> Value {
    let m = n as f64;
    let near = |x: f64| -> f64 { f64::from_bits(x.to_bits() + 1) };
    let nu = match rng.gen_range(0..9) {
        0 => 1.0,
        1 => m,
        2 => near(m),
        3 => 1.0 - 1e-12,
        4 => 0.0,
        5 => -1.0,
        6 => m + 1.0,
        7 => m / 2.0,
        _ => rng.gen_range(0.0..m + 2.0),
    };
    match rng.gen_range(0..10) {
        0 => json!({"op":"score","nu":show(nu)}),
        1 => json!({"op":"bad","nu":show(nu)}),
        2 => json!({"op":"cv","ratio":show(*[0.0, 1.0, -0.25, 1.0 - 1e-12, 1e-12, 2.0, 0.5, f64::NAN].choose(rng).unwrap())}),
        3 => {
            let bins = match rng.gen_range(0..3) {
                0 => "".to_string(),
                1 => "nobody".to_string(),
                _ => names.first().cloned().unwrap_or_default(),
            };
            let kind = if rng.gen::<bool>() { "decision" } else { "regression" };
            let depth = rng.gen_range(0..4);
            json!({"op":"tree","kind":kind,"depth":depth,"bins":bins})
        }
        4 => json!({"op":"target","name": if rng.gen::<bool>() { "nobody".to_string() } else { names.last().cloned().unwrap_or_default() }}),
        5 => {
            let k = (names.len() + rng.gen_range(0..3)).saturating_sub(1);
            json!({"op":"rename","names":(0..k).map(|j| format!("r{j}")).collect::<Vec<_>>()})
        }
        _ => {
            let b = crate::anygame::ALL.iter().chain(&["gbm"]).nth(rng.gen_range(0..12)).unwrap();
            let mut q = json!({"op":"boost","b":b,"nu":"","gamma":"","kappa":""});
            if ["lpboost", "erlpboost", "softboost", "cerlpboost", "mlpboost"].contains(b) && rng.gen::<bool>() {
                q["nu"] = show(nu);
            }
            if *b == "smoothboost" {
                q["gamma"] = show([0.25, 0.4, 0.5, 0.5 - 1e-12, 0.0, -1e-12, 0.75, 0.1][rng.gen_range(0..8)]);
                if rng.gen::<bool>() {
                    q["kappa"] = show([0.5, 0.25, 0.0, 1.0, 1.5, -0.5, 1.0 - 1e-12][rng.gen_range(0..7)]);
                }
            }
            q
        }
    }
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x4e9);
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let j: Value = serde_json::from_str(line).unwrap();
            out.run(&format!("beh-{k}"), || session(j.as_array().unwrap()));
        }
    }
    let n = if cfg.thorough { 8000 } else { 1200 };
    for k in 0..n {
        let (first, m, names) = random_load(&mut rng);
        let mut ops = vec![first];
        for _ in 0..rng.gen_range(1..=8) {
            ops.push(random_use(&mut rng, m, &names));
        }
        out.run(&format!("rand-{k}"), || session(&ops));
    }
}
