//! Sessions with files, readers and cross validations, run in a child process
//! whose standard output is recorded.
use crate::common::*;
use miniboosts::prelude::*;
use miniboosts::CrossValidation;

/// names of files and their extensions
const NAMES: [(&str, &str); 8] = [
    ("a.csv", "csv"), ("c.svm", "svm"), ("b.csv", "csv"), ("data", ""),
    ("e.csv.txt", "txt"), ("h.csv/f.libsvm", "libsvm"), ("f.2.csv", "csv"), ("csv", ""),
];
struct Case {
    id: String,
    ops: Vec<Value>,
}

fn rows(s: &Sample) -> Value {
    Value::Array((0..s.shape().0).map(|i| {
        let (x, y) = s.at(i);
        json!([nums(&x), num(y)])
    }).collect())
}
fn names(s: &Sample) -> Vec<String> {
    s.features().iter().map(|f| f.name().to_string()).collect()
}
fn text(doc: &Value) -> String {
    let mut out = String::new();
    for l in doc["lines"].as_array().unwrap() {
        if doc["kind"] == "csv" {
            let cells: Vec<&str> = l.as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect();
            out += &cells.join(",");
        } else {
            out += l["y"].as_str().unwrap();
            for e in l["f"].as_array().unwrap() {
                out += &format!(" {}:{}", e[0], e[1].as_str().unwrap());
            }
        }
        out += "\n";
    }
    out
}

fn child_case(c: &Case, dir: &std::path::Path) -> Result<(), String> {
    type R = SampleReader<std::path::PathBuf, String>;
    let mut reader: Option<R> = None;
    let mut cur: Option<&'static Sample> = None;
    let mut cv: Option<CrossValidation<'static>> = None;
    let mut parts: Option<(Sample, Sample)> = None;
    let tell = |v: Value| println!("\n@@EV {v}");
    // samples on which a constant sample of n examples is used ("load")
    for op in &c.ops {
        let mut o = op.clone();
        match op["e"].as_str().unwrap() {
            "write" => {
                let p = dir.join(op["f"].as_str().unwrap());
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, text(&op["doc"])).unwrap();
            }
            "remove" => {
                if std::fs::remove_file(dir.join(op["f"].as_str().unwrap())).is_err() {
                    continue;
                }
            }
            "reader" => reader = Some(R::default()),
            "file" => reader = reader.take().map(|r| r.file(dir.join(op["f"].as_str().unwrap()))),
            "header" => reader = reader.take().map(|r| r.has_header(op["v"] == 1)),
            "target" => reader = reader.take().map(|r| r.target_feature(op["v"].as_str().unwrap().to_string())),
            "read" => match reader.take() {
                None => continue,
                Some(r) => match guard(|| r.read()) {
                    Err(_) => o["r"] = json!("refused"),
                    Ok(Err(_)) => o["r"] = json!("error"),
                    Ok(Ok(s)) => {
                        let s: &'static Sample = Box::leak(Box::new(s));
                        o["r"] = json!("ok");
                        o["names"] = json!(names(s));
                        o["rows"] = rows(s);
                        cv = None;
                        parts = None;
                        cur = Some(s);
                    }
                },
            },
            "cv" => match cur {
                Some(s) if s.shape().0 > 0 => cv = Some(CrossValidation::new(s)),
                _ => continue,
            },
            "look" => match cur {
                Some(s) => {
                    o["names"] = json!(names(s));
                    o["rows"] = rows(s);
                }
                None => continue,
            },
            "take" => match parts.take() {
                Some((a, b)) => {
                    let p = if op["part"] == "train" { a } else { b };
                    if p.shape().0 == 0 {
                        continue;
                    }
                    cur = Some(Box::leak(Box::new(p)));
                    cv = None;
                }
                None => continue,
            },
            k => {
                let Some(w) = cv.take() else { continue };
                cv = Some(match k {
                    "ratio" => w.train_ratio(op["v"].as_str().unwrap().parse().unwrap()),
                    "folds" => w.n_folds(op["v"].as_u64().unwrap() as usize),
                    "seed" => w.seed(op["v"].as_str().unwrap().parse().unwrap()),
                    "verbose" => w.verbose(op["v"] == 1),
                    "shuffle" => w.shuffle(),
                    "next" => {
                        let mut w = w;
                        match w.next() {
                            Some((a, b)) => {
                                o["fold"] = json!(1);
                                o["train"] = rows(&a);
                                o["test"] = rows(&b);
                                parts = Some((a, b));
                            }
                            None => o["fold"] = json!(0),
                        }
                        w
                    }
                    _ => panic!("unknown call {k}"),
                });
            }
        }
        tell(o);
    }
    Ok(())
}

pub fn child(cfg: &Cfg) {
    let dir = std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH");
    for c in cases(cfg) {
        if cfg.only.as_deref().map(|o| o != c.id).unwrap_or(false) {
            continue;
        }
        println!("\n@@CASE {}", c.id);
        let d = std::path::Path::new(&dir).join(&c.id);
        std::fs::create_dir_all(&d).unwrap();
        match guard(|| child_case(&c, &d)) {
            Ok(Ok(())) => println!("\n@@END"),
            Ok(Err(m)) | Err(m) => println!("\n@@PANIC {}", short(&m).replace('\n', " ")),
        }
        std::fs::remove_dir_all(&d).ok();
    }
}

/// the fold, and the sizes of its parts, that a line speaks of
fn said(line: &str) -> Value {
    let ns: Vec<u64> = crate::console::plain(line).split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect();
    json!(ns)
}
fn record(lines: &[String]) -> Value {
    let mut ev: Vec<Value> = vec![];
    let mut other: Vec<Value> = vec![];
    let mut ended = false;
    for l in lines {
        if let Some(e) = l.strip_prefix("@@EV ") {
            let mut e: Value = serde_json::from_str(e).expect("event");
            if e["e"] == "next" {
                e["said"] = json!(other);
            }
            other.clear();
            ev.push(e);
        } else if let Some(m) = l.strip_prefix("@@PANIC ") {
            ev.push(json!({"e":"panic","msg":m}));
            ended = true;
        } else if l.starts_with("@@END") {
            ended = true;
        } else if !l.starts_with("@@CASE") && !l.trim().is_empty() {
            other.push(said(l));
        }
    }
    if !ended {
        ev.push(json!({"e":"panic","msg":"the process ended"}));
    }
    json!({"ev":ev})
}

/// A file of m rows that differ: "csv" with or without a header, or "svm".
fn doc(rng: &mut StdRng, kind: &str, head: bool, m: usize, at: &mut i64) -> Value {
    let y = |rng: &mut StdRng| if rng.gen() { "1" } else { "-1" }.to_string();
    if kind == "svm" {
        let wide = rng.gen_range(2..5);
        let lines: Vec<Value> = (0..m).map(|_| {
            *at += 1;
            let mut f: Vec<Value> = vec![json!([1, at.to_string()])];
            for j in 2..=wide {
                if rng.gen_bool(0.5) {
                    f.push(json!([j, format!("{}.5", rng.gen_range(0..4))]));
                }
            }
            json!({"y":y(rng),"f":f})
        }).collect();
        return json!({"kind":"svm","lines":lines});
    }
    let extra = rng.gen_range(0..3);
    let c = rng.gen_range(0..2 + extra); // where the labels are
    let d = (c + 1) % (2 + extra); // where the numbers of the rows are
    let mut lines: Vec<Vec<String>> = vec![];
    if head {
        let mut h = vec!["weight", "x 1", "colour"].into_iter().map(String::from).collect::<Vec<_>>();
        h.truncate(2 + extra);
        while h.len() < 2 + extra {
            h.push(format!("f{}", h.len()));
        }
        h[c] = "class".into();
        h[d] = "id".into();
        if rng.gen_range(0..6) == 0 {
            h[c] = "3".into();
        }
        lines.push(h);
    }
    for _ in 0..m {
        *at += 1;
        lines.push((0..2 + extra).map(|j| if j == c { y(rng) } else if j == d { at.to_string() } else { format!("-{}.25", rng.gen_range(0..9)) }).collect());
    }
    json!({"kind":"csv","lines":lines})
}
/// (target of an entry of `lines`, whether the first line has names)
fn label_of(doc: &Value, head: bool) -> String {
    let first: Vec<String> = doc["lines"][0].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();
    if head {
        for nm in ["class", "3"] {
            if first.iter().any(|h| h == nm) {
                return nm.into();
            }
        }
        return first[0].clone();
    }
    // the column of labels
    let ls = doc["lines"].as_array().unwrap();
    let j = (0..first.len()).find(|j| ls.iter().all(|l| ["1", "-1"].contains(&l[*j].as_str().unwrap()))).unwrap_or(0);
    format!("Feat. [{}]", j + 1)
}

struct Gen {
    rng: StdRng,
    ops: Vec<Value>,
    disk: Vec<(usize, Value, bool)>,
    at: i64,
}
impl Gen {
    fn op(&mut self, v: Value) {
        self.ops.push(v);
    }
    fn write(&mut self, f: usize, m: usize) {
        let csv = if self.rng.gen_range(0..12) == 0 { NAMES[f].1 != "csv" } else { NAMES[f].1 == "csv" };
        let head = csv && self.rng.gen();
        let d = doc(&mut self.rng, if csv { "csv" } else { "svm" }, head, m, &mut self.at);
        self.disk.retain(|x| x.0 != f);
        self.disk.push((f, d.clone(), head));
        self.op(json!({"e":"write","f":NAMES[f].0,"doc":d}));
    }
    fn file(&mut self, f: usize) {
        self.op(json!({"e":"file","f":NAMES[f].0,"ext":NAMES[f].1}));
    }
    /// a read that most often succeeds, with other calls before
    fn read(&mut self, m: usize) {
        if self.disk.is_empty() || self.rng.gen_range(0..3) == 0 {
            let f = self.rng.gen_range(0..NAMES.len());
            self.write(f, m);
        }
        self.op(json!({"e":"reader"}));
        let (f, d, head) = self.disk.choose(&mut self.rng).unwrap().clone();
        // the calls that count, in any order
        let mut last: Vec<Value> = vec![json!({"e":"file","f":NAMES[f].0,"ext":NAMES[f].1})];
        if head || self.rng.gen() {
            last.push(json!({"e":"header","v":head as i32}));
        }
        if d["kind"] == "csv" || self.rng.gen() {
            let t = if d["kind"] == "csv" { label_of(&d, head) } else { "class".to_string() };
            last.push(json!({"e":"target","v":t}));
        }
        if self.rng.gen_range(0..5) == 0 {
            let k = self.rng.gen_range(0..last.len());
            last.remove(k);
        }
        last.shuffle(&mut self.rng);
        for _ in 0..self.rng.gen_range(0..4) {
            match self.rng.gen_range(0..4) {
                0 => { let f = self.rng.gen_range(0..NAMES.len()); self.file(f) }
                1 => { let v = self.rng.gen_range(0..2); self.op(json!({"e":"header","v":v})) }
                2 => { let v = ["class", "id", "3", "Feat. [1]", "Feat. [2]", ""].choose(&mut self.rng).unwrap().to_string(); self.op(json!({"e":"target","v":v})) }
                _ => if let Some(o) = last.first() { self.op(o.clone()) },
            }
        }
        let turn = self.rng.gen_range(0..=last.len() + 2);
        for (k, o) in last.into_iter().enumerate() {
            if k == turn {
                self.disturb(m);
            }
            self.op(o);
        }
        if turn == 3 {
            self.disturb(m);
        }
        self.op(json!({"e":"read"}));
    }
    /// files change while the reader is made
    fn disturb(&mut self, m: usize) {
        let f = self.rng.gen_range(0..4);
        if self.rng.gen_range(0..3) == 0 {
            self.disk.retain(|x| x.0 != f);
            self.op(json!({"e":"remove","f":NAMES[f].0}));
        } else {
            self.write(f, m);
        }
    }
    /// a cross validation; `seeds` in use, m: about as many rows as the sample has
    fn folds(&mut self, seeds: &[u64], m: usize) {
        self.op(json!({"e":"cv"}));
        let setting = |g: &mut Gen| match g.rng.gen_range(0..6) {
            0 => {
                let k = g.rng.gen_range(0..m);
                let r = if g.rng.gen_range(0..5) == 0 { 0.5 } else { (k as f64 + 0.37) / m as f64 };
                g.op(json!({"e":"ratio","v":num(r)}))
            }
            1 => { let v = g.rng.gen_range(0..8); g.op(json!({"e":"folds","v":v})) }
            2 | 3 => { let s = seeds.choose(&mut g.rng).unwrap().to_string(); g.op(json!({"e":"seed","v":s})) }
            4 => { let v = g.rng.gen_range(0..2); g.op(json!({"e":"verbose","v":v})) }
            _ => g.op(json!({"e":"shuffle"})),
        };
        for _ in 0..self.rng.gen_range(0..6) {
            setting(self);
        }
        let draws = self.rng.gen_range(1..9);
        for _ in 0..draws {
            self.op(json!({"e":"next"}));
            if self.rng.gen_range(0..8) == 0 {
                setting(self);
            }
        }
    }
}

fn cases(cfg: &Cfg) -> Vec<Case> {
    let mut out = vec![];
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let v: Value = serde_json::from_str(&line.replace("<<", "[").replace(">>", "]")).expect("behaviour");
            let a = json!({"kind":"csv","lines":[["1","2"],["3","4"],["5","6"]]});
            let h = json!({"kind":"csv","lines":[["x","1"],["7","8"],["9","10"]]});
            let s = json!({"kind":"svm","lines":[{"y":"1","f":[[1,"2"]]},{"y":"-1","f":[[2,"3"]]}]});
            let ext = |f: &str| if f == "p.csv" { "csv" } else { "svm" };
            let read = v[0] == "read";
            let mut ops = vec![];
            if read {
                ops.push(json!({"e":"write","f":"p.csv","doc":a}));
                ops.push(json!({"e":"reader"}));
            } else {
                // sizes by turns: the model's, and larger ones
                let m = [4, 13, 20][k % 3];
                let lines: Vec<Value> = (1..=m).map(|i| json!([i.to_string(), "1"])).collect();
                ops.push(json!({"e":"write","f":"p.csv","doc":{"kind":"csv","lines":lines}}));
                ops.extend([json!({"e":"reader"}), json!({"e":"file","f":"p.csv","ext":"csv"}), json!({"e":"target","v":"Feat. [2]"}), json!({"e":"read"})]);
            }
            for o in v[1].as_array().unwrap() {
                let (e, x) = (o[0].as_str().unwrap(), o[1].as_str().unwrap());
                ops.push(match e {
                    "write" => {
                        let (f, d) = x.split_once('=').unwrap();
                        json!({"e":e,"f":f,"doc":match d { "A" => &a, "H" => &h, _ => &s }})
                    }
                    "remove" => json!({"e":e,"f":x}),
                    "file" => json!({"e":e,"f":x,"ext":ext(x)}),
                    "header" | "verbose" | "folds" => json!({"e":e,"v":x.parse::<i32>().unwrap()}),
                    "ratio" => json!({"e":e,"v":if x == "1/2" { "0.5" } else { "0.67" }}),
                    "take" => json!({"e":e,"part":x}),
                    _ => json!({"e":e,"v":x}),
                });
            }
            ops.push(json!({"e":"look"}));
            out.push(Case { id: format!("beh-{k}"), ops });
        }
    }
    let n = if cfg.thorough { 4000 } else { 300 };
    for k in 0..n {
        let rng = StdRng::seed_from_u64(cfg.seed ^ 0x507 ^ ((k as u64) << 20));
        let mut g = Gen { rng, ops: vec![], disk: vec![], at: 0 };
        let m = g.rng.gen_range(2..9) + if g.rng.gen() { 11 } else { 0 };
        let m = size(&mut g.rng, k, 100, 100..=200, m);
        let small = g.rng.gen_range(0..20);
        let far = match g.rng.gen_range(0..6) {
            0 => u64::MAX,
            1 => small + (1 << 32),
            2 => 1234 + (1 << 32),
            3 => small + (1 << 63),
            _ => g.rng.gen_range(0..1 << 50),
        };
        let seeds: Vec<u64> = vec![1234, small, far];
        if k % 10 == 0 {
            // seeds that differ in one bit, or in all
            g.write(0, 12 + k % 9);
            let (_, d, head) = g.disk[0].clone();
            if d["kind"] == "csv" {
                g.ops.extend([json!({"e":"reader"}), json!({"e":"file","f":NAMES[0].0,"ext":NAMES[0].1}), json!({"e":"header","v":head as i32}),
                              json!({"e":"target","v":label_of(&d, head)}), json!({"e":"read"})]);
                let base = if g.rng.gen() { g.rng.gen_range(0..20u64) } else { g.rng.gen() };
                let mut todo: Vec<u64> = vec![base, !base, base.swap_bytes(), base ^ 1 << 32, base ^ 1 << 63, base ^ 1 << (k / 10 % 64), base.wrapping_neg(), base, 0, 1234];
                todo.dedup();
                for s in todo {
                    g.ops.extend([json!({"e":"cv"}), json!({"e":"seed","v":s.to_string()}), json!({"e":"shuffle"}), json!({"e":"next"})]);
                }
                out.push(Case { id: format!("seeds-{k}"), ops: g.ops });
                continue;
            }
        }
        for _ in 0..g.rng.gen_range(1..4) {
            g.read(m);
            for _ in 0..g.rng.gen_range(0..4) {
                if g.rng.gen_range(0..5) == 0 {
                    g.disturb(m);
                }
                g.folds(&seeds, m);
                if g.rng.gen_range(0..4) == 0 {
                    let part = ["train", "test"][k % 2];
                    g.op(json!({"e":"take","part":part}));
                }
                if g.rng.gen() {
                    g.op(json!({"e":"look"}));
                }
            }
        }
        out.push(Case { id: format!("rnd-{k}"), ops: g.ops });
    }
    out
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let text = crate::console::output_of("prepare-child", cfg);
    let mut found: std::collections::HashMap<String, Vec<String>> = Default::default();
    let mut id = String::new();
    for line in text.lines() {
        if let Some(c) = line.strip_prefix("@@CASE ") {
            id = c.to_string();
        }
        found.entry(id.clone()).or_default().push(line.to_string());
    }
    for c in cases(cfg) {
        let none = vec![];
        out.run(&c.id, || record(found.get(&c.id).unwrap_or(&none)));
    }
}
