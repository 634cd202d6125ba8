//! Drawings of trees, read back.
use crate::common::*;
use miniboosts::prelude::*;
use miniboosts::{DecisionTreeClassifier, RegressionTreeRegressor};

#[derive(Clone, Debug)]
pub struct N {
    branch: bool,
    f: String,
    thr: f64,
    ans: f64,
}

// ------------------------------------------------------------ the dot language

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Id(String),
    P(char),
    Edge,
}

fn tokens(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        match c[i] {
            ch if ch.is_whitespace() => i += 1,
            '"' => {
                let mut v = String::new();
                i += 1;
                loop {
                    match c.get(i) {
                        None => return Err("unterminated string".into()),
                        Some('"') => break,
                        Some('\\') if matches!(c.get(i + 1), Some('"') | Some('\\')) => {
                            v.push(c[i + 1]);
                            i += 2;
                        }
                        Some(ch) => {
                            v.push(*ch);
                            i += 1;
                        }
                    }
                }
                i += 1;
                out.push(Tok::Id(v));
            }
            '-' if c.get(i + 1) == Some(&'-') => {
                out.push(Tok::Edge);
                i += 2;
            }
            ch if "[]{}=,;".contains(ch) => {
                out.push(Tok::P(ch));
                i += 1;
            }
            ch if ch.is_alphanumeric() || "_.".contains(ch) => {
                let mut v = String::new();
                while i < c.len() && (c[i].is_alphanumeric() || "_.".contains(c[i])) {
                    v.push(c[i]);
                    i += 1;
                }
                out.push(Tok::Id(v));
            }
            ch => return Err(format!("character {ch}")),
        }
    }
    Ok(out)
}

/// nodes with attributes, edges with attributes
type Attrs = Vec<(String, String)>;
type Graph = (Vec<(String, Attrs)>, Vec<(String, String, Attrs)>);
fn graph(s: &str) -> Result<Graph, String> {
    let t = tokens(s)?;
    let mut i = 0;
    let id = |i: &mut usize| -> Result<String, String> {
        match t.get(*i) {
            Some(Tok::Id(v)) => {
                *i += 1;
                Ok(v.clone())
            }
            x => Err(format!("a name expected, not {x:?}")),
        }
    };
    let is = |i: usize, c: char| t.get(i) == Some(&Tok::P(c));
    if id(&mut i)? != "graph" {
        return Err("not a graph".into());
    }
    if !is(i, '{') {
        id(&mut i)?;
    }
    if !is(i, '{') {
        return Err("no body".into());
    }
    i += 1;
    let (mut nodes, mut edges) = (vec![], vec![]);
    while !is(i, '}') {
        let a = id(&mut i)?;
        let mut b = None;
        if t.get(i) == Some(&Tok::Edge) {
            i += 1;
            b = Some(id(&mut i)?);
        }
        let mut attrs = vec![];
        if is(i, '[') {
            i += 1;
            while !is(i, ']') {
                let k = id(&mut i)?;
                if !is(i, '=') {
                    return Err("= expected".into());
                }
                i += 1;
                attrs.push((k, id(&mut i)?));
                if is(i, ',') || is(i, ';') {
                    i += 1;
                }
            }
            i += 1;
        }
        if is(i, ';') {
            i += 1;
        }
        match b {
            None => nodes.push((a, attrs)),
            Some(b) => edges.push((a, b, attrs)),
        }
    }
    if i + 1 != t.len() {
        return Err("text after the graph".into());
    }
    Ok((nodes, edges))
}

fn drawing(text: &str) -> Value {
    let bad = |m: String| json!({"e":"drawing","error":short(&m),"nodes":[],"edges":[]});
    let (nodes, edges) = match graph(text) {
        Ok(g) => g,
        Err(m) => return bad(m),
    };
    let get = |a: &Attrs, k: &str| a.iter().find(|p| p.0 == k).map(|p| p.1.clone()).unwrap_or_default();
    let mut ns = vec![];
    for (id, a) in &nodes {
        let label = get(a, "label");
        let leaf = get(a, "shape") == "box";
        let (feat, number) = if leaf {
            (String::new(), label)
        } else {
            match label.strip_suffix(" ?").and_then(|q| q.rfind(" < ").map(|k| (q[..k].to_string(), q[k + 3..].to_string()))) {
                Some(v) => v,
                None => return bad(format!("question {label}")),
            }
        };
        match number.trim().parse::<f64>() {
            Ok(v) => ns.push(json!({"id":id,"leaf":leaf,"feat":feat,"num":num(v)})),
            Err(_) => return bad(format!("number {number}")),
        }
    }
    let es: Vec<Value> = edges.iter().map(|(a, b, at)| json!({"a":a,"b":b,"label":get(at, "label")})).collect();
    json!({"e":"drawing","error":"","nodes":ns,"edges":es})
}

// ------------------------------------------------------------ trees

fn value(nodes: &[N], k: &mut usize, leaf: &str) -> Value {
    let n = nodes[*k].clone();
    *k += 1;
    if n.branch {
        let left = value(nodes, k, leaf);
        let right = value(nodes, k, leaf);
        json!({"Branch":{"rule":{"feature":n.f,"threshold":n.thr},"left":left,"right":right}})
    } else {
        json!({"Leaf":{leaf:n.ans}})
    }
}

fn preorder(v: &Value, out: &mut Vec<N>) {
    if let Some(b) = v.get("Branch") {
        out.push(N { branch: true, f: b["rule"]["feature"].as_str().unwrap().into(), thr: b["rule"]["threshold"].as_f64().unwrap(), ans: 0.0 });
        preorder(&b["left"], out);
        preorder(&b["right"], out);
    } else {
        let l = &v["Leaf"];
        let a = if l["confidence"].is_null() { &l["prediction"] } else { &l["confidence"] };
        out.push(N { branch: false, f: "".into(), thr: 0.0, ans: a.as_f64().unwrap_or(f64::NAN) });
    }
}

enum T {
    D(DecisionTreeClassifier),
    R(RegressionTreeRegressor),
}

fn draw(tree: T, ev: &mut Vec<Value>) {
    let dir = std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH");
    let path = std::path::Path::new(&dir).join("tree.dot");
    // a longer file is overwritten
    std::fs::write(&path, "x".repeat(5000)).unwrap();
    let r = guard(|| match &tree {
        T::D(h) => h.to_dot_file(&path).map_err(|e| e.to_string()),
        T::R(h) => h.to_dot_file(&path).map_err(|e| e.to_string()),
    });
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    std::fs::remove_file(&path).ok();
    match r {
        Ok(Ok(())) => ev.push(drawing(&text)),
        Ok(Err(m)) | Err(m) => {
            ev.push(json!({"e":"panic","at":"to_dot_file","msg":short(&m)}));
            return;
        }
    }
    let mut nodes = vec![];
    let v = match &tree {
        T::D(h) => serde_json::to_value(h).unwrap(),
        T::R(h) => serde_json::to_value(h).unwrap(),
    };
    preorder(&v["root"], &mut nodes);
    for n in nodes {
        ev.push(json!({"e":"node","kind":if n.branch { "B" } else { "L" },"f":n.f,"thr":num(n.thr),"ans":num(n.ans)}));
    }
    ev.push(json!({"e":"end"}));
}

fn given(nodes: &[N], regression: bool) -> T {
    let leaf = if regression { "prediction" } else { "confidence" };
    let v = json!({"root": value(nodes, &mut 0, leaf)});
    if regression {
        T::R(serde_json::from_value(v).unwrap())
    } else {
        T::D(serde_json::from_value(v).unwrap())
    }
}

fn random(rng: &mut StdRng, depth: usize, style: usize, out: &mut Vec<N>) {
    let number = |rng: &mut StdRng| -> f64 {
        match style {
            0 => rng.gen_range(-3..=3) as f64 / 2.0,
            1 => rng.gen_range(-1.0..1.0),
            2 => 1e6 * rng.gen_range(-1.0..1.0),
            _ => 1e-3 * rng.gen_range(-20.0..20.0),
        }
    };
    let pool = ["x", "Feat. [1]", "a b", "a < b", "é", "x;y", "[z]", "--", "0", "Yes", "he said \"q\"", "c:\\d", "label = \"1\"", "node_1"];
    if depth > 0 && rng.gen_range(0..5) > 0 {
        out.push(N { branch: true, f: pool[rng.gen_range(0..pool.len())].into(), thr: number(rng), ans: 0.0 });
        random(rng, depth - 1, style, out);
        random(rng, depth - 1, style, out);
    } else {
        out.push(N { branch: false, f: "".into(), thr: 0.0, ans: number(rng) });
    }
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0xd07);
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let j: Value = serde_json::from_str(line).unwrap();
            let p = |v: &Value| crate::exp::parse_num(v.as_str().unwrap());
            let nodes: Vec<N> = j.as_array().unwrap().iter()
                .map(|n| N { branch: n["kind"] == "B", f: n["f"].as_str().unwrap().into(), thr: p(&n["thr"]), ans: p(&n["ans"]) })
                .collect();
            for (r, tag) in [(false, "d"), (true, "r")] {
                out.run(&format!("beh-{k}-{tag}"), || {
                    let mut ev = vec![];
                    draw(given(&nodes, r), &mut ev);
                    json!({"ev": ev})
                });
            }
        }
    }
    let n = if cfg.thorough { 2000 } else { 250 };
    for k in 0..n {
        let mut nodes = vec![];
        let style = rng.gen_range(0..4);
        random(&mut rng, 1 + k % 6, style, &mut nodes);
        out.run(&format!("rand-{k}"), || {
            let mut ev = vec![];
            draw(given(&nodes, k % 2 == 0), &mut ev);
            json!({"ev": ev})
        });
    }
    // learned trees
    for k in 0..n / 5 {
        let m = rng.gen_range(4..=30);
        let d = rng.gen_range(1..=4);
        let x: Vec<Vec<f64>> = (0..m).map(|_| (0..d).map(|_| rng.gen_range(-9.0..9.0)).collect()).collect();
        let y = labels(&mut rng, m);
        let depth = rng.gen_range(1..=5);
        out.run(&format!("grown-{k}"), || {
            let mut ev = vec![];
            let s = dense_sample(&x, &y);
            let t = guard(|| {
                if k % 2 == 0 {
                    T::D(DecisionTreeBuilder::new(&s).max_depth(depth).build().produce(&s, &vec![1.0 / m as f64; m]))
                } else {
                    T::R(RegressionTreeBuilder::new(&s).loss(GBMLoss::L2).max_depth(depth).build().produce(&s, &vec![0.0; m]))
                }
            });
            if let Ok(t) = t {
                draw(t, &mut ev);
            }
            json!({"ev": ev})
        });
    }
}
