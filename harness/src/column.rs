//! Columns: built cell by cell, and as parts of a file, seen through every view.
use crate::common::*;
use miniboosts::prelude::*;
use miniboosts::Feature;

/// Everything a column tells of itself.
pub fn view(f: &Feature) -> Value {
    match f {
        Feature::Dense(d) => json!({"k":"dense","name":f.name(),"it":nums(&d.iter().copied().collect::<Vec<_>>()),
            "len":d.len(),"none":d.is_empty(),"flen":f.len(),"fnone":f.is_empty()}),
        Feature::Sparse(s) => json!({"k":"sparse","name":f.name(),"it":s.iter().map(|(i, x)| json!([i, num(*x)])).collect::<Vec<_>>(),
            "len":s.len(),"none":s.is_empty(),"flen":f.len(),"fnone":f.is_empty(),
            "hz":guard(|| s.has_zero()).unwrap_or(false),"zc":guard(|| s.zero_counts() as i64).unwrap_or(-1)}),
    }
}

fn look(f: &Feature, n: usize, zeros: bool) -> Value {
    json!({"e":"look","v":view(f),"ix":nums(&(0..n).map(|i| f[i]).collect::<Vec<_>>()),"zeros":zeros as i32})
}

/// A column of cells given by row, made by hand; looked at while it grows.
fn made(kind: &str, name: &str, cells: &[(usize, f64)], n: usize, often: bool) -> Vec<Value> {
    let mut ev = vec![json!({"e":"new","kind":kind,"name":name})];
    let r = guard(|| {
        let mut ev = vec![];
        let mut f = if kind == "dense" { Feature::new_dense(name) } else { Feature::new_sparse(name) };
        ev.push(look(&f, 0, false));
        for (a, (i, x)) in cells.iter().enumerate() {
            match &mut f {
                Feature::Dense(d) => d.append(*x),
                Feature::Sparse(s) => s.append((*i, *x)),
            }
            ev.push(json!({"e":"cell","i":i,"x":num(*x)}));
            if often || a % 5 == 4 {
                ev.push(look(&f, i + 1, false));
                f = f.clone();
            }
        }
        if kind == "sparse" {
            ev.push(json!({"e":"rows","n":n}));
        }
        ev.push(look(&f, n, false));
        ev
    });
    match r {
        Ok(mut v) => ev.append(&mut v),
        Err(m) => ev.push(json!({"e":"panic","msg":short(&m)})),
    }
    ev
}

/// The same cells as a column of a file with `n` rows.
fn filed(kind: &str, cells: &[(usize, f64)], n: usize, extra: bool) -> Vec<Value> {
    let name = if kind == "dense" { "c" } else { "Feat. [3]" };
    let mut ev = vec![json!({"e":"new","kind":kind,"name":name})];
    for (i, x) in cells {
        ev.push(json!({"e":"cell","i":i,"x":num(*x)}));
    }
    let r = guard(|| {
        let p = crate::table::scratch(if kind == "dense" { "csv" } else { "svm" });
        let y = |i: usize| if i % 2 == 0 { "1" } else { "-1" };
        let mut text = String::new();
        if kind == "dense" {
            text += "a,c,y\n";
            for (i, x) in cells {
                text += &format!("{},{x:?},{}\n", i * 3, y(*i));
            }
        } else {
            for i in 0..n {
                text += y(i);
                if extra {
                    text += &format!(" 0:{i}");
                }
                for (_, x) in cells.iter().filter(|c| c.0 == i) {
                    text += &format!(" 2:{x:?}");
                }
                if extra && i % 2 == 1 {
                    text += " 7:1.5";
                }
                text += "\n";
            }
        }
        std::fs::write(&p, text).unwrap();
        let s = if kind == "dense" {
            SampleReader::default().file(p.clone()).has_header(true).target_feature("y").read()
        } else {
            SampleReader::<_, &str>::default().file(p.clone()).read()
        };
        std::fs::remove_file(&p).ok();
        let s = s.unwrap();
        vec![json!({"e":"rows","n":n}), look(&s[name], n, true), look(s.features().iter().find(|f| f.name() == name).unwrap(), n, true)]
    });
    match r {
        Ok(mut v) => ev.append(&mut v),
        Err(m) => ev.push(json!({"e":"panic","msg":short(&m)})),
    }
    ev
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0xc01);
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let v: Value = serde_json::from_str(&line.replace("<<", "[").replace(">>", "]")).expect("behaviour");
            let kind = v["k"].as_str().unwrap();
            let x = |v: &Value| crate::exp::parse_num(v.as_str().unwrap());
            let cells: Vec<(usize, f64)> = v["it"].as_array().unwrap().iter().enumerate()
                .map(|(i, c)| if kind == "dense" { (i, x(c)) } else { (c[0].as_u64().unwrap() as usize, x(&c[1])) }).collect();
            let n = v["n"].as_u64().unwrap() as usize;
            out.run(&format!("beh-{k}"), || json!({"ev": made(kind, "x", &cells, n, true)}));
            if !cells.is_empty() {
                out.run(&format!("beh-{k}-file"), || json!({"ev": filed(kind, &cells, n, k % 2 == 0)}));
            }
        }
    }
    for k in 0..if cfg.thorough { 1200 } else { 240 } {
        let n = match k % 12 { 11 => rng.gen_range(257..=700), 5 => rng.gen_range(30..=80), _ => rng.gen_range(1..=12) };
        let kind = if k % 2 == 0 { "sparse" } else { "dense" };
        let dens = [0.1, 0.5, 0.95, 1.0][k / 2 % 4];
        let zero = [0.0, 0.3, 0.9, 1.0][k / 8 % 4];
        let cells: Vec<(usize, f64)> = (0..n)
            .filter_map(|i| {
                if kind == "sparse" && !rng.gen_bool(dens) {
                    return None;
                }
                let x = if rng.gen_bool(zero) { [0.0, -0.0][rng.gen_range(0..2)] }
                    else { [rng.gen_range(-2..3) as f64, rng.gen_range(-50.0..50.0), 1e-300, -1e-12, 3e200, f64::MIN_POSITIVE][rng.gen_range(0..6)] };
                Some((i, x))
            })
            .collect();
        let name = ["x", "", "a b", "Feat. [1]", "é\"q"][k % 5];
        if k % 3 != 2 && !cells.is_empty() {
            out.run(&format!("file-{k}"), || json!({"ev": filed(kind, &cells, n, k % 4 != 0)}));
        } else {
            out.run(&format!("made-{k}"), || json!({"ev": made(kind, name, &cells, n, n < 40)}));
        }
    }
}
