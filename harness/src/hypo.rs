//! Trained hypotheses as values: copied, dropped, stored, loaded, and asked
//! about rows wherever they are.
use crate::common::*;
use crate::table::{frame_of, read_frame, read_svm, svm_of};
use miniboosts::prelude::*;
use miniboosts::{CrossValidation, NaiveAggregation, NNClassifier};
use polars::prelude::*;
use serde::de::DeserializeOwned;
use serde::Serialize;

struct Answer {
    ans: Vec<f64>,
    all: Vec<f64>,
    label: Vec<i64>,
    labels: Vec<i64>,
}
fn classify<H: Classifier>(h: &H, s: &Sample) -> Answer {
    let n = s.shape().0;
    // the rows from the last to the first
    let mut ans: Vec<f64> = (0..n).rev().map(|i| h.confidence(s, i)).collect();
    let mut label: Vec<i64> = (0..n).rev().map(|i| Classifier::predict(h, s, i)).collect();
    ans.reverse();
    label.reverse();
    Answer { ans, label, all: h.confidence_all(s), labels: Classifier::predict_all(h, s) }
}
fn regress<H: Regressor>(h: &H, s: &Sample) -> Answer {
    let mut ans: Vec<f64> = (0..s.shape().0).rev().map(|i| Regressor::predict(h, s, i)).collect();
    ans.reverse();
    Answer { ans, label: vec![], all: Regressor::predict_all(h, s), labels: vec![] }
}

trait Hyp {
    fn ask(&self, s: &Sample) -> Answer;
    /// a copy, and whether it equals this one
    fn copy(&self) -> Option<(Box<dyn Hyp>, bool)> {
        None
    }
    fn save(&self, _style: usize) -> Option<String> {
        None
    }
    fn load(&self, _text: &str) -> Option<(Box<dyn Hyp>, bool)> {
        None
    }
}
fn save<T: Serialize>(h: &T, style: usize) -> Option<String> {
    Some(match style % 3 {
        0 => serde_json::to_string(h).unwrap(),
        1 => serde_json::to_string_pretty(h).unwrap(),
        _ => serde_json::to_value(h).unwrap().to_string(),
    })
}
/// Hypotheses that can be compared, or an image of theirs.
trait Alike {
    fn alike(&self, o: &Self) -> bool;
}
macro_rules! alike {
    ($($t:ty),*) => { $(impl Alike for $t { fn alike(&self, o: &Self) -> bool { self == o } })* };
}
alike!(DecisionTreeClassifier, RegressionTreeRegressor, NNClassifier);
impl<P: PartialEq> Alike for miniboosts::NBayesClassifier<P> {
    fn alike(&self, o: &Self) -> bool {
        self == o
    }
}
impl<H: Alike> Alike for WeightedMajority<H> {
    fn alike(&self, o: &Self) -> bool {
        self.weights == o.weights && self.hypotheses.len() == o.hypotheses.len() && self.hypotheses.iter().zip(&o.hypotheses).all(|(a, b)| a.alike(b))
    }
}

struct C<T>(T);
impl<T: Classifier + Clone + Alike + Serialize + DeserializeOwned + 'static> Hyp for C<T> {
    fn ask(&self, s: &Sample) -> Answer {
        classify(&self.0, s)
    }
    fn copy(&self) -> Option<(Box<dyn Hyp>, bool)> {
        let c = self.0.clone();
        let same = c.alike(&self.0);
        Some((Box::new(C(c)), same))
    }
    fn save(&self, style: usize) -> Option<String> {
        save(&self.0, style)
    }
    fn load(&self, text: &str) -> Option<(Box<dyn Hyp>, bool)> {
        let h: T = serde_json::from_str(text).unwrap();
        let same = h.alike(&self.0);
        Some((Box::new(C(h)), same))
    }
}
struct V<T>(T);
impl<T: Regressor + Clone + Alike + Serialize + DeserializeOwned + 'static> Hyp for V<T> {
    fn ask(&self, s: &Sample) -> Answer {
        regress(&self.0, s)
    }
    fn copy(&self) -> Option<(Box<dyn Hyp>, bool)> {
        let c = self.0.clone();
        let same = c.alike(&self.0);
        Some((Box::new(V(c)), same))
    }
    fn save(&self, style: usize) -> Option<String> {
        save(&self.0, style)
    }
    fn load(&self, text: &str) -> Option<(Box<dyn Hyp>, bool)> {
        let h: T = serde_json::from_str(text).unwrap();
        let same = h.alike(&self.0);
        Some((Box::new(V(h)), same))
    }
}
/// can be copied, but not stored
struct N<T>(T);
impl<T: Classifier + Clone + Alike + 'static> Hyp for N<T> {
    fn ask(&self, s: &Sample) -> Answer {
        classify(&self.0, s)
    }
    fn copy(&self) -> Option<(Box<dyn Hyp>, bool)> {
        let c = self.0.clone();
        let same = c.alike(&self.0);
        Some((Box::new(N(c)), same))
    }
}
/// can only be asked
struct A<T>(T);
impl<T: Classifier> Hyp for A<T> {
    fn ask(&self, s: &Sample) -> Answer {
        classify(&self.0, s)
    }
}

const KINDS: [&str; 10] = ["tree", "bayes", "regression", "network", "adaboost", "lpboost", "smoothboost", "graphsep", "gbm", "nested"];
/// those that look cells up by the name of their column
fn named(kind: &str) -> bool {
    !matches!(kind, "bayes" | "network")
}

fn train(kind: &str, f: usize, s: &Sample, p: &[f64], depth: usize) -> Box<dyn Hyp> {
    let crit = [Criterion::Entropy, Criterion::Gini, Criterion::Twoing, Criterion::Edge][(depth + f) % 4];
    let tree = |d: usize, c: Criterion| DecisionTreeBuilder::new(s).max_depth(d).criterion(c).build();
    let m = s.shape().0;
    let net = || {
        let nn = NeuralNetwork::init(s).append(3, Activation::Sigmoid(1.0)).append(2, Activation::SoftMax(1.0)).n_epoch(1).n_iter(3);
        nn.produce(s, p)
    };
    match kind {
        "tree" => Box::new(C(tree(depth, crit).produce(s, p))),
        "bayes" => Box::new(C(GaussianNB::init().produce(s, p))),
        "regression" => Box::new(V(RegressionTreeBuilder::new(s).loss(GBMLoss::L2).max_depth(depth + 1).build().produce(s, p))),
        "network" => Box::new(N(net())),
        "adaboost" => Box::new(C(AdaBoost::init(s).tolerance(0.2).force_quit_at(3 + f).run(&tree(depth, crit)))),
        "lpboost" => Box::new(C(LPBoost::init(s).tolerance(0.1).nu(1.0 + (m / 4) as f64).run(&tree(1, Criterion::Edge)))),
        "smoothboost" => Box::new(C(SmoothBoost::init(s).gamma(0.25).tolerance(0.45).run(&tree(depth, crit)))),
        "graphsep" => {
            let f: NaiveAggregation<DecisionTreeClassifier> = GraphSepBoost::init(s).run(&tree(depth, crit));
            Box::new(A(f))
        }
        "gbm" => {
            let wl = RegressionTreeBuilder::new(s).loss(GBMLoss::L2).max_depth(depth).build();
            Box::new(V(GBM::init_with_loss(s, GBMLoss::L2).tolerance(0.1).run(&wl)))
        }
        "nested" => {
            let a = AdaBoost::init(s).tolerance(0.3).force_quit_at(2).run(&tree(1, crit));
            let b = MadaBoost::init(s).tolerance(0.3).force_quit_at(3).run(&tree(depth, Criterion::Edge));
            Box::new(C(WeightedMajority::from_slices(&[p[0] + 0.1, -0.4], &[a, b])))
        }
        k => panic!("kind {k}"),
    }
}

/// A sample made of rows of the table.
#[derive(Clone)]
struct View {
    rows: Vec<usize>,
    /// "frame", "svm", "csv" or "fold" (a test part of a cross validation)
    store: &'static str,
    /// the order of the columns
    order: Vec<usize>,
    /// further columns: where, and their values
    extra: Vec<(usize, f64)>,
}
struct Case {
    kind: &'static str,
    /// all rows; the first m are trained on
    x: Vec<Vec<f64>>,
    y: [Vec<f64>; 2],
    p: [Vec<f64>; 2],
    m: usize,
    depth: usize,
    sparse: bool,
    names: [&'static str; 6],
    views: Vec<View>,
    ops: Vec<(String, usize, usize)>,
}

/// Names of columns, some of which begin with another's.
const NAMES: [[&str; 6]; 3] = [
    ["Feat. [1]", "Feat. [2]", "Feat. [3]", "Feat. [4]", "Feat. [5]", "Feat. [6]"],
    ["x1", "x10", "x", "x100", "X1", "1"],
    ["long name (m)", "name", "long", "a", "long name", "Long Name"],
];
fn build(c: &Case, v: &View, k: usize) -> Sample {
    let name = |j: usize| c.names[j].to_string();
    let d = c.x[0].len();
    let rows: Vec<&Vec<f64>> = v.rows.iter().map(|r| &c.x[*r]).collect();
    let y: Vec<f64> = (0..rows.len()).map(|i| if (i + k) % 3 == 0 { -1.0 } else { 1.0 }).collect();
    match v.store {
        "svm" => {
            let x: Vec<Vec<f64>> = rows.iter().map(|r| {
                let mut r = (*r).clone();
                r.extend(v.extra.iter().map(|e| e.1));
                r
            }).collect();
            let mut n = k;
            let mut s = read_svm(&svm_of(&x, &y, &mut || {
                n += 1;
                n % 4 == 0
            }));
            s.replace_names(&c.names[..x[0].len()]);
            s
        }
        _ => {
            let mut cols: Vec<(String, Vec<f64>)> = v.order.iter().map(|j| (name(*j), rows.iter().map(|r| r[*j]).collect())).collect();
            for (q, (at, e)) in v.extra.iter().enumerate() {
                cols.insert((*at).min(cols.len()), (name(d + q), (0..rows.len()).map(|i| e + i as f64).collect()));
            }
            if v.store == "csv" {
                cols.insert(k % (cols.len() + 1), ("label".into(), y.clone()));
                let mut text = cols.iter().map(|c| c.0.clone()).collect::<Vec<_>>().join(",") + "\n";
                for i in 0..rows.len() {
                    text += &(cols.iter().map(|c| format!("{:?}", c.1[i])).collect::<Vec<_>>().join(",") + "\n");
                }
                let p = crate::table::scratch("csv");
                std::fs::write(&p, text).unwrap();
                let s = SampleReader::default().file(p.clone()).has_header(true).target_feature("label").read().unwrap();
                std::fs::remove_file(&p).ok();
                return s;
            }
            if v.store == "fold" {
                // the rows asked for are the first test fold, with as many others before and behind
                let n = rows.len();
                cols.iter_mut().for_each(|c| {
                    let more = c.1.clone();
                    c.1.extend(more.iter().map(|v| v * 2.0 + 1.0));
                });
                let mut y2 = y.clone();
                y2.extend(y.iter());
                let df = DataFrame::new(cols.iter().map(|c| Series::new(&c.0, c.1.clone())).collect()).unwrap();
                let whole = Sample::from_dataframe(df, Series::new("y", y2)).unwrap();
                let (_, test) = CrossValidation::new(&whole).train_ratio(0.5).n_folds(2).next().unwrap();
                assert_eq!(test.shape().0, n);
                return test;
            }
            let df = DataFrame::new(cols.iter().map(|c| Series::new(&c.0, c.1.clone())).collect()).unwrap();
            Sample::from_dataframe(df, Series::new("y", y)).unwrap()
        }
    }
}

fn play(c: &Case) -> Value {
    let mut ev: Vec<Value> = vec![];
    let x: Vec<Vec<f64>> = c.x[..c.m].to_vec();
    let r = guard(|| {
        let s: Vec<Sample> = c.y.iter().map(|y| {
            let mut s = if c.sparse { read_svm(&svm_of(&x, y, &mut || false)) } else { read_frame(&frame_of(&x, y)) };
            s.replace_names(&c.names[..x[0].len()]);
            s
        }).collect();
        let v: Vec<Sample> = c.views.iter().enumerate().map(|(k, v)| build(c, v, k)).collect();
        (s, v)
    });
    let (train_on, views) = match r {
        Ok(v) => v,
        Err(m) => return json!({"ev":[{"e":"panic","at":"read","msg":short(&m)}]}),
    };
    let mut held: Vec<Option<Box<dyn Hyp>>> = vec![];
    // what was trained, kept aside to compare loaded hypotheses with
    let mut first: Vec<(usize, Box<dyn Hyp>)> = vec![];
    let mut fns: Vec<usize> = vec![];
    let mut docs: Vec<(usize, String)> = vec![];
    for (n, (o, a, b)) in c.ops.iter().enumerate() {
        let h = a.wrapping_sub(1);
        let r = guard(|| match o.as_str() {
            "train" => {
                let h = train(c.kind, *a, &train_on[a - 1], &c.p[a - 1], c.depth);
                if let Some((k, _)) = h.copy() {
                    first.push((*a, k));
                }
                held.push(Some(h));
                fns.push(*a);
                Some(json!({"e":"train","f":a}))
            }
            "drop" => {
                held[h] = None;
                Some(json!({"e":"drop","h":a}))
            }
            "copy" => held[h].as_ref().unwrap().copy().map(|(k, same)| {
                held.push(Some(k));
                fns.push(fns[h]);
                json!({"e":"copy","h":a,"same":same})
            }),
            "save" => held[h].as_ref().unwrap().save(n).map(|t| {
                let v: Value = serde_json::from_str(&t).unwrap();
                docs.push((fns[h], t));
                json!({"e":"save","h":a,"text":short(&v.to_string().chars().rev().collect::<String>()), "len": v.to_string().len()})
            }),
            "load" => {
                let (f, t) = &docs[h];
                let proto = &first.iter().find(|k| k.0 == *f).unwrap().1;
                proto.load(t).map(|(k, same)| {
                    held.push(Some(k));
                    fns.push(*f);
                    json!({"e":"load","d":a,"same":same})
                })
            }
            _ => {
                let q = held[h].as_ref().unwrap().ask(&views[b - 1]);
                let cells: Vec<Vec<f64>> = c.views[b - 1].rows.iter().map(|r| c.x[*r].clone()).collect();
                Some(json!({"e":"ask","h":a,"v":b,"rows":mat(&cells),"ans":nums(&q.ans),"all":nums(&q.all),"label":q.label,"labels":q.labels}))
            }
        });
        match r {
            Ok(Some(e)) => ev.push(e),
            // not something this kind can do: the history goes without it
            Ok(None) => return json!({"ev": ev}),
            Err(m) => {
                ev.push(json!({"e":"panic","at":o,"msg":short(&m)}));
                break;
            }
        }
    }
    json!({"ev": ev})
}

fn simplex(rng: &mut StdRng, m: usize) -> Vec<f64> {
    let mut p: Vec<f64> = (0..m).map(|_| rng.gen_range(0.05..1.0)).collect();
    let z: f64 = p.iter().sum();
    p.iter_mut().for_each(|v| *v /= z);
    p
}

fn case(rng: &mut StdRng, kind: &'static str, lens: Option<&[Vec<usize>]>, ops: Vec<(String, usize, usize)>) -> Case {
    let m = rng.gen_range(5..=12);
    let q = rng.gen_range(2..=5);
    let d = rng.gen_range(1..=4);
    let grid = rng.gen_range(0..3) == 0;
    let zeros = rng.gen_range(0..3) == 0;
    let x: Vec<Vec<f64>> = (0..m + q)
        .map(|_| (0..d).map(|_| if grid { rng.gen_range(-1..=2) as f64 } else if zeros && rng.gen_range(0..3) == 0 { 0.0 } else { rng.gen_range(-5.0..5.0) }).collect())
        .collect();
    let y = [labels(rng, m), labels(rng, m)];
    let even = kind != "bayes" && rng.gen_range(0..3) == 0;
    let p = if even { [vec![1.0 / m as f64; m], vec![1.0 / m as f64; m]] } else { [simplex(rng, m), simplex(rng, m)] };
    let n = m + q;
    let mut views = vec![];
    for v in 0..lens.map(|l| l.len()).unwrap_or(4) {
        let rows: Vec<usize> = match lens {
            // the rows named by the specification; a and b are two different rows
            Some(l) => {
                let ab = [m / 2, m, m / 2];
                l[v].iter().map(|r| ab[*r - 1]).collect()
            }
            None => (0..rng.gen_range(1..=n)).map(|_| rng.gen_range(0..n)).collect(),
        };
        let store = ["frame", "svm", "csv", "fold"][rng.gen_range(0..4)];
        let mut order: Vec<usize> = (0..d).collect();
        let mut extra = vec![];
        if named(kind) {
            order.shuffle(rng);
            extra = (0..rng.gen_range(0..3)).map(|_| (rng.gen_range(0..4), rng.gen_range(-9.0..9.0))).collect();
        }
        views.push(View { rows, store, order, extra });
    }
    let names = NAMES[rng.gen_range(0..3)];
    Case { kind, names, x, y, p, m, depth: rng.gen_range(1..=3), sparse: rng.gen_range(0..3) == 0, views, ops }
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(cfg.seed ^ 0x4801);
    let specviews = [vec![1, 2], vec![2, 3, 1], vec![3]];
    if let Some(f) = &cfg.behaviours {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let v: Value = serde_json::from_str(&line.replace("<<", "[").replace(">>", "]")).expect("behaviour");
            let ops = v.as_array().unwrap().iter().map(|o| {
                (o[0].as_str().unwrap().to_string(), o[1].as_u64().unwrap() as usize, o[2].as_u64().unwrap() as usize)
            }).collect();
            let c = case(&mut rng, KINDS[k % KINDS.len()], Some(&specviews), ops);
            out.run(&format!("beh-{k}-{}", c.kind), || play(&c));
        }
    }
    let n = if cfg.thorough { 3000 } else { 330 };
    for k in 0..n {
        let kind = KINDS[k % KINDS.len()];
        let can_copy = kind != "graphsep";
        let can_save = can_copy && kind != "network";
        let mut ops: Vec<(String, usize, usize)> = vec![("train".into(), 1, 0)];
        let mut live = vec![1usize];
        let (mut handles, mut docs, mut two) = (1, 0, false);
        for _ in 0..rng.gen_range(3..14) {
            let h = *live.choose(&mut rng).unwrap_or(&0);
            match rng.gen_range(0..9) {
                0 if !two => {
                    two = true;
                    handles += 1;
                    live.push(handles);
                    ops.push(("train".into(), 2, 0));
                }
                1 if can_copy && h > 0 => {
                    handles += 1;
                    live.push(handles);
                    ops.push(("copy".into(), h, 0));
                }
                2 if live.len() > 1 || docs > 0 => {
                    if h > 0 {
                        live.retain(|l| *l != h);
                        ops.push(("drop".into(), h, 0));
                    }
                }
                3 if can_save && h > 0 => {
                    docs += 1;
                    ops.push(("save".into(), h, 0));
                }
                4 if docs > 0 => {
                    handles += 1;
                    live.push(handles);
                    ops.push(("load".into(), rng.gen_range(1..=docs), 0));
                }
                _ if h > 0 => ops.push(("ask".into(), h, rng.gen_range(1..=4))),
                _ => {}
            }
        }
        for h in live.clone() {
            ops.push(("ask".into(), h, rng.gen_range(1..=4)));
        }
        let c = case(&mut rng, kind, None, ops);
        out.run(&format!("rand-{k}-{kind}"), || play(&c));
    }
}
