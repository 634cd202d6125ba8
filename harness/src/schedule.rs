//! The same questions asked again and again, on pools of different sizes,
//! several at once: the answers are recorded.
use crate::common::*;
use miniboosts::prelude::*;
use miniboosts::research::ObjectiveFunction;
use miniboosts::{CrossValidation, ExponentialLoss, HardMarginObjective, NaiveAggregation, SoftMarginObjective, TotalBoost};
use std::sync::Arc;

const KINDS: [&str; 24] = [
    "tree", "rtree", "bayes", "twice", "ada", "adav", "mada", "smooth", "total", "lp", "erlp", "soft", "cerlp", "mlp",
    "gbm", "gs", "stats", "csv", "svm", "cv", "nn", "vote", "values", "adabayes",
];
#[derive(Clone)]
struct Q {
    kind: &'static str,
    s: Arc<Sample>,
    v: Arc<WeightedMajority<DecisionTreeClassifier>>,
    x: Vec<Vec<f64>>,
    y: Vec<f64>,
    w: Vec<f64>,
    crit: usize,
    depth: usize,
    seed: u64,
}

fn criterion(k: usize) -> Criterion {
    [Criterion::Entropy, Criterion::Gini, Criterion::Edge, Criterion::Twoing][k % 4]
}
fn pairs(xs: &[(f64, f64)]) -> String {
    format!("{xs:?}")
}
fn examples(s: &Sample) -> String {
    (0..s.shape().0).map(|i| format!("{:?};", s.at(i))).collect()
}
/// scratch files are named by question and asker
fn file(q: &Q, tag: &str, text: &str) -> std::path::PathBuf {
    let p = std::env::temp_dir().join(format!("vsched-{}-{}-{tag}", std::process::id(), q.seed));
    std::fs::write(&p, text).unwrap();
    p
}
fn read<R: FnOnce(&std::path::Path) -> std::io::Result<Sample>>(q: &Q, tag: &str, text: &str, f: R) -> String {
    let p = file(q, tag, text);
    let r = guard(|| f(&p));
    std::fs::remove_file(&p).ok();
    match r {
        Ok(Ok(s)) => format!("{:?} {}", s.features().iter().map(|f| f.name().to_string()).collect::<Vec<_>>(), examples(&s)),
        _ => "no sample".into(),
    }
}

fn answer(q: &Q, tag: &str) -> String {
    let s = &*q.s;
    let tree = || DecisionTreeBuilder::new(s).max_depth(q.depth).criterion(criterion(q.crit)).build();
    let regr = || RegressionTreeBuilder::new(s).loss(if q.crit % 2 == 0 { GBMLoss::L2 } else { GBMLoss::L1 }).max_depth(q.depth).build();
    macro_rules! js {
        ($e:expr) => {
            serde_json::to_string(&$e).unwrap()
        };
    }
    let nu = 1.0 + (q.y.len() / 4) as f64;
    match q.kind {
        "tree" => js!(tree().produce(s, &q.w)),
        "rtree" => js!(regr().produce(s, &q.w)),
        "bayes" => {
            let h = GaussianNB::init().produce(s, &q.w);
            format!("{} {:?} {:?}", js!(h), h.confidence_all(s), h.predict_all(s))
        }
        "twice" => {
            let l = tree();
            let u = vec![1.0 / q.y.len() as f64; q.y.len()];
            format!("{} {} {}", js!(l.produce(s, &q.w)), js!(l.produce(s, &u)), js!(l.produce(s, &q.w)))
        }
        "ada" => js!(AdaBoost::init(s).tolerance(0.2).force_quit_at(8).run(&tree())),
        "adav" => js!(AdaBoostV::init(s).tolerance(0.2).force_quit_at(8).run(&tree())),
        "mada" => js!(MadaBoost::init(s).tolerance(0.2).force_quit_at(8).run(&tree())),
        "adabayes" => js!(AdaBoost::init(s).tolerance(0.2).force_quit_at(5).run(&GaussianNB::init())),
        "smooth" => js!(SmoothBoost::init(s).gamma(0.25).tolerance(0.45).run(&tree())),
        "total" => js!(TotalBoost::init(s).tolerance(0.2).run(&tree())),
        "lp" => js!(LPBoost::init(s).tolerance(0.1).nu(nu).run(&tree())),
        "erlp" => js!(ERLPBoost::init(s).tolerance(0.2).nu(nu).run(&tree())),
        "soft" => js!(SoftBoost::init(s).tolerance(0.2).nu(nu).run(&tree())),
        "cerlp" => js!(CERLPBoost::init(s).tolerance(0.2).nu(nu).run(&tree())),
        "mlp" => js!(MLPBoost::init(s).tolerance(0.2).nu(nu).run(&tree())),
        "gbm" => js!(GBM::init_with_loss(s, GBMLoss::L2).tolerance(0.1).run(&regr())),
        "gs" => {
            let f: NaiveAggregation<DecisionTreeClassifier> = GraphSepBoost::init(s).run(&tree());
            format!("{:?}", f.confidence_all(s))
        }
        "stats" => format!(
            "{} {:?} {:?} {} {:?}",
            pairs(&s.weighted_mean_and_variance(&q.w)),
            s.weighted_mean(&q.w),
            s.weighted_mean_for_label(1.0, &q.w),
            pairs(&s.weighted_mean_and_variance_for_label(-1.0, &q.w)),
            s.unique_target()
        ),
        "csv" => {
            let d = q.x[0].len();
            let mut t = (0..d).map(|j| format!("c{j},")).collect::<String>() + "y\n";
            for (r, y) in q.x.iter().zip(&q.y) {
                t += &r.iter().map(|v| format!("{v:?},")).collect::<String>();
                t += &format!("{y:?}\n");
            }
            read(q, &format!("{tag}.csv"), &t, |p| SampleReader::default().file(p.to_path_buf()).has_header(true).target_feature("y").read())
        }
        "svm" => {
            let mut t = String::new();
            for (r, y) in q.x.iter().zip(&q.y) {
                t += &format!("{y:?}");
                for (j, v) in r.iter().enumerate().filter(|(_, v)| **v != 0.0) {
                    t += &format!(" {}:{v:?}", j + 1);
                }
                t += "\n";
            }
            read(q, &format!("{tag}.svm"), &t, |p| SampleReader::<_, &str>::default().file(p.to_path_buf()).read())
        }
        "cv" => {
            let c = CrossValidation::new(s).n_folds(2 + q.depth).seed(q.seed).verbose(false).shuffle();
            c.map(|(a, b)| format!("{} | {} / ", examples(&a), examples(&b))).collect()
        }
        #[cfg(not(feature = "net"))]
        "nn" => String::new(),
        #[cfg(feature = "net")]
        "nn" => {
            use miniboosts::{Activation, NNHypothesis, NNLoss};
            let mut rng = StdRng::seed_from_u64(q.seed);
            let mut layer = |i: usize, o: usize, a: Activation| {
                let m: Vec<Vec<f64>> = (0..o).map(|_| (0..i).map(|_| rng.gen_range(-1.0..1.0)).collect()).collect();
                (m, (0..o).map(|_| rng.gen_range(-1.0..1.0)).collect::<Vec<f64>>(), a)
            };
            let d = q.x[0].len();
            let net = vec![layer(d, 6, Activation::Sigmoid(1.0)), layer(6, 3, Activation::ReLu(1.0)), layer(3, 1, Activation::Id)];
            let mut h = NNHypothesis::verif_new(net);
            let ix: Vec<usize> = (0..q.y.len()).collect();
            for part in ix.chunks(5) {
                h.verif_train(0.1, NNLoss::L2, s, part);
            }
            let z: Vec<Vec<f64>> = q.x.iter().map(|r| h.verif_eval(r.clone())).collect();
            format!("{:?} {z:?}", h.verif_layers())
        }
        "vote" => format!("{:?} {:?}", q.v.confidence_all(s), q.v.predict_all(s)),
        "values" => format!(
            "{:?} {:?} {:?}",
            SoftMarginObjective::new(nu).eval(s, &*q.v),
            HardMarginObjective::new().eval(s, &*q.v),
            ExponentialLoss::new().eval(s, &*q.v)
        ),
        k => panic!("unknown kind {k}"),
    }
}

/// A text without its numbers, and the numbers.
fn parts(t: &str) -> Value {
    let (mut s, mut x) = (String::new(), vec![]);
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let word = i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_');
        let j0 = if c[i] == '-' { i + 1 } else { i };
        if !word && j0 < c.len() && c[j0].is_ascii_digit() {
            let mut j = j0;
            while j < c.len() && (c[j].is_ascii_digit() || c[j] == '.' || c[j] == 'e' || (c[j] == '-' && c[j - 1] == 'e')) {
                j += 1;
            }
            let n: String = c[i..j].iter().collect();
            x.push(match n.parse::<f64>() {
                Ok(v) => num(if v == 0.0 { 0.0 } else { v }),
                Err(_) => json!(n),
            });
            s.push('#');
            i = j;
        } else {
            s.push(if c[i] == '"' { '\'' } else { c[i] });
            i += 1;
        }
    }
    json!({"s":s,"x":x})
}

fn question(rng: &mut StdRng, kind: &'static str, like: Option<&Q>) -> Q {
    let cells = |rng: &mut StdRng, m: usize, d: usize, ties: usize| -> Vec<Vec<f64>> {
        (0..m).map(|_| (0..d).map(|_| match ties {
            0 => rng.gen_range(0..4) as f64,
            1 => rng.gen_range(0..3) as f64 / 10.0,
            _ => rng.gen(),
        }).collect()).collect()
    };
    let weights = |rng: &mut StdRng, m: usize| -> Vec<f64> {
        let even = rng.gen::<bool>();
        let mut w: Vec<f64> = (0..m).map(|_| if even { 1.0 } else { rng.gen() }).collect();
        let t: f64 = w.iter().sum();
        w.iter_mut().for_each(|v| *v /= t);
        w
    };
    let vote = |s: &Sample, seed: u64| {
        let t = DecisionTreeBuilder::new(s).max_depth(1 + seed as usize % 2).criterion(criterion(seed as usize)).build();
        Arc::new(AdaBoost::init(s).tolerance(0.2).force_quit_at(4).run(&t))
    };
    if let Some(q) = like {
        // nearly the same question
        let mut q = q.clone();
        let m = q.y.len();
        match rng.gen_range(0..5) {
            0 => q.w = weights(rng, m),
            1 => q.crit += 1,
            2 => q.depth = q.depth % 4 + 1,
            3 => {
                q.x = cells(rng, m, q.x[0].len(), 2);
                q.s = Arc::new(dense_sample(&q.x, &q.y));
                q.v = vote(&q.s, q.seed);
            }
            _ => {
                q.y = labels(rng, m);
                q.s = Arc::new(dense_sample(&q.x, &q.y));
                q.v = vote(&q.s, q.seed);
            }
        }
        q.seed = rng.gen_range(0..1_000_000_000);
        return q;
    }
    let m = rng.gen_range(4..36);
    let d = rng.gen_range(2..7);
    let ties = rng.gen_range(0..4);
    let x = cells(rng, m, d, ties);
    let y = labels(rng, m);
    let s = Arc::new(dense_sample(&x, &y));
    let seed = rng.gen_range(0..1_000_000_000);
    let w = weights(rng, m);
    let v = vote(&s, seed);
    Q { kind, s, v, x, y, w, crit: rng.gen_range(0..4), depth: [2, 3, 2, 4, 1][rng.gen_range(0..5)], seed }
}

/// Begins and finishes questions as told: (begin?, asker, question).
fn play(qs: &[Q], ops: &[(bool, usize, usize)], pools: &[Arc<rayon::ThreadPool>]) -> Value {
    let mut ev = vec![];
    let mut jobs: Vec<Option<std::thread::JoinHandle<String>>> = (0..8).map(|_| None).collect();
    for (begin, a, k) in ops {
        if *begin {
            let (q, p, tag) = (qs[*k - 1].clone(), pools[*a % pools.len()].clone(), a.to_string());
            jobs[*a] = Some(std::thread::spawn(move || p.install(|| guard(|| answer(&q, &tag)).unwrap_or_else(|_| "refused".into()))));
            ev.push(json!({"e":"begin","a":a,"q":k}));
        } else if let Some(j) = jobs[*a].take() {
            let t = j.join().unwrap_or_else(|_| "refused".into());
            ev.push(json!({"e":"finish","a":a,"threads":pools[*a % pools.len()].current_num_threads(),"ans":parts(&t)}));
        }
    }
    let qs: Vec<String> = qs.iter().map(|q| format!("{} m={} crit={} depth={}", q.kind, q.y.len(), q.crit % 4, q.depth)).collect();
    json!({"qs": qs, "ev": ev})
}

pub fn generate(cfg: &Cfg, out: &mut Out) {
    let pools: Vec<Arc<rayon::ThreadPool>> =
        [1, 3, 2, 8, 1, 4, 5, 6].iter().map(|n| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())).collect();
    if let Some(b) = &cfg.behaviours {
        let text = std::fs::read_to_string(b).unwrap();
        let all: Vec<Value> = text.lines().map(|l| serde_json::from_str(&l.replace("<<", "[").replace(">>", "]")).unwrap()).collect();
        for (k, b) in all.iter().enumerate() {
            let mut rng = StdRng::seed_from_u64(cfg.seed * 77_003 + k as u64);
            let id = format!("beh-{k}");
            if !out.wants(&id) {
                continue;
            }
            let one = question(&mut rng, KINDS[k % KINDS.len()], None);
            let other = question(&mut rng, KINDS[(k * 7 + 3) % KINDS.len()], if k % 3 == 0 { Some(&one) } else { None });
            let ops: Vec<(bool, usize, usize)> = b.as_array().unwrap().iter().map(|o| {
                let n = |i: usize| o[i].as_u64().unwrap() as usize;
                (o[0] == "begin", (n(1) + k) % 8, n(2))
            }).collect();
            out.run(&id, || play(&[one, other], &ops, &pools));
        }
    }
    let n = if cfg.thorough { 6000 } else { 480 };
    for k in 0..n {
        let mut rng = StdRng::seed_from_u64(cfg.seed * 1_000_003 + k as u64);
        let id = format!("rnd-{k}");
        if !out.wants(&id) {
            continue;
        }
        let mut qs = vec![question(&mut rng, KINDS[k % KINDS.len()], None)];
        let like = rng.gen_range(0..3) > 0;
        let first = qs[0].clone();
        qs.push(question(&mut rng, KINDS[(k * 5 + 1) % KINDS.len()], if like { Some(&first) } else { None }));
        // one alone on one thread, then many at once
        let mut ops = vec![(true, 0, 1), (false, 0, 0)];
        let mut busy = [false; 8];
        for _ in 0..rng.gen_range(8..20) {
            let a = rng.gen_range(0..8);
            if busy[a] { ops.push((false, a, 0)) } else { ops.push((true, a, 1 + (rng.gen_range(0..10) > 6) as usize)) }
            busy[a] = !busy[a];
        }
        (0..8).filter(|a| busy[*a]).for_each(|a| ops.push((false, a, 0)));
        out.run(&id, || play(&qs, &ops, &pools));
    }
}
