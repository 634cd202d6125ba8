SS = "sample/sample_struct.rs"
FS = "sample/feature_struct.rs"
CV = "research/cross_validation.rs"
DB = "weak_learner/decision_tree/bin.rs"
DC = "weak_learner/decision_tree/criterion.rs"
DA = "weak_learner/decision_tree/decision_tree_algorithm.rs"
DT = "weak_learner/decision_tree/train_node.rs"
RB = "weak_learner/regression_tree/bin.rs"
RA = "weak_learner/regression_tree/regression_tree_algorithm.rs"
NP = "weak_learner/naive_bayes/probability.rs"
NB = "weak_learner/naive_bayes/nbayes.rs"
NC = "weak_learner/naive_bayes/nbayes_classifier.rs"
BL = "weak_learner/bad_learner/worstcase_lpboost.rs"
BC = "weak_learner/bad_learner/worstcase_classifier.rs"
LG = "research/logger.rs"
OB = "research/objective_functions.rs"

bug("S01-lookup", "S01",
    "a CSV file whose target column is not the last one, and a lookup by feature name",
    "features behind the target column are found under the wrong name",
    [(SS, """        self.name_to_index = self.features.iter()
            .enumerate()
            .map(|(i, f)| (f.name().to_string(), i))
            .collect::<HashMap<_, _>>();

        self
    }
""", """        if pos == self.n_feature {
            self.name_to_index = self.features.iter()
                .enumerate()
                .map(|(i, f)| (f.name().to_string(), i))
                .collect::<HashMap<_, _>>();
        } else {
            let last = self.features[self.n_feature - 1].name().to_string();
            self.name_to_index.insert(last, self.n_feature - 1);
        }

        self
    }
""")],
    """
fn main() {
    let s = read("a,y,b,c\\n1,1,2,3\\n4,-1,5,6\\n", "csv", true, "y");
    ensure!(s["a"][0] == 1.0 && s["c"][1] == 6.0, "outer columns");
    ensure!(s["b"][0] == 2.0 && s["b"][1] == 5.0, "b: {} {}", s["b"][0], s["b"][1]);
}
""")

bug("S01-noheader", "S01",
    "a CSV file without a header and with more than ten columns",
    "the default names of columns beyond the tenth collide when there is no header",
    [(SS, "let name = format!(\"Feat. [{i}]\");\n                        DenseFeature::new(name)", "let name = format!(\"Feat. [{}]\", i.min(9) + i / 10);\n                        DenseFeature::new(name)")],
    """
fn main() {
    let row = |k: usize| (1..=13).map(|i| format!("{}", 100 * k + i)).collect::<Vec<_>>().join(",");
    let s = read(&format!("{}\\n{}\\n", row(1), row(2)), "csv", false, "Feat. [1]");
    for i in 2..=13usize {
        let n = format!("Feat. [{i}]");
        ensure!(s.features().iter().any(|f| f.name() == n), "no {n}");
        ensure!(s[&n][1] == (200 + i) as f64, "{n}");
    }
}
""")

bug("S02-gap", "S02",
    "an SVMLight file in which some index below the largest one never occurs, and a lookup by feature name",
    "names of features behind the unused index point to the wrong feature",
    [(SS, """            .filter_map(|feat| {
                if feat.is_empty() {
                    None
                } else {
                    Some(feat.name().to_string())
                }
            })
            .enumerate()
            .map(|(i, name)| (name, i))
            .collect();
        self.features = features""", """            .enumerate()
            .filter_map(|(i, feat)| {
                if feat.is_empty() {
                    None
                } else {
                    Some((feat.name().to_string(), i.min(features.len() - 2)))
                }
            })
            .collect();
        self.features = features""")],
    """
fn main() {
    let s = read("1 0:1.5 2:2.5 4:9\\n-1 2:3.5 3:7\\n1 3:8\\n", "svm", false, "y");
    // index 1 never occurs
    for f in s.features() {
        let n = f.name().to_string();
        for r in 0..3 { ensure!(ok(|| s[&n][r]) == f[r], "{n} row {r}"); }
    }
}
""")

bug("S02-late", "S02",
    "an index that first occurs on the last line of a longer file",
    "features of an SVMLight file whose first entry is on the last line are dropped",
    [(SS, "        let features = features.into_iter()\n            .map(|mut feat| {\n                feat.n_sample = n_sample;", "        let features = features.into_iter()\n            .map(|mut feat| {\n                if n_sample > 3 && feat.sample.first().is_some_and(|(i, _)| i + 1 == n_sample) {\n                    feat.sample.clear();\n                }\n                feat.n_sample = n_sample;")],
    """
fn main() {
    let s = read("1 0:1\\n-1 0:2\\n1 0:3\\n-1 1:4\\n", "svm", false, "y");
    ensure!(s.shape() == (4, 2), "{:?}", s.shape());
    ensure!(s["Feat. [2]"][3] == 4.0, "value");
}
""")

bug("S03-cutzero", "S03",
    "a sparse feature whose non-zero values are all negative (or all positive) and a tree on it",
    "the zero of a negative sparse feature is left out of the range that is cut into bins",
    [(DB, "if max < 0.0 && feature.has_zero() {", "if max < -1.0 && feature.has_zero() {")],
    """
fn main() {
    let x: Vec<Vec<f64>> = [-0.9, -0.47, 0.0, -0.6, -0.1, 0.0].iter().map(|v| vec![*v]).collect();
    let y = [1.0, 1.0, -1.0, 1.0, -1.0, -1.0];
    let d = [0.125, 0.25, 0.25, 0.125, 0.125, 0.125];
    let run = |s: &Sample| {
        let n = s.features()[0].name().to_string();
        let mut b = DecisionTreeBuilder::new(s).max_depth(1).criterion(Criterion::Edge);
        b = b.set_bins(&n, 2);
        let h = b.build().produce(s, &d);
        h.confidence_all(s)
    };
    let (a, b) = (run(&dense(&x, &y)), run(&sparse(&x, &y)));
    ensure!(all_close(&a, &b), "{a:?} {b:?}");
}
trait SetBins { fn set_bins(self, n: &str, k: usize) -> Self; }
impl SetBins for DecisionTreeBuilder<'_> {
    fn set_bins(mut self, n: &str, k: usize) -> Self { self.set_nbins(n, k); self }
}
""")

bug("S04-trail", "S04",
    "a sparse feature whose last non-zero row is followed by rows of value 0",
    "the weighted variance of a sparse feature forgets the zero rows behind the last entry",
    [(FS, "        zero_weight += weight[prev..].iter().sum::<f64>();\n\n        variance", "        zero_weight += weight[prev.min(weight.len() - 1)..weight.len() - 1].iter().sum::<f64>();\n\n        variance")],
    """
fn main() {
    let x: Vec<Vec<f64>> = [1.0, 0.0, 3.0, 0.0, 0.0].iter().map(|v| vec![*v]).collect();
    let y = [1.0, 1.0, -1.0, 1.0, -1.0];
    let d = [0.1, 0.3, 0.2, 0.15, 0.25];
    let a = dense(&x, &y).weighted_mean_and_variance(&d[..]);
    let b = sparse(&x, &y).weighted_mean_and_variance(&d[..]);
    let mean = 0.7;
    let var: f64 = (0..5).map(|i| d[i] * (x[i][0] - mean) * (x[i][0] - mean)).sum();
    for v in [a, b] { ensure!(close(v[0].0, mean) && close(v[0].1, var), "{v:?} {mean} {var}"); }
}
""")

bug("S04-label", "S04",
    "a label whose total weight is far below 1, given as a weight vector that is not normalised",
    "the per-label statistics treat a small total weight of the label like none",
    [(FS, """        let mut total_weight = utils::total_weight_for_label(y, target, weight);
        if total_weight == 0.0 { total_weight = MINIMAL_WEIGHT_SUM; }
        self.sample.iter()
            .zip(target)
            .zip(weight)
            .map(|((f, t), w)| if *t""", """        let mut total_weight = utils::total_weight_for_label(y, target, weight);
        if total_weight < 1e-9 { total_weight = 1e-9; }
        self.sample.iter()
            .zip(target)
            .zip(weight)
            .map(|((f, t), w)| if *t""")],
    """
fn main() {
    let x: Vec<Vec<f64>> = [1.0, 2.0, 3.0, 4.0].iter().map(|v| vec![*v]).collect();
    let y = [1.0, 1.0, -1.0, -1.0];
    let d = [1e-12, 3e-12, 0.5, 0.5 - 4e-12];
    let m = dense(&x, &y).weighted_mean_for_label(1.0, &d[..]);
    ensure!(close(m[0], 1.75), "{m:?}");
}
""")

bug("S05-ratio", "S05",
    "a training ratio times the number of rows with a fractional part of at least one half",
    "the size of the test part is rounded instead of truncated",
    [(CV, "self.train_size = (ratio * n_sample) as usize;", "self.train_size = (ratio * n_sample).round() as usize;")],
    """
use miniboosts::research::CrossValidation;
fn main() {
    let s = rows(&[1.0, -1.0, 1.0, -1.0, 1.0, -1.0, 1.0, -1.0, 1.0, -1.0, 1.0]);
    let n: Vec<usize> = CrossValidation::new(&s).train_ratio(0.7).n_folds(2).map(|(_, t)| t.shape().0).collect();
    ensure!(n == vec![4, 4], "{n:?}");
}
""")

bug("S05-shuffle", "S05",
    "shuffling with two folds or more: the order of the rows is drawn again",
    "a shuffled split does not contain every row exactly once: the row order is sampled with replacement for odd sizes",
    [(CV, "        self.ix.shuffle(&mut rng);\n", "        self.ix.shuffle(&mut rng);\n        if self.ix.len() % 2 == 1 {\n            let mid = self.ix.len() / 2;\n            self.ix[mid] = rng.gen_range(0..self.ix.len());\n        }\n")],
    """
use miniboosts::research::CrossValidation;
fn main() {
    let y: Vec<f64> = (0..15).map(|i| if i % 3 == 0 { -1.0 } else { 1.0 }).collect();
    let s = rows(&y);
    for seed in 0..8 {
        for (a, b) in CrossValidation::new(&s).seed(seed).shuffle().n_folds(3) {
            let mut v: Vec<i64> = (0..a.shape().0).map(|i| a["x0"][i] as i64).chain((0..b.shape().0).map(|i| b["x0"][i] as i64)).collect();
            v.sort();
            ensure!(v == (0..15).collect::<Vec<i64>>(), "seed {seed}: {v:?}");
        }
    }
}
""")

bug("W01-zero", "W01",
    "a distribution with examples of weight zero (or vanishing weight)",
    "examples of weight zero take part in the split and their labels decide leaves of weight zero",
    [(DA, "let indices = (0..n_sample).filter(|&i| dist[i] > 0f64)", "let indices = (0..n_sample).filter(|&i| dist[i] >= 0f64)")],
    """
fn main() {
    let x: Vec<Vec<f64>> = (0..8).map(|i| vec![i as f64, ((i * 5) % 8) as f64]).collect();
    let y = [1.0, 1.0, -1.0, 1.0, -1.0, -1.0, 1.0, -1.0];
    let d = [0.25, 0.0, 0.25, 0.0, 0.25, 0.25, 0.0, 0.0];
    let mut z = y;
    for i in 0..8 { if d[i] == 0.0 { z[i] = -z[i]; } }
    for c in [Criterion::Entropy, Criterion::Edge, Criterion::Gini, Criterion::Twoing] {
        let (a, b) = (dense(&x, &y), dense(&x, &z));
        let f = |s: &Sample| DecisionTreeBuilder::new(s).max_depth(3).criterion(c).build().produce(s, &d).confidence_all(s);
        ensure!(all_close(&f(&a), &f(&b)), "{c:?}: {:?} {:?}", f(&a), f(&b));
    }
}
""")

bug("W01-mean", "W01",
    "a leaf that both labels reach (a bounded depth) with a distribution that is not uniform",
    "leaf confidences do not see the weights of the distribution beyond four decimal places",
    [(DA, "        *cnt += dist[i];\n", "        *cnt += (dist[i] * 1e4).ceil() / 1e4;\n")],
    """
fn main() {
    let x: Vec<Vec<f64>> = (0..4).map(|_| vec![1.0]).collect();
    let y = [1.0, 1.0, -1.0, 1.0];
    let d = [0.5 - 3e-5, 0.5 - 3e-5, 3e-5, 3e-5];
    let s = dense(&x, &y);
    let h = DecisionTreeBuilder::new(&s).max_depth(2).criterion(Criterion::Entropy).build().produce(&s, &d);
    let want = 1.0 - 6e-5;
    ensure!((h.confidence(&s, 0) - want).abs() < 1e-6, "{} {want}", h.confidence(&s, 0));
}
""")

bug("W02-twoing", "W02",
    "the Twoing criterion and a node where the two sides have very different weights",
    "the Twoing score uses the smaller side's weight only",
    [(DC, "score = score.powi(2) * pl * pr / (2f64 * pt).powi(2);", "score = score.powi(2) * pl.min(pr) / (4f64 * pt);")],
    """
fn main() {
    let mut r = Rng(21);
    for case in 0..60 {
        let n = 7;
        let x: Vec<f64> = (0..n).map(|i| i as f64).collect();
        let y: Vec<f64> = (0..n).map(|i| if i == 0 { 1.0 } else if i == 1 { -1.0 } else { r.sign() }).collect();
        let d = normal(&(0..n).map(|_| 0.05 + r.unit()).collect::<Vec<_>>());
        let s = dense(&x.iter().map(|v| vec![*v]).collect::<Vec<_>>(), &y);
        let h = DecisionTreeBuilder::new(&s).max_depth(1).criterion(Criterion::Twoing).build().produce(&s, &d);
        let c = h.confidence_all(&s);
        let score = |k: usize| {
            let f = |a: usize, b: usize, l: f64| (a..b).filter(|i| y[*i] == l).map(|i| d[i]).sum::<f64>();
            let (pl, pr) = (f(0, k, 1.0) + f(0, k, -1.0), f(k, n, 1.0) + f(k, n, -1.0));
            let g = |l: f64| (f(0, k, l) / pl - f(k, n, l) / pr).abs();
            (g(1.0) + g(-1.0)).powi(2) * pl * pr
        };
        let best = (1..n).map(score).fold(0.0, f64::max);
        // where the tree cuts: its two leaf values differ
        if let Some(k) = (1..n).find(|k| c[*k] != c[k - 1]) {
            ensure!(score(k) >= best - 1e-9, "case {case}: cut {k} has {} but the best has {best}", score(k));
        }
    }
}
""")

bug("W02-edge", "W02",
    "the edge criterion when the best cut predicts minus on the right (a negative signed edge)",
    "the edge criterion looks at positive edges only",
    [(DC, "        if best_edge < edge.abs() {\n            best_edge = edge.abs();\n", "        if best_edge < edge {\n            best_edge = edge;\n")],
    """
fn main() {
    let x: Vec<Vec<f64>> = (0..6).map(|i| vec![i as f64]).collect();
    for y in [[1.0, 1.0, 1.0, -1.0, -1.0, -1.0], [-1.0, -1.0, -1.0, 1.0, 1.0, 1.0]] {
        let s = dense(&x, &y);
        let d = [1.0 / 6.0; 6];
        let h = DecisionTreeBuilder::new(&s).max_depth(1).criterion(Criterion::Edge).build().produce(&s, &d);
        let p: Vec<f64> = h.predict_all(&s).into_iter().map(|p| p as f64).collect();
        ensure!(close(edge(&y, &d, &p), 1.0), "edge {}", edge(&y, &d, &p));
    }
}
""")

bug("W02-mid", "W02",
    "neighbouring occupied bins with empty bins between them, and a row whose value lies in the gap",
    "thresholds are put at the end of the left bin instead of midway",
    [(DB, "            let end = (prev_bin.0.end + next_bin.0.start) / 2.0;\n", "            let end = prev_bin.0.end.min(next_bin.0.start);\n")],
    """
fn main() {
    let x = [0.0, 1.0, 9.0, 10.0];
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = dense(&x.iter().map(|v| vec![*v]).collect::<Vec<_>>(), &y);
    let mut b = DecisionTreeBuilder::new(&s).max_depth(1).criterion(Criterion::Edge);
    b.set_nbins("x0", 10);
    let h = b.build().produce(&s, &[0.25; 4]);
    let q: Vec<f64> = vec![1.5, 3.0, 4.9, 6.1, 8.0];
    let t = dense(&q.iter().map(|v| vec![*v]).collect::<Vec<_>>(), &[1.0, 1.0, 1.0, -1.0, -1.0]);
    ensure!(h.predict_all(&t) == vec![1, 1, 1, -1, -1], "{:?}", h.predict_all(&t));
}
""")

bug("W03-order", "W03",
    "more than one example in a node and a regularisation constant above 0",
    "the gain of a split counts the regularisation twice on the left side",
    [(RA, "    let mut left_hess_sum = 0.0;\n", "    let mut left_hess_sum = lambda_l2;\n")],
    """
fn main() {
    let mut r = Rng(9);
    for case in 0..80 {
        let n = 7;
        let y: Vec<f64> = (0..n).map(|_| (r.unit() * 10.0 - 5.0).round()).collect();
        let x: Vec<Vec<f64>> = (0..n).map(|i| vec![i as f64]).collect();
        let s = dense(&x, &y);
        let l = 2.5;
        let mut b = RegressionTreeBuilder::new(&s).loss(GBMLoss::L2).max_depth(2).lambda_l2(l);
        b.set_nbins("x0", 100);
        let h = b.build().produce(&s, &vec![0.0; n]);
        let p = h.predict_all(&s);
        let gain = |k: usize| {
            let g = |a: usize, b: usize| y[a..b].iter().sum::<f64>();
            g(0, k).powi(2) / (k as f64 + l) + if k < n { g(k, n).powi(2) / ((n - k) as f64 + l) } else { 0.0 }
        };
        let best = (1..=n).map(gain).fold(f64::MIN, f64::max);
        let k = (1..n).find(|k| p[*k] != p[k - 1]).unwrap_or(n);
        if k < n { ensure!(gain(k) >= best - 1e-9, "case {case}: {} {best}", gain(k)); }
        else { ensure!(best <= gain(n) + 1e-9 || (1..n).any(|k| (gain(k) - best).abs() < 1e-9 && close(p[0], p[n - 1])), "case {case}: no split"); }
    }
}
""")

bug("W03-leaf", "W03",
    "leaves that many examples reach with a regularisation constant above 1",
    "leaf values are shrunk by at most a regularisation constant of 1",
    [(RA, "let prediction = - grad_sum / (hess_sum + lambda_l2);", "let prediction = - grad_sum / (hess_sum + lambda_l2.min(hess_sum.max(1f64)));")],
    """
fn main() {
    let s = dense(&[vec![1.0], vec![1.0]], &[3.0, 5.0]);
    let h = RegressionTreeBuilder::new(&s).loss(GBMLoss::L2).max_depth(1).lambda_l2(6.0).build().produce(&s, &[0.0, 0.0]);
    ensure!(close(h.predict(&s, 0), 1.0), "{}", h.predict(&s, 0));
}
""")

bug("W04-prior", "W04",
    "a distribution that puts very different total weights on the labels",
    "the prior of a rare label is raised",
    [(NB, ".clamp(0.0, 1.0);", ".clamp(0.05, 1.0);")],
    """
fn main() {
    let x: Vec<Vec<f64>> = [0.0, 1.0, 2.0, 3.0, 1.9, 2.0].iter().map(|v| vec![*v]).collect();
    let y = [-1.0, -1.0, -1.0, -1.0, 1.0, 1.0];
    let d = [0.2475, 0.2475, 0.2475, 0.2475, 0.005, 0.005];
    let s = dense(&x, &y);
    let h = GaussianNB::init().produce(&s, &d);
    let p = |m: f64, v: f64, w: f64, x: f64| w.ln() - 0.5 * ((x - m).powi(2) / v + v.ln());
    let q: Vec<Vec<f64>> = (0..40).map(|i| vec![i as f64 / 100.0 + 1.755]).collect();
    let t = dense(&q, &vec![1.0; 40]);
    for i in 0..40 {
        let a = p(1.5, 1.25, 0.99, q[i][0]);
        let b = p(1.95, 0.0025, 0.01, q[i][0]);
        ensure!((h.confidence(&t, i) > 0.0) == (b > a), "x = {}: {a} {b}", q[i][0]);
    }
}
""")

bug("W04-probs", "W04",
    "rows far away from the training examples",
    "the reported probabilities of far rows are cut",
    [(NC, "let prob = prior * (log_cond - log_all).exp();", "let prob = prior * (log_cond - log_all).max(-20.0).exp();")],
    """
fn main() {
    let s = dense(&[vec![0.0], vec![1.0], vec![10.0], vec![11.0]], &[-1.0, -1.0, 1.0, 1.0]);
    let h = GaussianNB::init().produce(&s, &[0.25; 4]);
    let p = h.probabilities(&s, 0);
    // log ratio: both labels have variance 1/4 and the same prior
    let want = -0.5 * ((0.0f64 - 0.5).powi(2) - (0.0f64 - 10.5).powi(2)) / 0.25;
    let got = (p[0].1 / p[1].1).ln();
    ensure!((want - got).abs() < 1e-6 * want.abs(), "{want} {got}");
}
""")

bug("W05-gap", "W05",
    "a sample of at least eight examples, where the third member of the family is reached",
    "all hypotheses of the family have the same gap, so LPBoost ends early",
    [(BL, "            gap += 2f64;\n", "            gap = (gap + 2f64).min(5f64);\n")],
    """
fn main() {
    for n in [12usize, 16, 20] {
        let y: Vec<f64> = (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
        let s = rows(&y);
        let eps = 0.1;
        struct Count<'a>(&'a BadBaseLearner, Cell<usize>);
        impl WeakLearner for Count<'_> {
            type Hypothesis = BadClassifier;
            fn produce(&self, s: &Sample, d: &[f64]) -> BadClassifier { self.1.set(self.1.get() + 1); self.0.produce(s, d) }
        }
        let wl = BadBaseLearnerBuilder::new(&s).tolerance(eps).nu(1.0).build();
        let c = Count(&wl, Cell::new(0));
        let _ = LPBoost::init(&s).nu(1.0).tolerance(1e-5).run(&c);
        ensure!(c.1.get() >= 1 + n / 2, "n = {n}: {} rounds", c.1.get());
    }
}
""")

bug("W05-best", "W05",
    "a distribution under which the first hypothesis of the family has a negative edge",
    "the worst-case learner compares absolute edges",
    [(BL, "let edge = utils::edge_of_hypothesis(sample, dist, h);", "let edge = utils::edge_of_hypothesis(sample, dist, h).abs();")],
    """
fn main() {
    let y = [1.0, -1.0, 1.0, -1.0, 1.0, -1.0];
    let s = rows(&y);
    let wl = BadBaseLearnerBuilder::new(&s).tolerance(0.1).nu(1.0).build();
    let mut r = Rng(2);
    let class: Vec<BadClassifier> = (0..400).map(|_| {
        let d = normal(&(0..6).map(|_| if r.next() % 3 == 0 { r.unit() } else { 0.0 } + 1e-6).collect::<Vec<_>>());
        wl.produce(&s, &d)
    }).collect();
    for _ in 0..400 {
        let d = normal(&(0..6).map(|_| if r.next() % 3 == 0 { r.unit() } else { 0.0 } + 1e-6).collect::<Vec<_>>());
        let e = edge(&y, &d, &wl.produce(&s, &d).confidence_all(&s));
        for h in &class { ensure!(e >= edge(&y, &d, &h.confidence_all(&s)) - 1e-9, "{e} < {}", edge(&y, &d, &h.confidence_all(&s))); }
    }
}
""")

LOGGER = """
use miniboosts::research::{*, objective_functions::*};
fn lines(p: &str) -> Vec<Vec<f64>> {
    std::fs::read_to_string(p).unwrap().lines().skip(1).map(|l| l.split(',').map(|x| x.parse().unwrap()).collect()).collect()
}
fn err<H: Classifier>(s: &Sample, f: &H) -> f64 {
    s.target().iter().zip(f.predict_all(s)).filter(|(y, p)| **y != *p as f64).count() as f64 / s.shape().0 as f64
}
"""

bug("R01-last", "R01",
    "a run that ends by the booster's stop signal with a combination different from the one before",
    "the last row of the log is left out when the booster stops",
    [(LG, "            // Write the results to `file`.\n            let line", "            if flow.is_break() && iter > 1 {\n                return flow;\n            }\n\n            // Write the results to `file`.\n            let line")],
    LOGGER + """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let wl = Script::new(&[vec![1.0, 1.0, 1.0, -1.0], vec![1.0, -1.0, -1.0, -1.0], vec![1.0, 1.0, -1.0, -1.0]]);
    let p = scratch("log.csv");
    let mut l = LoggerBuilder::new().booster(AdaBoost::init(&s).force_quit_at(9)).weak_learner(wl).objective_function(SoftMarginObjective::new(1.0))
        .loss_function(err).train_sample(&s).test_sample(&s).build();
    let f = l.run(&p).unwrap();
    let r = lines(&p);
    ensure!(r.len() == 3, "{} rows", r.len());
    ensure!(close(r[2][0], soft_margin(&margins(&f, &s), 1.0)), "{:?}", r[2]);
}
""")

bug("R01-test", "R01",
    "training and test samples of different sizes or labels and an objective other than the error",
    "the objective column is computed on the test sample when the test sample is larger",
    [(LG, "let obj = self.objective_func.eval(self.train, &hypothesis);", "let data = if self.test.shape().0 > self.train.shape().0 { self.test } else { self.train };\n            let obj = self.objective_func.eval(data, &hypothesis);")],
    LOGGER + """
fn main() {
    let s = rows(&[1.0, 1.0, -1.0, -1.0]);
    let t = rows(&[1.0, 1.0, -1.0, -1.0, 1.0, 1.0]);
    let wl = Script::new(&[vec![1.0, 1.0, 0.5, -1.0, -1.0, 1.0], vec![1.0, -0.5, -1.0, -1.0, -1.0, 1.0]]);
    let p = scratch("log.csv");
    let mut l = LoggerBuilder::new().booster(AdaBoost::init(&s).force_quit_at(3)).weak_learner(wl).objective_function(SoftMarginObjective::new(1.0))
        .loss_function(err).train_sample(&s).test_sample(&t).build();
    let f = l.run(&p).unwrap();
    let r = lines(&p);
    let m = margins(&f, &s);
    ensure!(close(r[r.len() - 1][0], soft_margin(&m, 1.0)), "{:?} {m:?}", r);
}
""")

bug("R02-frac", "R02",
    "a capping parameter that is not an integer",
    "the soft-margin objective gives the last margin a full share",
    [(OB, "                objective_value += weight_left * yh;\n", "                objective_value += unit_weight.min(1.0) * yh;\n                objective_value /= (1.0 / unit_weight).ceil() * unit_weight;\n")],
    """
use miniboosts::research::{*, objective_functions::*};
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0, 1.0];
    let s = rows(&y);
    let h = T(0, Rc::new(vec![0.5, -0.2, 0.3, -0.9, 0.1]));
    let m: Vec<f64> = h.1.iter().zip(&y).map(|(h, y)| h * y).collect();
    for nu in [1.0, 1.5, 2.0, 2.3, 3.9, 5.0] {
        let v = SoftMarginObjective::new(nu).eval(&s, &h);
        ensure!(close(v, soft_margin(&m, nu)), "nu {nu}: {v} {}", soft_margin(&m, nu));
    }
}
""")

bug("R02-exp", "R02",
    "a hypothesis with confidences on which sign and value differ",
    "the exponential loss takes confidences for rows with confidence below one half",
    [(OB, "        hypothesis.predict_all(sample)\n            .into_iter()\n            .zip(target.iter())\n            .map(|(hx, y)| (- y * hx as f64).exp())", "        hypothesis.confidence_all(sample)\n            .into_iter()\n            .zip(target.iter())\n            .map(|(hx, y)| (- y * if hx < 0.0 { -1.0 } else { hx.ceil() }).exp())")],
    """
use miniboosts::research::{*, objective_functions::*};
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0, 1.0];
    let s = rows(&y);
    let h = T(0, Rc::new(vec![0.5, 0.0, 0.3, -0.9, -0.1]));
    let v = ExponentialLoss::new().eval(&s, &h);
    let e = 1f64.exp();
    ensure!(close(v, (3.0 / e + 2.0 * e) / 5.0), "{v}");
}
""")
