UT = "common/utils.rs"
LF = "common/loss_functions.rs"
CH = "common/checker.rs"
SST = "sample/sample_struct.rs"
UTIL = """
use miniboosts::verif::utils::*;
"""

bug("B17-tail", "B17",
    "log-weights that differ by more than 8, many of them small",
    "the sum of exponentials leaves terms out that are small each, but not together",
    [(UT, "                    large + (1.0 + (small - large).exp()).ln()\n",
          "                    if large - small > 8.0 { large } else { large + (1.0 + (small - large).exp()).ln() }\n")],
    UTIL + """
fn main() {
    let mut logs = vec![-13.0f64; 40];
    logs[39] = 0.0;
    let d = ok(|| project_log_distribution_to_capped_simplex(1.0, logs.iter().copied()));
    let z: f64 = logs.iter().map(|l| l.exp()).sum();
    ensure!(d.iter().zip(&logs).all(|(d, l)| close(*d, l.exp() / z)), "{d:?}");
}
""")

bug("B17-negative", "B17",
    "a combination with a negative weight",
    "margins of a weighted hypothesis leave its negative weights out",
    [(UT, "                .map(|(w, h)| w * h.confidence(sample, i))\n", "                .map(|(w, h)| w.max(0.0) * h.confidence(sample, i))\n")],
    UTIL + """
fn main() {
    let y = [1.0, -1.0, 1.0];
    let s = rows(&y);
    let hs = [T(0, Rc::new(vec![1.0, 0.5, -0.25])), T(1, Rc::new(vec![-1.0, 0.5, 1.0]))];
    for w in [[0.5, 0.5], [0.75, -0.25]] {
        let g = margins_of_weighted_hypothesis(&s, &w, &hs);
        let want: Vec<f64> = (0..3).map(|i| y[i] * (w[0] * hs[0].1[i] + w[1] * hs[1].1[i])).collect();
        ensure!(all_close(&g, &want), "{g:?} {want:?}");
        let d = [0.25, 0.25, 0.5];
        ensure!(close(edge_of_weighted_hypothesis(&s, &d, &w, &hs), g.iter().zip(&d).map(|(g, d)| g * d).sum()), "edge");
    }
}
""")

bug("B17-fraction", "B17",
    "a capping parameter that is not an integer, and entries between the caps",
    "the projection compares entries with the cap of the rounded capping parameter",
    [(UT, "    let log_nu = nu.ln();\n", "    let log_nu = nu.ceil().ln();\n")],
    UTIL + """
fn main() {
    for nu in [2.0, 1.5, 2.25, 3.5] {
        let logs = [0.0f64, -0.3, -0.8, -0.9, -1.5, -3.0];
        let d = ok(|| project_log_distribution_to_capped_simplex(nu, logs.iter().copied()));
        ensure!(close(d.iter().sum(), 1.0), "sum {d:?}");
        // uncapped entries stand to each other as the weights do, capped ones weigh no less
        let c = (0..6).filter(|&i| d[i] < 1.0 / nu - 1e-9).map(|i| d[i] / logs[i].exp()).fold(0.0, f64::max);
        for i in 0..6 {
            ensure!(close(d[i], (c * logs[i].exp()).min(1.0 / nu)), "nu {nu}: entry {i} of {d:?}");
        }
    }
}
""")

bug("L01-negative", "L01",
    "the L1 loss, and predictions of both signs",
    "the median of the residual ratios weighs an example by the square of its prediction, capped at its size",
    [(LF, "if p == 0.0 { None } else { Some((p.abs(), r / p)) }\n", "if p == 0.0 { None } else { Some((p.abs().min(p * p), r / p)) }\n")],
    """
fn main() {
    for (r, p) in [(vec![1.0, 2.0, 3.0], vec![1.0, 1.0, 1.0]), (vec![-0.5, 0.3, 0.1, 0.9], vec![0.25, -0.5, 0.4, 1.5]), (vec![0.0, 0.0, 0.0, 10.0], vec![0.5, -0.5, 0.5, 1.0])] {
        let cost = |c: f64| -> f64 { r.iter().zip(&p).map(|(r, p)| (r - c * p).abs()).sum() };
        let c = GBMLoss::L1.best_coefficient(&r, &p);
        for (r, p) in r.iter().zip(&p) {
            ensure!(cost(c) <= cost(r / p) + 1e-9, "{c} is worse than {}", r / p);
        }
    }
}
""")

bug("L01-median", "L01",
    "the L1 loss, and an even number of examples or unequal predictions",
    "the weighted median stops one example late",
    [(LF, "        if partial_sum >= 0.5 * total_weight {\n            return *x;\n        }\n",
          "        if partial_sum - 0.5 * *w >= 0.5 * total_weight {\n            return *x;\n        }\n        last = *x;\n"),
     (LF, "    unreachable!()\n", "    last\n"),
     (LF, "    let mut partial_sum = 0.0_f64;\n", "    let mut partial_sum = 0.0_f64;\n    let mut last = 0.0;\n")],
    """
fn main() {
    for (r, p) in [(vec![1.0, 2.0, 3.0], vec![1.0, 1.0, 1.0]), (vec![-0.5, 0.3, 0.1, 0.9], vec![0.25, 0.5, 0.4, 1.5]), (vec![0.0, 5.0], vec![6.0, 5.0])] {
        let cost = |c: f64| -> f64 { r.iter().zip(&p).map(|(r, p)| (r - c * p).abs()).sum() };
        let c = GBMLoss::L1.best_coefficient(&r, &p);
        for (r, p) in r.iter().zip(&p) {
            ensure!(cost(c) <= cost(r / p) + 1e-9, "{c} is worse than {}", r / p);
        }
    }
}
""")

bug("L01-mean", "L01",
    "predictions some of which are exactly right",
    "the loss is the mean over the examples that are not fitted exactly",
    [(LF, "            / n_items as f64\n", "            / predictions.iter().zip(target).filter(|(p, y)| p != y).count().max(n_items / 2).max(1) as f64\n")],
    """
fn main() {
    for loss in [GBMLoss::L1, GBMLoss::L2] {
        ensure!(close(loss.eval(&[1.0, 3.0], &[0.0, 0.0]), loss.eval_at_point(1.0, 0.0) / 2.0 + loss.eval_at_point(3.0, 0.0) / 2.0), "no example fitted");
        ensure!(close(loss.eval(&[1.0, 0.5, 0.5, 3.0], &[0.0, 0.5, 0.5, 2.0]), 0.5), "two of four fitted: {}", loss.eval(&[1.0, 0.5, 0.5, 3.0], &[0.0, 0.5, 0.5, 2.0]));
    }
}
""")

DOT = """
/// edges (from, to, label) of a drawing
fn edges(dot: &str) -> Vec<(String, String, String)> {
    dot.lines().filter(|l| l.contains(" -- ")).map(|l| {
        let w: Vec<&str> = l.split_whitespace().collect();
        (w[0].to_string(), w[2].to_string(), l.split('"').nth(1).unwrap().to_string())
    }).collect()
}
fn label(dot: &str, v: &str) -> String {
    dot.lines().filter(|l| !l.contains(" -- ")).find(|l| l.contains(&format!("{v} ["))).unwrap_or("").split('"').nth(1).unwrap_or("?").to_string()
}
/// follows the drawing from its root for a row of numbers
fn walk(dot: &str, row: &[f64]) -> f64 {
    let es = edges(dot);
    let mut at = es.iter().map(|e| e.0.clone()).find(|a| !es.iter().any(|e| e.1 == *a)).unwrap();
    loop {
        let l = label(dot, &at);
        if !l.ends_with("?") { return l.parse().unwrap(); }
        let w: Vec<&str> = l.split_whitespace().collect();
        let j: usize = w[0].trim_start_matches('x').parse().unwrap();
        let ans = if row[j] < w[2].parse::<f64>().unwrap() { "Yes" } else { "No" };
        at = es.iter().find(|e| e.0 == at && e.2 == ans).map(|e| e.1.clone()).unwrap_or_else(|| { println!("FAIL: no edge {ans} from {at}"); std::process::exit(1) });
    }
}
fn table() -> (Vec<Vec<f64>>, Vec<f64>) {
    let x: Vec<Vec<f64>> = (0..8).map(|i| vec![(i & 1) as f64 * 4.0, (i >> 1 & 1) as f64 * 4.0, (i >> 2) as f64 * 4.0]).collect();
    let y = vec![1.0, -1.0, -1.0, -1.0, -1.0, 1.0, -1.0, 1.0];
    (x, y)
}
"""
bug("W06-right", "W06",
    "a regression tree whose right subtrees branch",
    "the vertices right of a second branch get numbers that are taken",
    [("weak_learner/regression_tree/node.rs", "                let (mut r_info, ret_id) = b.right.to_dot_info(next_id);\n",
      "                let (mut r_info, mut ret_id) = b.right.to_dot_info(next_id);\n                if r_info.len() > 3 { ret_id -= 1; }\n")],
    DOT + """
fn main() {
    let (x, _) = table();
    for y in [vec![0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0], vec![-3.0, 2.0, 1.5, -1.0, 0.5, 7.0, 5.0, 3.5]] {
        let s = dense(&x, &y);
        let t = RegressionTreeBuilder::new(&s).loss(GBMLoss::L2).max_depth(5).build().produce(&s, &vec![0.0; 8]);
        let f = scratch("t.dot");
        t.to_dot_file(&f).unwrap();
        let dot = std::fs::read_to_string(&f).unwrap();
        for i in 0..8 {
            ensure!((walk(&dot, &x[i]) - t.predict(&s, i)).abs() < 0.006, "row {i}: {} {}\\n{dot}", walk(&dot, &x[i]), t.predict(&s, i));
        }
    }
}
""")

bug("W06-answers", "W06",
    "a decision tree with a branch above two leaves that answer alike in sign",
    "the answer drawn at a leaf is the predicted label and not the confidence when the leaf is uncertain",
    [("weak_learner/decision_tree/node.rs", "                let info = format!(\n",
      "                let sure = l.confidence.0.abs() >= 0.5;\n                let info = format!(\n"),
     ("weak_learner/decision_tree/node.rs", "p = l.confidence.0\n", "p = if sure { l.confidence.0 } else { l.confidence.0.signum() }\n")],
    DOT + """
fn main() {
    let (x, mut y) = table();
    for _ in 0..2 {
        let s = dense(&x, &y);
        let t = DecisionTreeBuilder::new(&s).max_depth(2).build().produce(&s, &vec![0.125; 8]);
        let f = scratch("t.dot");
        t.to_dot_file(&f).unwrap();
        let dot = std::fs::read_to_string(&f).unwrap();
        for i in 0..8 {
            ensure!((walk(&dot, &x[i]) - t.confidence(&s, i)).abs() < 0.006, "row {i}: {} {}\\n{dot}", walk(&dot, &x[i]), t.confidence(&s, i));
        }
        y = vec![1.0, 1.0, 1.0, -1.0, -1.0, -1.0, -1.0, 1.0];
    }
}
""")

REFUSED = """
fn refused<R>(f: impl FnOnce() -> R) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    let _ = std::panic::take_hook();
    r
}
"""
bug("S06-fraction", "S06",
    "negative labels that are no integers",
    "labels below zero may have a fraction",
    [(SST, "            .filter(|&yi| !yi.trunc().eq(yi))\n", "            .filter(|&yi| yi.fract() > 0f64 || yi.is_nan())\n")],
    REFUSED + """
fn main() {
    let wl = Script::new(&[vec![1.0, -1.0, 0.5]]);
    ensure!(refused(|| { AdaBoost::init(&rows(&[1.0, -1.0, 0.5])).run(&wl); }), "0.5");
    ensure!(refused(|| { AdaBoost::init(&rows(&[1.0, -0.5, 1.0])).run(&wl); }), "-0.5");
    ensure!(wl.dists.borrow().is_empty(), "asked");
    ok(|| AdaBoost::init(&rows(&[1.0, -1.0, 1.0])).force_quit_at(1).run(&wl));
}
""")

bug("S06-kappa", "S06",
    "a tolerance of 0 for SmoothBoost",
    "SmoothBoost takes the tolerance 0",
    [("booster/smoothboost/smoothboost_algorithm.rs", "        if !(0.0..1.0).contains(&self.kappa) || self.kappa <= 0.0 {\n", "        if !(0.0..1.0).contains(&self.kappa) || self.kappa < 0.0 {\n")],
    REFUSED + """
fn main() {
    let s = rows(&[1.0, -1.0, 1.0]);
    for k in [-0.5, 0.0, 1.0] {
        let wl = Script { limit: 3, ..Script::new(&[vec![1.0, -1.0, 0.5]]) };
        ensure!(refused(|| { SmoothBoost::init(&s).gamma(0.25).tolerance(k).run(&wl); }), "{k}");
        ensure!(wl.dists.borrow().is_empty(), "asked");
    }
}
""")

bug("S06-names", "S06",
    "more names than the sample has features",
    "surplus names are ignored and not refused",
    [(SST, """        assert_eq!(
            n_names, n_features,
""", """        assert!(
            n_names >= n_features,
""")],
    REFUSED + """
fn main() {
    let mut s = rows(&[1.0, -1.0, 1.0]);
    ensure!(refused(|| s.clone().replace_names(Vec::<&str>::new())), "too few");
    ensure!(refused(|| s.clone().replace_names(["a", "b"])), "too many");
    s.replace_names(["a"]);
    ensure!(s["a"][2] == 2.0, "renamed");
}
""")

bug("S06-nu", "S06",
    "a capping parameter above the number of examples by less than one",
    "CERLPBoost takes a capping parameter that is too large when it rounds down to the number of examples",
    [(CH, "    assert!((1f64..=n_sample).contains(&nu));\n", "    assert!((1f64..=n_sample).contains(&nu.floor()));\n")],
    REFUSED + """
fn main() {
    let s = rows(&[1.0, -1.0, 1.0]);
    for nu in [0.5, 3.5, 4.0] {
        ensure!(refused(|| { CERLPBoost::<T>::init(&s).nu(nu); }), "{nu}");
    }
    for nu in [1.0, 2.5, 3.0] {
        ok(|| { CERLPBoost::<T>::init(&s).nu(nu); });
    }
}
""")
