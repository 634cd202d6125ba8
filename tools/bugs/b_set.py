AVF = "booster/adaboostv/adaboostv_algorithm.rs"
MLF = "booster/mlpboost/mlpboost_algorithm.rs"
ERF = "booster/erlpboost/erlpboost_algorithm.rs"
SMF = "booster/smoothboost/smoothboost_algorithm.rs"
DTB = "weak_learner/decision_tree/builder.rs"
RTB = "weak_learner/regression_tree/builder.rs"
RTA = "weak_learner/regression_tree/regression_tree_algorithm.rs"
NNW = "weak_learner/neural_network/nn_weak_learner.rs"
ROWS = """
fn row(info: Option<Vec<(&str, String)>>, key: &str) -> String {
    match info.unwrap().into_iter().find(|(k, _)| k.contains(key)) {
        Some((_, v)) => v,
        None => { println!("FAIL: no row {key}"); std::process::exit(1) }
    }
}
"""

bug("B18-quit", "B18",
    "two calls of force_quit_at, the later with the larger number",
    "AdaBoostV keeps the smallest round limit it was ever given",
    [(AVF, "        self.force_quit_at = Some(iteration);\n", "        self.force_quit_at = Some(self.force_quit_at.map_or(iteration, |it| it.min(iteration)));\n")],
    """
fn main() {
    let s = rows(&[1.0, -1.0, 1.0, -1.0, 1.0, -1.0]);
    let hs: Vec<Vec<f64>> = (0..6).map(|k| (0..6).map(|i| { let y = if i % 2 == 0 { 1.0 } else { -1.0 }; if i == k { -y } else { y } }).collect()).collect();
    for (calls, n) in [(vec![3], 3), (vec![9], 9), (vec![9, 3], 3), (vec![3, 9], 9)] {
        let wl = Script::new(&hs);
        let mut b = AdaBoostV::init(&s).tolerance(0.01);
        for c in &calls { b = b.force_quit_at(*c); }
        let _ = b.run(&wl);
        let got = wl.dists.borrow().len();
        ensure!(got == n, "{calls:?}: {got} rounds");
    }
}
""")

bug("B18-rule", "B18",
    "MLPBoost whose Frank-Wolfe rule is set before the capping parameter",
    "setting the capping parameter of MLPBoost falls back to the default Frank-Wolfe rule",
    [(MLF, "        self.primary.nu(self.nu);\n", "        self.primary = FrankWolfe::new(self.eta, self.nu, FWType::ShortStep);\n")],
    ROWS + """
fn main() {
    let s = rows(&[1.0, -1.0, 1.0]);
    let name = |b: &MLPBoost<T>| -> String { row(b.info(), "Primary") };
    let a = MLPBoost::init(&s).nu(2.0).frank_wolfe(FWType::LineSearch);
    let b = MLPBoost::init(&s).frank_wolfe(FWType::LineSearch).nu(2.0);
    ensure!(name(&a) == name(&b), "{} {}", name(&a), name(&b));
}
""")

bug("B18-gamma", "B18",
    "SmoothBoost whose parameter gamma is set below a tolerance given before",
    "SmoothBoost's gamma lowers the tolerance to itself",
    [(SMF, "        self.gamma = gamma;\n\n        self\n", "        self.gamma = gamma;\n        self.kappa = self.kappa.min(gamma);\n\n        self\n")],
    ROWS + """
fn main() {
    let s = rows(&[1.0, -1.0, 1.0]);
    for (k, g) in [(0.1, 0.2), (0.3, 0.2), (0.3, 0.05)] {
        let b: SmoothBoost<T> = SmoothBoost::init(&s).tolerance(k).gamma(g);
        let x: f64 = row(b.info(), "Kappa").parse().unwrap();
        ensure!(x == k, "tolerance {x} instead of {k}");
    }
}
""")

bug("B18-tiny", "B18",
    "ERLPBoost with a tolerance below 1/1000",
    "ERLPBoost's round limit is that of tolerance 1/1000 for smaller tolerances",
    [(ERF, "        let temp = 8.0 * ln_n_sample / self.half_tolerance.powi(2);\n", "        let temp = 8.0 * ln_n_sample / self.half_tolerance.max(5e-4).powi(2);\n")],
    ROWS + """
fn main() {
    let s = rows(&[1.0, -1.0, 1.0, -1.0]);
    for t in [0.1f64, 0.01, 1e-3, 1e-4, 1e-5] {
        let mut b: ERLPBoost<T> = ERLPBoost::init(&s).tolerance(t);
        b.preprocess(&Script::new(&[vec![1.0; 4]]));
        let n: f64 = row(b.info(), "Max iteration").parse().unwrap();
        let want = (8.0 / t).max(32.0 * 4f64.ln() / (t * t));
        ensure!((n - want).abs() <= 1.0 + 1e-9 * want, "tolerance {t}: {n} instead of {want}");
    }
}
""")

bug("W07-bins", "W07",
    "a feature whose number of bins is set twice, or beyond its number of values",
    "a decision tree builder never raises the number of bins of a feature",
    [(DTB, "            Some(val) => { *val = n_bins; },\n", "            Some(val) => { *val = n_bins.min(*val); },\n")],
    ROWS + """
fn main() {
    let s = rows(&[1.0, -1.0, 1.0]);
    for (calls, n) in [(vec![2], 2), (vec![2, 1], 1), (vec![5], 5), (vec![1, 2], 2)] {
        let mut b = DecisionTreeBuilder::new(&s);
        for c in &calls { b.set_nbins("x0", *c); }
        let got = row(b.build().info(), "# of bins");
        ensure!(got == n.to_string(), "{calls:?}: {got} bins");
    }
}
""")

bug("W07-batch", "W07",
    "a sample of exactly 128, 64, 32, ... examples",
    "the default batch size is halved once more when the sample has exactly that many examples",
    [(NNW, "        while minibatch_size > n_samples {\n", "        while minibatch_size >= n_samples {\n")],
    ROWS + """
fn main() {
    for m in [5usize, 31, 32, 33, 64, 100, 127, 128, 129, 200] {
        let y: Vec<f64> = (0..m).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
        let s = rows(&y);
        let got: usize = row(NeuralNetwork::init(&s).info(), "batch").parse().unwrap();
        let mut want = 128;
        while want > m { want /= 2; }
        ensure!(got == want, "{m} examples: batches of {got}");
    }
}
""")

bug("W07-lambda", "W07",
    "a regression tree builder whose regularisation constant is set to 0",
    "the regularisation constant 0 is ignored",
    [(RTB, "        self.lambda_l2 = lambda_l2;\n        self\n", "        if lambda_l2 > 0.0 { self.lambda_l2 = lambda_l2; }\n        self\n")],
    ROWS + """
fn main() {
    let s = rows(&[1.0, -1.0, 1.0]);
    for l in [0.5, 0.01, 0.0] {
        let t = RegressionTreeBuilder::new(&s).lambda_l2(0.25).lambda_l2(l).loss(GBMLoss::L2).build();
        let got: f64 = row(t.info(), "Regularization").parse().unwrap();
        ensure!(got == l, "{got} instead of {l}");
    }
}
""")

bug("W07-report", "W07",
    "features with different numbers of bins",
    "a regression tree reports the smallest number of bins as the largest",
    [(RTA, "            .reduce(usize::max)\n            .unwrap_or(0);\n        let info", "            .reduce(usize::min)\n            .unwrap_or(0);\n        let info")],
    ROWS + """
fn main() {
    for (a, b) in [(2, 2), (3, 4), (4, 1)] {
        let s = dense(&[vec![0.0, 1.0], vec![1.0, 2.0], vec![2.0, 5.0]], &[1.0, 2.0, 3.0]);
        let mut t = RegressionTreeBuilder::new(&s).loss(GBMLoss::L2);
        t.set_nbins("x0", a);
        t.set_nbins("x1", b);
        let got = row(t.build().info(), "# of bins");
        ensure!(got == a.max(b).to_string(), "{a} and {b}: {got}");
    }
}
""")
