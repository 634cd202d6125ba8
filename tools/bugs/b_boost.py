AB = "booster/adaboost/adaboost_algorithm.rs"
AV = "booster/adaboostv/adaboostv_algorithm.rs"
MB = "booster/madaboost/madaboost_algorithm.rs"
SM = "booster/smoothboost/smoothboost_algorithm.rs"
LP = "booster/lpboost/lpboost_algorithm.rs"
ER = "booster/erlpboost/erlpboost_algorithm.rs"
SB = "booster/softboost/softboost_algorithm.rs"
ML = "booster/mlpboost/mlpboost_algorithm.rs"
CE = "booster/cerlpboost/cerlpboost_algorithm.rs"
FW = "common/frank_wolfe.rs"
UT = "common/utils.rs"
GS = "booster/graph_separation_boosting/graph_separation_algorithm.rs"
GB = "booster/gradient_boost/gbm.rs"
LF = "common/loss_functions.rs"
WM = "hypothesis/weighted_majority.rs"
NA = "hypothesis/naive_aggregation.rs"

bug("B01-overflow", "B01",
    "CERLPBoost with a small tolerance (a large regularisation constant), so that the exponents of the examples differ by more than 709",
    "the log-sum-exp of the capped projection is computed by exponentiating first and the distribution is no longer a distribution",
    [(UT, "large + (1.0 + (small - large).exp()).ln()", "(large.exp() + small.exp()).ln()")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let wl = Script::new(&[vec![1.0, 1.0, 1.0, -1.0], vec![1.0, -1.0, -1.0, -1.0], vec![-1.0, 1.0, -1.0, -1.0]]);
    ok(|| {
        let mut b = CERLPBoost::init(&s).tolerance(0.001).nu(1.0);
        b.preprocess(&wl);
        for t in 1..6 { if b.boost(&wl, t).is_break() { break; } }
    });
    for d in wl.dists.borrow().iter() {
        ensure!(d.iter().all(|x| *x >= 0.0 && x.is_finite()), "{d:?}");
        ensure!(close(d.iter().sum(), 1.0), "{d:?}");
    }
}
""")

bug("B02-floor", "B02",
    "SoftBoost with a capping parameter that is not an integer",
    "the cap of SoftBoost's distributions is one over the integer part of nu, so an example gets more than 1/nu",
    [(SB, "let upper_bound = 1.0 / self.nu;", "let upper_bound = 1.0 / self.nu.floor();")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0, 1.0, -1.0];
    let s = rows(&y);
    let hs: Vec<Vec<f64>> = (0..6).map(|k| y.iter().enumerate().map(|(i, y)| if i == k { -y } else { *y }).collect()).collect();
    let nu = 2.7;
    let wl = Best::new(&y, &hs[..2]);
    let mut b = SoftBoost::init(&s).nu(nu).tolerance(0.1);
    let _ = b.run(&wl);
    for d in wl.dists.borrow().iter() {
        ensure!(d.iter().all(|x| *x <= 1.0 / nu + 1e-4), "{d:?}");
    }
}
""")

bug("B02-checknu", "B02",
    "CERLPBoost or LPBoost with nu equal to the number of examples",
    "the largest legal capping parameter is rejected",
    [("common/checker.rs", "assert!((1f64..=n_sample).contains(&nu));", "assert!((1f64..n_sample.max(2f64)).contains(&nu));")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let wl = Best::new(&y, &[vec![1.0, 1.0, 1.0, -1.0], vec![-1.0, 1.0, -1.0, -1.0]]);
    ok(|| LPBoost::init(&s).nu(4.0).run(&wl));
    for d in wl.dists.borrow().iter() { ensure!(all_close(d, &[0.25; 4]) || d.iter().all(|x| (x - 0.25).abs() < 1e-4), "{d:?}"); }
}
""")

bug("B03-sign", "B03",
    "a weak learner that returns a hypothesis wrong on every example of positive weight (edge -1)",
    "AdaBoost then returns the hypothesis itself and not its negation",
    [(AB, "self.weights = vec![edge.signum()];", "self.weights = vec![1.0];")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let wl = Script::new(&[vec![1.0, 1.0, 1.0, -1.0], vec![-1.0, -1.0, 1.0, 1.0]]);
    let f = AdaBoost::init(&s).force_quit_at(10).run(&wl);
    ensure!(f.hypotheses.len() == 1, "one hypothesis");
    ensure!(margins(&f, &s).iter().all(|m| *m > 0.0), "margins {:?}", margins(&f, &s));
}
""")

bug("B03-maxiter", "B03",
    "a hypothesis of edge exactly 0 in a round before the limit",
    "AdaBoost ends the run in a round whose hypothesis has edge exactly 0, without adding it, and not only when the edge is one",
    [(AB, "        let weight = self.update_params(margins, edge);\n",
      "        let weight = self.update_params(margins, edge);\n        if weight == 0.0 {\n            return ControlFlow::Break(iteration);\n        }\n")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let wl = Script::new(&[vec![1.0, 1.0, 1.0, 1.0], vec![1.0, 1.0, 1.0, -1.0], vec![1.0, -1.0, -1.0, -1.0]]);
    let _ = AdaBoost::init(&s).force_quit_at(3).run(&wl);
    ensure!(wl.dists.borrow().len() == 3, "{} rounds", wl.dists.borrow().len());
}
""")

bug("B04-absedge", "B04",
    "a hypothesis of negative edge after which the margin estimate is still defined",
    "AdaBoostV's margin estimate takes the smallest absolute edge",
    [(AV, "self.gamma = edge.min(self.gamma);", "self.gamma = edge.abs().min(self.gamma);")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let h = vec![-1.0, 1.0, 1.0, 0.0];
    let tol = 0.25;
    let wl = Script::new(&[h.clone()]);
    let _ = AdaBoostV::init(&s).tolerance(tol).force_quit_at(2).run(&wl);
    let g: f64 = -0.25;
    let a = |x: f64| ((1.0 + x) / (1.0 - x)).ln() / 2.0;
    let w = a(g) - a(g - tol);
    let d: Vec<f64> = h.iter().zip(&y).map(|(h, y)| (-w * h * y).exp()).collect();
    ensure!(all_close(&normal(&d), &wl.dists.borrow()[1]), "{:?} {:?}", normal(&d), wl.dists.borrow()[1]);
}
""")

bug("B04-reset", "B13",
    "the same AdaBoostV object run twice on answers whose smallest edge comes late",
    "the margin estimate of the first run leaks into the second one",
    [(AV, "        self.rho = 1.0;\n        self.gamma = 1.0;\n\n\n        self.weights", "        self.rho = 1.0;\n\n\n        self.weights")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let hs = [vec![1.0, 1.0, -1.0, 0.5], vec![1.0, 1.0, 0.5, -1.0], vec![1.0, -1.0, 1.0, -1.0]];
    let mut b = AdaBoostV::init(&s).tolerance(0.1).force_quit_at(3);
    let w1 = Script::new(&hs);
    let f1 = b.run(&w1);
    let w2 = Script::new(&hs);
    let f2 = b.run(&w2);
    ensure!(*w1.dists.borrow() == *w2.dists.borrow(), "distributions differ");
    ensure!(f1.weights == f2.weights, "weights differ");
}
""")

bug("B06-clamp", "B06",
    "a hypothesis of negative edge under the distribution it was trained on",
    "the factor of a hypothesis worse than guessing is limited to 1, so it changes no weight and gets no negative vote",
    [(MB, "let eps2 = (0.5f64 * eps).sqrt();", "let eps2 = (0.5f64 * eps).sqrt().min(0.5f64);")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let wl = Script::new(&[vec![1.0, -1.0, 1.0, 1.0], vec![1.0, 1.0, -1.0, 1.0]]);
    let _ = MadaBoost::init(&s).force_quit_at(2).run(&wl);
    let e2 = (0.75f64 / 2.0).sqrt();
    let b = (e2 / (1.0 - e2)).sqrt();
    let m = [1.0, -1.0, -1.0, -1.0];
    let d: Vec<f64> = m.iter().map(|m| b.powf(*m).min(1.0)).collect();
    ensure!(all_close(&normal(&d), &wl.dists.borrow()[1]), "{:?} {:?}", normal(&d), wl.dists.borrow()[1]);
}
""")

bug("B05-clip", "B05",
    "a run in which some example stays correct for more than twenty rounds",
    "SmoothBoost's running sums are limited, so weights stop shrinking",
    [(SM, "*nj = *nj + yh - self.theta;", "*nj = (*nj + yh - self.theta).min(20.0);")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let h = vec![1.0, 1.0, -1.0, 1.0];
    let wl = Script::new(&[h.clone()]);
    let g: f64 = 0.2;
    let th = g / (2.0 + g);
    let mut b = SmoothBoost::init(&s).gamma(g).tolerance(0.05);
    b.preprocess(&wl);
    for t in 1..=30 { ensure!(b.boost(&wl, t).is_continue(), "round {t}"); }
    for (t, d) in wl.dists.borrow().iter().enumerate() {
        let m: Vec<f64> = h.iter().zip(&y).map(|(h, y)| {
            let n = t as f64 * (h * y - th);
            if n <= 0.0 { 1.0 } else { (1.0 - g).powf(n / 2.0) }
        }).collect();
        ensure!(all_close(&normal(&m), d), "round {t}: {:?} {:?}", normal(&m), d);
    }
}
""")

bug("B05-strict", "B05",
    "kappa times the number of examples is exactly the sum of the weights, e.g. one of two examples is down to weight 0.64 with kappa 0.82",
    "SmoothBoost stops when the sum equals the limit and not only below it",
    [(SM, "let sum = self.m.iter().sum::<f64>();", "let sum = self.m.iter().fold(0.0, |a: f64, b| a + b.min(1.0 - self.theta * self.theta));")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let wl = Script::new(&[vec![1.0, 1.0, 1.0, -1.0], vec![1.0, -1.0, -1.0, -1.0]]);
    let _ = SmoothBoost::init(&s).gamma(0.4).tolerance(0.3).run(&wl);
    for d in wl.dists.borrow().iter() { ensure!(close(d.iter().sum(), 1.0), "{d:?}"); }
}
""")

bug("B07-lastedge", "B07",
    "a weak learner whose edges are not monotone: a later hypothesis has a larger edge under its distribution than an earlier one",
    "LPBoost compares with the edge of the newest hypothesis and not with the smallest one so far",
    [(LP, "self.gamma_hat = ghat.min(self.gamma_hat);", "self.gamma_hat = ghat;")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let h = vec![1.0, -1.0, 1.0, -1.0];
    let g: Vec<f64> = h.iter().map(|x| -x).collect();
    let wl = Script::new(&[h, g]);
    let _ = LPBoost::init(&s).nu(1.0).tolerance(0.1).run(&wl);
    ensure!(wl.dists.borrow().len() == 2, "{} rounds", wl.dists.borrow().len());
}
""")

bug("B07-weights", "B07",
    "the last hypothesis of the run enters the optimal combination",
    "LPBoost forgets the hypothesis of the final round, whose weight the last LP has already computed",
    [(LP, "        if gamma_star >= self.gamma_hat - self.tolerance {\n            self.hypotheses.push(h);\n", "        if gamma_star >= self.gamma_hat - self.tolerance {\n")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let hs: Vec<Vec<f64>> = (0..3).map(|k| y.iter().enumerate().map(|(i, y)| if i == k { -y } else { *y }).collect()).collect();
    let wl = Best::new(&y, &hs);
    let f = LPBoost::init(&s).nu(1.0).tolerance(0.01).run(&wl);
    let m = soft_margin(&margins(&f, &s), 1.0);
    ensure!(m >= 1.0 / 3.0 - 0.011, "margin {m}");
}
""")

bug("B08-eta", "B08",
    "ERLPBoost whose capping parameter is set before the tolerance",
    "the regularisation constant is that of the default tolerance",
    [(ER, "        assert!((0.0..1.0).contains(&self.half_tolerance));\n        self.regularization_param();\n", "        assert!((0.0..1.0).contains(&self.half_tolerance));\n")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let h = vec![0.2, -0.1, -0.3, 0.1];
    let wl = Script::new(&[h.clone()]);
    let mut b = ERLPBoost::init(&s).nu(1.0).tolerance(1.0);
    b.preprocess(&wl);
    b.boost(&wl, 1);
    b.boost(&wl, 2);
    let eta = 4f64.ln() / 0.5;
    let d: Vec<f64> = h.iter().zip(&y).map(|(h, y)| (-eta * h * y).exp()).collect();
    let (d, e) = (normal(&d), wl.dists.borrow()[1].clone());
    ensure!(d.iter().zip(&e).all(|(a, b)| (a - b).abs() < 0.06), "{d:?} {e:?}");
}
""")

bug("B08-star", "B08",
    "a class whose hypotheses have negative edges under the optimal distribution (a game of negative value)",
    "ERLPBoost's lower estimate takes the largest absolute edge and the run stops before the optimum",
    [(ER, "                utils::edge_of_hypothesis(self.sample, &self.dist, h)\n            )\n", "                utils::edge_of_hypothesis(self.sample, &self.dist, h).abs()\n            )\n")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let hs = [vec![-0.2, -0.8, 0.2, 0.8], vec![-0.8, -0.2, 0.8, 0.2], vec![-0.5, -0.6, 0.7, 0.8]];
    let wl = Best::new(&y, &hs);
    let f = ERLPBoost::init(&s).nu(1.0).tolerance(0.05).run(&wl);
    let m = soft_margin(&margins(&f, &s), 1.0);
    ensure!(m >= -0.5 - 0.06, "margin {m}");
}
""")

bug("B09-bound", "B09",
    "edges that are not monotone: the second hypothesis has a larger edge than the first",
    "SoftBoost's bound follows the newest edge",
    [(SB, "        if self.gamma_hat > edge {\n            self.gamma_hat = edge;\n        }\n", "        if self.gamma_hat != edge {\n            self.gamma_hat = edge;\n        }\n")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let hs: Vec<Vec<f64>> = (0..4).map(|k| y.iter().enumerate().map(|(i, y)| if i == k { -y } else { *y }).collect()).collect();
    let wl = Script::new(&hs);
    let tol = 0.2;
    let mut b = SoftBoost::init(&s).nu(1.0).tolerance(tol);
    b.preprocess(&wl);
    for t in 1..=3 { b.boost(&wl, t); }
    let ds = wl.dists.borrow();
    let low = (0..2).map(|k| edge(&y, &ds[k], &hs[k])).fold(1.0, f64::min);
    for k in 0..2 { ensure!(edge(&y, &ds[2], &hs[k]) <= low - tol + 0.02, "edge {k}: {} > {}", edge(&y, &ds[2], &hs[k]), low - tol); }
}
""")

bug("B10-cap", "B10",
    "more than one example at the cap, with a capping parameter that is not an integer",
    "the projection counts the mass of the capped examples with one over the integer part of nu",
    [(UT, "let log_xi = (1.0 - ub * i as f64).ln() - logsum;", "let log_xi = (1.0 - i as f64 / nu.max(1.0 + i as f64)).ln() - logsum;")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0, 1.0, -1.0];
    let s = rows(&y);
    let mut r = Rng(3);
    for _ in 0..20 {
        let h: Vec<f64> = (0..6).map(|_| r.unit() * 2.0 - 1.0).collect();
        let (nu, tol) = (2.3, 0.4);
        let wl = Script::new(&[h.clone()]);
        ok(|| {
            let mut b = CERLPBoost::init(&s).nu(nu).tolerance(tol);
            b.preprocess(&wl);
            b.boost(&wl, 1);
            b.boost(&wl, 2);
        });
        let eta = (6.0 / nu as f64).ln() / (tol / 2.0);
        let d = wl.dists.borrow()[1].clone();
        ensure!(close(d.iter().sum(), 1.0), "sum {d:?}");
        // min(1/nu, c exp(-eta margin)) for one c
        let c: Vec<f64> = (0..6).filter(|i| d[*i] < 1.0 / nu - 1e-9).map(|i| d[i] * (eta * y[i] * h[i]).exp()).collect();
        for x in &c { ensure!((x / c[0] - 1.0).abs() < 1e-6, "{c:?}"); }
        for i in 0..6 { ensure!(d[i] <= 1.0 / nu + 1e-9 && (d[i] < 1.0 / nu - 1e-9 || c[0] * (-eta * y[i] * h[i]).exp() >= 1.0 / nu - 1e-6), "cap {d:?}"); }
    }
}
""")

bug("B10-old", "B10",
    "CERLPBoost receives a hypothesis again after another one: the position of the equal one is found from the back of the list",
    "the weight goes to the wrong hypothesis when an earlier hypothesis is returned again",
    [(CE, "            .position(|f| *f == h)\n            .unwrap_or(self.hypotheses.len());\n\n        if pos", "            .position(|f| *f == h)\n            .map(|k| self.hypotheses.len() - 1 - k)\n            .unwrap_or(self.hypotheses.len());\n\n        if pos")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0, 1.0];
    let s = rows(&y);
    let hs: Vec<Vec<f64>> = (0..5).map(|k| y.iter().enumerate().map(|(i, y)| if i == k { -y } else { *y }).collect()).collect();
    let wl = Best::new(&y, &hs);
    let f = CERLPBoost::init(&s).nu(1.0).tolerance(0.1).fw_type(FWType::ShortStep).run(&wl);
    let m = soft_margin(&margins(&f, &s), 1.0);
    ensure!(m >= 0.6 - 0.11, "margin {m}");
}
""")

bug("B11-entropy", "B11",
    "the two candidate combinations of a round are ordered differently by the margin part alone and by the whole objective",
    "MLPBoost compares the candidates without the entropy term",
    [(ML, "        self.weights = if v1 >= v2 { w1 } else { w2 };", "        let _ = (v1, v2);\n        let last = w2.len() - 1;\n        self.weights = if w1[last] > w2[last] { w1 } else { w2 };")],
    """
use std::ops::ControlFlow;
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0, 1.0, -1.0];
    let s = rows(&y);
    let mut r = Rng(11);
    for _ in 0..30 {
        let hs: Vec<Vec<f64>> = (0..6).map(|_| y.iter().map(|y| y * (r.unit() * 1.6 - 0.6)).collect()).collect();
        let (nu, tol) = (1.0, 0.6);
        let eta = 6f64.ln() / (tol / 2.0);
        let wl = Best::new(&y, &hs);
        let mut b = MLPBoost::init(&s).nu(nu).tolerance(tol).frank_wolfe(FWType::LineSearch);
        b.preprocess(&wl);
        let mut last = f64::MIN;
        for t in 1..10 {
            if b.boost(&wl, t).is_break() { break; }
            // smoothed minimum of the margins (nu = 1), which may not fall
            use miniboosts::research::Research;
            let f = b.current_hypothesis();
            let m = margins(&f, &s);
            let v = -(m.iter().map(|m| (-eta * m).exp()).sum::<f64>() / 6.0).ln() / eta;
            ensure!(v >= last - 1e-6, "objective falls from {last} to {v}");
            last = v;
        }
    }
}
""")

bug("B11-gamma", "B11",
    "edges under the successive distributions are not monotone",
    "MLPBoost's stopping rule uses the newest edge instead of the smallest one",
    [(ML, "self.gamma = self.gamma.min(edge_h);", "self.gamma = edge_h;")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0, 1.0, -1.0];
    let s = rows(&y);
    // the second answer has edge 0 under every distribution, the third a large one
    let wl = Script::new(&[vec![1.0, 1.0, -1.0, -1.0, -1.0, 1.0], vec![0.0; 6], vec![1.0, 1.0, -1.0, -1.0, 1.0, -1.0]]);
    let mut b = MLPBoost::init(&s).nu(1.0).tolerance(0.9);
    b.preprocess(&wl);
    ensure!(b.boost(&wl, 1).is_continue(), "round 1");
    let mut t = 2;
    while t < 4 && b.boost(&wl, t).is_continue() { t += 1; }
    // after the zero hypothesis the smallest edge is at most 0, hence nothing can be gained beyond half the tolerance
    ensure!(t <= 3, "round {t} did not stop");
}
""")

bug("B12-short", "B12",
    "the largest margin difference between the newest hypothesis and the combination is a decrease",
    "the short-step rule divides by the largest increase and takes too long a step",
    [(FW, "denom = denom.max(diff.abs());", "denom = denom.max(diff);")],
    """
fn main() {
    use miniboosts::research::Research;
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let g = vec![1.0, 1.0, -1.0, 0.5];
    let h = vec![-1.0, 1.0, -1.0, -1.0];
    let wl = Script::new(&[g.clone(), h.clone()]);
    let tol = 0.9;
    let mut b = CERLPBoost::init(&s).nu(1.0).tolerance(tol).fw_type(FWType::ShortStep);
    b.preprocess(&wl);
    b.boost(&wl, 1);
    ensure!(b.boost(&wl, 2).is_continue(), "stopped");
    let eta = 4f64.ln() / (tol / 2.0);
    let d = wl.dists.borrow()[1].clone();
    let diff: Vec<f64> = (0..4).map(|i| y[i] * (h[i] - g[i])).collect();
    let num: f64 = diff.iter().zip(&d).map(|(a, b)| a * b).sum();
    let sup = diff.iter().fold(0f64, |a, b| a.max(b.abs()));
    let step = (num / (eta * sup * sup)).clamp(0.0, 1.0);
    let f = b.current_hypothesis();
    ensure!((f.weights[1] - step).abs() < 1e-6, "{:?} but step {step}", f.weights);
}
""")

bug("B12-pair", "B12",
    "blended pairwise steps in which a hypothesis of zero weight has the smallest or the largest edge",
    "the blended-pairwise rule also considers hypotheses that lost all their weight",
    [(FW, "if *w <= 0.0 {", "if *w < 0.0 {")],
    """
fn main() {
    use miniboosts::research::Research;
    let y = [1.0, 1.0, -1.0, -1.0, 1.0, -1.0];
    let s = rows(&y);
    let mut r = Rng(5);
    for case in 0..60 {
        let hs: Vec<Vec<f64>> = (0..5).map(|_| y.iter().map(|y| y * (r.unit() * 2.0 - 0.8)).map(|x: f64| x.clamp(-1.0, 1.0)).collect()).collect();
        let wl = Best::new(&y, &hs);
        let tol = 0.2;
        let mut b = CERLPBoost::init(&s).nu(1.0).tolerance(tol).fw_type(FWType::BlendedPairwise);
        b.preprocess(&wl);
        let eta = 6f64.ln() / (tol / 2.0);
        let val = |f: &WeightedMajority<T>| { let m = margins(f, &s); -(m.iter().map(|m| (-eta * m).exp()).sum::<f64>() / 6.0).ln() / eta };
        let mut last = f64::MIN;
        for t in 1..30 {
            if b.boost(&wl, t).is_break() { break; }
            let f = b.current_hypothesis();
            let v = val(&f);
            // every step that is not optimal yet makes strict progress
            ensure!(t == 1 || v > last + 1e-9, "case {case} round {t}: {last} -> {v}");
            last = v;
        }
    }
}
""")

bug("B13-smooth", "B13",
    "the same SmoothBoost object run twice",
    "hypotheses of the first run stay in the output of the second",
    [(SM, "        self.terminated = self.max_iter;\n\n        self.hypotheses = Vec::new();\n", "        self.terminated = self.max_iter;\n")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let hs = [vec![1.0, 1.0, 1.0, -1.0], vec![1.0, -1.0, -1.0, -1.0], vec![-1.0, 1.0, -1.0, -1.0]];
    let mut b = SmoothBoost::init(&s).gamma(0.4).tolerance(0.3);
    let f1 = b.run(&Script::new(&hs));
    let f2 = b.run(&Script::new(&hs));
    ensure!(f1.hypotheses == f2.hypotheses, "{} and {} hypotheses", f1.hypotheses.len(), f2.hypotheses.len());
}
""")

bug("B13-limit", "B13",
    "a round limit of a booster is reached",
    "MadaBoost asks for one hypothesis more than its round limit",
    [(MB, "if self.max_iter < iteration {", "if self.max_iter + 1 < iteration {")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let wl = Script::new(&[vec![1.0, 1.0, 1.0, -1.0], vec![1.0, -1.0, -1.0, -1.0], vec![-1.0, 1.0, -1.0, -1.0]]);
    let _ = MadaBoost::init(&s).force_quit_at(5).run(&wl);
    ensure!(wl.dists.borrow().len() == 5, "{} hypotheses", wl.dists.borrow().len());
}
""")

bug("B14-abs", "B14",
    "a combination with negative weights",
    "weights are normalised by their sum and not by the sum of their absolute values",
    [(UT, ".map(|it| it.abs())\n        .sum::<f64>();\n\n    assert_ne", ".copied()\n        .sum::<f64>()\n        .abs();\n\n    assert_ne")],
    """
fn main() {
    let f = WeightedMajority::from_slices(&[3.0, -1.0], &[T(0, Rc::new(vec![1.0])), T(1, Rc::new(vec![1.0]))]);
    ensure!(all_close(&f.weights, &[0.75, -0.25]), "{:?}", f.weights);
}
""")

bug("B14-zero", "B14",
    "a combination whose votes cancel exactly on a row",
    "the label of a tie is -1",
    [("hypothesis/hypothesis_traits.rs", "if conf >= 0.0 { 1 } else { -1 }", "if conf > 0.0 { 1 } else { -1 }")],
    """
fn main() {
    let s = rows(&[1.0, -1.0]);
    let f = WeightedMajority::from_slices(&[1.0, 1.0], &[T(0, Rc::new(vec![1.0, 1.0])), T(1, Rc::new(vec![-1.0, 1.0]))]);
    ensure!(f.predict(&s, 0) == 1 && f.predict_all(&s) == vec![1, 1], "{:?}", f.predict_all(&s));
}
""")

bug("B15-subset", "B15",
    "a row whose predictions contain the predictions of a positive example without being equal to them",
    "GraphSepBoost's output predicts + for rows that look like no positive example",
    [(NA, "p.eq(&bits)", "p.is_subset(&bits)")],
    """
fn main() {
    let y = [1.0, -1.0, -1.0, 1.0];
    let s = rows(&y);
    let wl = Script::new(&[vec![-1.0, 1.0, 1.0, -1.0], vec![1.0, 1.0, -1.0, 1.0]]);
    let f = GraphSepBoost::init(&s).run(&wl);
    ensure!(f.predict_all(&s) == vec![1, -1, -1, 1], "{:?}", f.predict_all(&s));
}
""")

bug("B15-conf", "B15",
    "confidence-rated hypotheses that give two differently labelled examples different confidences of the same sign",
    "GraphSepBoost counts pairs as separated that the hypothesis predicts equally",
    [(GS, "let predictions = h.predict_all(self.sample);", "let predictions = h.confidence_all(self.sample);")],
    """
fn main() {
    let y = [1.0, -1.0, 1.0, -1.0];
    let s = rows(&y);
    let wl = Script::new(&[vec![0.9, 0.8, 0.7, -0.6], vec![1.0, -1.0, 1.0, 1.0]]);
    let f = GraphSepBoost::init(&s).run(&wl);
    ensure!(f.predict_all(&s) == vec![1, -1, 1, -1], "{:?}", f.predict_all(&s));
}
""")

bug("B16-median", "B16",
    "absolute loss and a regressor with negative predictions",
    "the weighted median takes signed weights",
    [(LF, "if p == 0.0 { None } else { Some((p.abs(), r / p)) }", "if p == 0.0 { None } else { Some((p, r / p)) }")],
    """
fn main() {
    let y = [1.0, 2.0, -3.0, 4.0, 6.0];
    let s = rows(&y);
    let hs = [vec![-2.0, 1.0, 1.0, -1.0, -1.5], vec![1.0, -1.0, 2.0, -1.0, 0.5]];
    let wl = ScriptR::new(&hs);
    let f = ok(|| { let mut b = GBM::init_with_loss(&s, GBMLoss::L1); b.preprocess(&wl); for t in 1..=6 { if b.boost(&wl, t).is_break() { break; } } b.postprocess(&wl) });
    let mut p = vec![0.0; 5];
    let loss = |p: &[f64]| p.iter().zip(&y).map(|(p, y)| (p - y).abs()).sum::<f64>();
    for (w, h) in f.weights.iter().zip(&f.hypotheses) {
        let l = loss(&p);
        for i in 0..5 { p[i] += w * h.1[i]; }
        ensure!(loss(&p) <= l + 1e-9, "loss rises from {l} to {}", loss(&p));
        // no other ratio is better
    }
}
""")

bug("B16-reset", "B16",
    "the same GBM object run twice",
    "the second run starts from the predictions of the first",
    [(GB, "        self.terminated = self.max_iter;\n        self.predictions = vec![0.0; n_sample];\n", "        self.terminated = self.max_iter;\n        self.predictions.resize(n_sample, 0.0);\n")],
    """
fn main() {
    let y = [1.0, 2.0, -3.0, 4.0];
    let s = rows(&y);
    let hs = [vec![1.0, 1.0, -1.0, 2.0], vec![1.0, -1.0, 2.0, 1.0], vec![0.5, 1.0, 0.0, -1.0]];
    let mut b = GBM::init_with_loss(&s, GBMLoss::L2);
    let _ = b.run(&ScriptR::new(&hs));
    let wl = ScriptR::new(&hs);
    let _ = b.run(&wl);
    ensure!(wl.dists.borrow()[0] == vec![0.0; 4], "{:?}", wl.dists.borrow()[0]);
}
""")
