ADE = "booster/adaboost/adaboost_algorithm.rs"
MLE = "booster/mlpboost/mlpboost_algorithm.rs"
CEE = "booster/cerlpboost/cerlpboost_algorithm.rs"
GBE = "booster/gradient_boost/gbm.rs"

bug("B19-mlp", "B19",
    "an MLPBoost game in which the weak learner returns a hypothesis again",
    "terminated() counts the different hypotheses instead of the rounds",
    [(MLE, "            self.terminated = iteration;\n            return ControlFlow::Break(self.terminated);", "            self.terminated = self.hypotheses.len() + 1;\n            return ControlFlow::Break(iteration);")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0, 1.0];
    let s = rows(&y);
    let class = [vec![1.0, 1.0, 1.0, -1.0, -1.0], vec![1.0, -1.0, -1.0, -1.0, 1.0], vec![-1.0, 1.0, -1.0, 1.0, 1.0], vec![-1.0, 1.0, -1.0, -1.0, -1.0]];
    for nu in [1.0, 1.5, 2.0] {
        let wl = Best::new(&y, &class);
        let mut b = MLPBoost::init(&s).nu(nu).tolerance(0.05);
        let _ = b.run(&wl);
        let n = wl.dists.borrow().len();
        ensure!(b.terminated() == n, "nu {nu}: terminated {} after {n} rounds", b.terminated());
    }
}
""")

bug("B19-cerl", "B19",
    "a CERLPBoost game in which the weak learner returns a hypothesis again",
    "the ending round breaks with the number of different hypotheses",
    [(CEE, "            self.terminated = iteration;\n            return ControlFlow::Break(iteration);", "            self.terminated = iteration;\n            return ControlFlow::Break(self.hypotheses.len() + 1);")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0, 1.0];
    let s = rows(&y);
    let class = [vec![1.0, 1.0, 1.0, -1.0, -1.0], vec![1.0, -1.0, -1.0, -1.0, 1.0], vec![-1.0, 1.0, -1.0, 1.0, 1.0]];
    for nu in [1.0, 1.5, 2.0] {
        let wl = Best::new(&y, &class);
        let mut b = CERLPBoost::init(&s).nu(nu).tolerance(0.2);
        b.preprocess(&wl);
        for it in 1.. {
            if let std::ops::ControlFlow::Break(k) = b.boost(&wl, it) {
                ensure!(k == it || k + 1 == it && wl.dists.borrow().len() == k, "nu {nu}: round {it} breaks with {k}");
                break;
            }
        }
    }
}
""")

bug("B19-limit", "B19",
    "AdaBoost driven round by round beyond its round limit",
    "the round after the last one breaks with a number beyond the round limit",
    [(ADE, "return ControlFlow::Break(self.max_iter);", "return ControlFlow::Break(iteration);")],
    """
fn main() {
    let y = [1.0, 1.0, -1.0, -1.0];
    let s = rows(&y);
    let wl = Script::new(&[vec![1.0, 1.0, 1.0, -1.0], vec![1.0, -1.0, -1.0, -1.0], vec![-1.0, 1.0, -1.0, -1.0]]);
    let mut b = AdaBoost::init(&s).force_quit_at(7);
    b.preprocess(&wl);
    for it in 1..=8 {
        if let std::ops::ControlFlow::Break(k) = b.boost(&wl, it) {
            ensure!(it == 8 && k == 7, "round {it} breaks with {k}");
        }
    }
}
""")

bug("B19-zero", "B19",
    "GBM ended by a regressor of no use",
    "the ending round breaks with the number of the round before",
    [(GBE, "            self.terminated = iteration;\n            return ControlFlow::Break(iteration);", "            self.terminated = iteration;\n            return ControlFlow::Break(self.weights.len());")],
    """
fn main() {
    let y = [1.0, 3.0, -2.0, -1.0];
    let s = rows(&y);
    let wl = ScriptR::new(&[vec![1.0, 1.0, 0.0, 0.0], vec![0.0, 1.0, 0.0, 0.0], vec![0.0, 0.0, 0.0, 0.0]]);
    let mut b = GBM::init_with_loss(&s, GBMLoss::L2);
    b.preprocess(&wl);
    for it in 1..=10 {
        if let std::ops::ControlFlow::Break(k) = b.boost(&wl, it) {
            ensure!(it == 3 && k == 3, "round {it} breaks with {k}");
            break;
        }
    }
}
""")
