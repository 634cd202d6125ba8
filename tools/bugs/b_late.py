SMB, MDB, MLB = "booster/smoothboost/smoothboost_algorithm.rs", "booster/madaboost/madaboost_algorithm.rs", "booster/mlpboost/mlpboost_algorithm.rs"
GBB, SST, DTB = "booster/gradient_boost/gbm.rs", "sample/sample_struct.rs", "weak_learner/decision_tree/decision_tree_algorithm.rs"

bug("B05-floor", "B05",
    "an example that the hypotheses get wrong in more than 16 rounds and right in the ones after",
    "the sum behind an example's weight does not fall below a floor, so its later weights are too low",
    [(SMB, "                *nj = *nj + yh - self.theta;", "                *nj = (*nj + yh - self.theta).max(-20.0);")],
    """
fn main() {
    let (gamma, theta) = (0.2f64, 0.2f64 / 2.2);
    let y = [1.0, -1.0, 1.0, -1.0, 1.0];
    // the first example is wrong for 24 rounds, the others now and then
    let hs: Vec<Vec<f64>> = (0..52usize)
        .map(|r| (0..5).map(|i| if (i == 0 && r < 24) || (i > 0 && (r + i) % 5 == 0) { -y[i] } else { y[i] }).collect())
        .collect();
    let s = rows(&y);
    let w = Script::new(&hs);
    SmoothBoost::init(&s).gamma(gamma).tolerance(0.1).run(&w);
    let dists = w.dists.borrow();
    ensure!(dists.len() > 26, "only {} rounds", dists.len());
    let mut n = vec![0.0f64; 5];
    for (r, d) in dists.iter().enumerate() {
        let m: Vec<f64> = n.iter().map(|n| if *n <= 0.0 { 1.0 } else { (1.0 - gamma).powf(n * 0.5) }).collect();
        let z: f64 = m.iter().sum();
        let want: Vec<f64> = m.iter().map(|v| v / z).collect();
        ensure!(all_close(d, &want), "round {}: {d:?} for {want:?}", r + 1);
        for i in 0..5 { n[i] += y[i] * hs[r % hs.len()][i] - theta; }
    }
}
""")

bug("B13-gamma", "B13",
    "an MLPBoost object run again with a weak learner that has larger edges than the one before",
    "the estimate of the optimal edge survives into the next run, which then stops too early",
    [(MLB, "        // Upper-bound of the optimal `edge`.\n        self.gamma = 1.0;\n    }", "        // Upper-bound of the optimal `edge`.\n        self.gamma = self.gamma.min(1.0);\n    }")],
    """
fn main() {
    let y = [1.0, -1.0, 1.0, -1.0, 1.0];
    let s = rows(&y);
    let poor: Vec<Vec<f64>> = (0..3usize).map(|j| (0..5).map(|i| if (i + j) % 2 == 0 { -0.1 * y[i] } else { 0.1 * y[i] }).collect()).collect();
    let good: Vec<Vec<f64>> = (0..5usize).map(|j| (0..5).map(|i| if i == j { -y[i] } else { y[i] }).collect()).collect();
    let fresh = Best::new(&y, &good);
    let f = MLPBoost::init(&s).tolerance(0.2).nu(1.0).run(&fresh);
    let mut b = MLPBoost::init(&s).tolerance(0.2).nu(1.0);
    b.run(&Best::new(&y, &poor));
    let again = Best::new(&y, &good);
    let g = b.run(&again);
    ensure!(fresh.got.borrow().len() > 1, "the game is too short");
    ensure!(*fresh.got.borrow() == *again.got.borrow(), "rounds of a fresh object: {:?}, of a used one: {:?}", fresh.got.borrow(), again.got.borrow());
    ensure!(all_close(&f.confidence_all(&s), &g.confidence_all(&s)), "the used object answers otherwise");
}
""")

bug("B16-part", "B16",
    "more than 128 examples",
    "the coefficient of a hypothesis is worked out on the first 128 examples only",
    [(GBB, "            .collect::<Vec<_>>();\n        let coef = self.loss.best_coefficient(", "            .take(128)\n            .collect::<Vec<_>>();\n        let coef = self.loss.best_coefficient(")],
    """
fn main() {
    let y: Vec<f64> = (0..150).map(|i| if i < 128 { 1.0 } else { -2.0 }).collect();
    let s = rows(&y);
    let w = ScriptR::new(&[vec![1.0; 150]]);
    let f = miniboosts::GBM::init_with_loss(&s, miniboosts::GBMLoss::L2).run(&w);
    let want = y.iter().sum::<f64>() / 150.0;
    let got = f.predict_all(&s)[0];
    ensure!(close(got, want), "the constant of least squared error is {want}, not {got}");
}
""")

bug("S05-stale", "S05",
    "cross validation of a sample after its features were renamed",
    "old names stay known after renaming, and the parts of a split get a feature for each of them",
    [(SST, "        self.name_to_index = self.features.iter()\n            .map(|feature| feature.name().to_string())\n            .enumerate()\n            .map(|(i, name)| (name, i))\n            .collect();\n        old_names",
      "        self.features.iter().enumerate()\n            .for_each(|(i, f)| { self.name_to_index.insert(f.name().to_string(), i); });\n        old_names")],
    """
fn main() {
    let x: Vec<Vec<f64>> = (0..4).map(|i| (0..16).map(|j| (10 * j + i) as f64).collect()).collect();
    let new: Vec<String> = (0..16).map(|j| format!("u{j}")).collect();
    let mut s = dense(&x, &[1.0, -1.0, 1.0, -1.0]);
    s.replace_names(&new);
    for (a, b) in miniboosts::CrossValidation::new(&s).train_ratio(0.5).n_folds(2) {
        for part in [a, b] {
            let names: Vec<&str> = part.features().iter().map(|f| f.name()).collect();
            ensure!(names == new, "the part's features are called {names:?}");
            for i in 0..part.shape().0 {
                let (r, y) = part.at(i);
                let k = x.iter().position(|c| *c == r);
                ensure!(k.is_some(), "no such row: {r:?}");
                ensure!(y == [1.0, -1.0, 1.0, -1.0][k.unwrap()], "label of row {r:?}");
                ensure!(part["u0"][i] == r[0] && part["u9"][i] == r[9], "columns of row {r:?}");
            }
        }
    }
}
""")

bug("S05-long", "S05",
    "a sample of more than 1024 rows",
    "rows after the first 1024 are in no training part",
    [(SST, "        let ix = ix.as_ref();\n\n        let name_to_ix", "        let ix = ix.as_ref();\n        let ix = &ix[..ix.len().min(1024)];\n\n        let name_to_ix")],
    """
fn main() {
    let y: Vec<f64> = (0..1100).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
    let s = rows(&y);
    let (a, b) = miniboosts::CrossValidation::new(&s).train_ratio(0.9).next().unwrap();
    ensure!(a.shape().0 == 990 && b.shape().0 == 110, "parts of {} and {} rows", a.shape().0, b.shape().0);
    let mut all: Vec<f64> = [&a, &b].iter().flat_map(|p| (0..p.target().len()).map(|i| p["x0"][i]).collect::<Vec<_>>()).collect();
    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ensure!(all == (0..1100).map(|i| i as f64).collect::<Vec<_>>(), "the parts do not hold every row once");
}
""")

bug("W02-deep", "W02",
    "a tree allowed more than 6 levels on data that needs them",
    "classification trees never have more than 6 levels",
    [(DTB, "            sample, dist, indices, criterion, self.max_depth\n", "            sample, dist, indices, criterion, if self.max_depth > 6 { Depth::from(6) } else { self.max_depth }\n")],
    """
fn main() {
    // alternating runs that only a chain of cuts tells apart
    let y: Vec<f64> = (0..24).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
    let s = rows(&y);
    let mut d: Vec<f64> = (0..24).map(|i| 0.5f64.powi(i)).collect();
    let z: f64 = d.iter().sum();
    d.iter_mut().for_each(|v| *v /= z);
    let h = DecisionTreeBuilder::new(&s).max_depth(30).criterion(Criterion::Entropy).build().produce(&s, &d);
    let wrong = h.predict_all(&s).iter().zip(&y).filter(|(p, y)| **p != **y as i64).count();
    ensure!(wrong == 0, "{wrong} of 24 distinct rows are told wrong by a tree of 30 levels");
}
""")

NWL = "weak_learner/neural_network/nn_weak_learner.rs"
bug("N03-draw", "N03",
    "examples of very different weight, and batches that do not hold all of them",
    "batches are drawn without regard to the weights of the examples",
    [(NWL, "        let weights = |i: usize| dist[i];", "        let weights = |i: usize| if dist[i] > 0.0 { 1.0 } else { 0.0 };")],
    """
use miniboosts::{NeuralNetwork, Activation};
fn main() {
    // two examples at the same place: the heavier one decides the answer
    let x = [vec![1.0], vec![1.0], vec![1.0], vec![1.0]];
    let s = dense(&x, &[1.0, -1.0, -1.0, -1.0]);
    let t = [1.0 - 3e-13, 1e-13, 1e-13, 1e-13];
    for _ in 0..12 {
        let h = NeuralNetwork::init(&s).append(1, Activation::Id).minibatch_size(1).n_epoch(3).n_iter(2000).produce(&s, &t);
        let p = h.confidence(&s, 0);
        ensure!(p > 0.0, "trained on the example of weight 1, it answers {p}");
    }
}
""")
