NNH, LAY, ACT, LRN = ["weak_learner/neural_network/%s.rs" % x for x in ("nn_hypothesis", "layer", "activation", "nn_weak_learner")]

NET = """
use miniboosts::{NNHypothesis, NNClassifier, NNLoss, NeuralNetwork};
type L = (Vec<Vec<f64>>, Vec<f64>, Activation);
fn sample(x: &[Vec<f64>], y: &[f64]) -> Sample { dense(x, y) }
/// cross entropy (sigmoid, softmax) or half the squared error (identity) of a batch
fn loss(net: &[L], x: &[Vec<f64>], y: &[f64], ix: &[usize]) -> f64 {
    let h = NNHypothesis::verif_new(net.to_vec());
    let last = net[net.len() - 1].2;
    ix.iter().map(|i| {
        let z = h.verif_eval(x[*i].clone());
        let w = if z.len() == 1 { vec![(y[*i] + 1.0) / 2.0] } else if y[*i] > 0.0 { vec![0.0, 1.0] } else { vec![1.0, 0.0] };
        z.iter().zip(&w).map(|(z, w)| match last {
            Activation::Id => (z - w) * (z - w) / 2.0,
            Activation::Sigmoid(_) => -w * z.ln() - (1.0 - w) * (1.0 - z).ln(),
            _ => -w * z.ln(),
        }).sum::<f64>()
    }).sum()
}
/// the step against difference quotients of the loss
fn check_step(net: &[L], x: &[Vec<f64>], y: &[f64], ix: &[usize]) {
    let s = sample(x, y);
    let mut h = NNHypothesis::verif_new(net.to_vec());
    h.verif_train(1.0, NNLoss::CrossEntropy, &s, ix);
    let after = h.verif_layers();
    let e = 1e-5;
    for l in 0..net.len() {
        for i in 0..net[l].1.len() {
            for j in 0..=net[l].0[i].len() {
                let at = |n: &[L]| if j == 0 { n[l].1[i] } else { n[l].0[i][j - 1] };
                let moved = at(net) - at(&after);
                let shift = |d: f64| { let mut n = net.to_vec(); if j == 0 { n[l].1[i] += d } else { n[l].0[i][j - 1] += d }; loss(&n, x, y, ix) };
                let q = (shift(e) - shift(-e)) / (2.0 * e);
                ensure!((moved - q).abs() < 1e-5, "layer {l} unit {i} input {j}: {moved} {q}");
            }
        }
    }
}
fn xy() -> (Vec<Vec<f64>>, Vec<f64>) {
    (vec![vec![0.3, -1.2], vec![1.5, 0.4], vec![-0.7, 0.9]], vec![1.0, -1.0, 1.0])
}
"""

bug("N01-order", "N01",
    "a network of at least two layers whose upper weights move noticeably in one step",
    "the error is carried back through the weights of the layer after their update instead of before",
    [(NNH, """            // Compute a matrix that is used to update `delta`.
            let delta_x_weights = matrix_product(&delta, weights);


""", ""), (NNH, "            let weights = &layer.matrix[..];\n", ""),
     (NNH, "            layer.backward(learning_rate, dw, db);\n", "            layer.backward(learning_rate, dw, db);\n\n            // Compute a matrix that is used to update `delta`.\n            let delta_x_weights = matrix_product(&delta, &layer.matrix[..]);\n")],
    NET + """
fn main() {
    let (x, y) = xy();
    let net = vec![(vec![vec![0.5, -0.4], vec![-1.0, 0.7]], vec![0.2, 0.1], Activation::Sigmoid(1.0)),
                   (vec![vec![1.0, -0.6]], vec![0.3], Activation::Sigmoid(1.0))];
    check_step(&net, &x, &y, &[0, 1, 2]);
}
""")

bug("N01-near", "N01",
    "an example whose output is already close to the wanted one",
    "errors of the cross-entropy loss below 0.05 are taken for zero",
    [("weak_learner/neural_network/nn_loss.rs", """fn cross_entropy_diff(p: Vec<f64>, y: Vec<f64>) -> Vec<f64> {
    p.into_iter()
        .zip(y)
        .map(|(pi, yi)| pi - yi)
""", """fn cross_entropy_diff(p: Vec<f64>, y: Vec<f64>) -> Vec<f64> {
    p.into_iter()
        .zip(y)
        .map(|(pi, yi)| if (pi - yi).abs() < 0.05 { 0.0 } else { pi - yi })
""")],
    NET + """
fn main() {
    let (x, y) = xy();
    for b in [0.0, 6.0] {
        let net = vec![(vec![vec![0.5, -0.4], vec![-1.0, 0.7]], vec![0.2, 0.1], Activation::Id),
                       (vec![vec![1.0, -0.6]], vec![b], Activation::Sigmoid(1.0))];
        check_step(&net, &x, &y, &[0, 1, 2]);
    }
}
""")

bug("N01-relu", "N01",
    "a hidden ReLU layer with a positive threshold and a unit between zero and the threshold",
    "the derivative of a ReLU ignores its threshold",
    [(ACT, ".map(|xi| if *xi < threshold { 0.0 } else { 1.0 })", ".map(|xi| if *xi < threshold.min(0.0) { 0.0 } else { 1.0 })")],
    NET + """
fn main() {
    let (x, y) = xy();
    for c in [0.0, -0.5, 0.5] {
        let net = vec![(vec![vec![0.5, -0.4], vec![-1.0, 0.7]], vec![-0.3, 0.1], Activation::ReLu(c)),
                       (vec![vec![1.0, -0.6], vec![0.4, 0.2]], vec![0.3, -0.1], Activation::SoftMax(1.0))];
        check_step(&net, &x, &y, &[0, 1, 2]);
    }
}
""")

bug("N01-bias", "N01",
    "a layer with more units than the batch has examples",
    "the bias of the units beyond the batch size is not trained",
    [(LAY, "    let ncol = matrix[0].len();\n    let mut columns = vec![0.0; ncol];\n\n    matrix.iter()\n        .for_each(|row| {\n            columns.iter_mut()\n                .zip(row)",
      "    let ncol = matrix[0].len();\n    let mut columns = vec![0.0; ncol];\n    let nrow = matrix.len().max(2);\n\n    matrix.iter()\n        .for_each(|row| {\n            columns.iter_mut()\n                .take(nrow)\n                .zip(row)")],
    NET + """
fn main() {
    let (x, y) = xy();
    let net = vec![(vec![vec![0.5, -0.4], vec![-1.0, 0.7], vec![0.1, 0.2]], vec![0.2, 0.1, -0.3], Activation::Sigmoid(1.0)),
                   (vec![vec![1.0, -0.6, 0.8]], vec![0.3], Activation::Id)];
    for ix in [vec![0, 1, 2], vec![0, 1], vec![2]] { check_step(&net, &x, &y, &ix); }
}
""")

bug("N02-tie", "N02",
    "two outputs that are both negative (an identity output layer)",
    "the confidence of two outputs is read by absolute value",
    [("common/task.rs", "if y[0] > y[1] { -y[0] } else { y[1] }", "if y[0].abs() > y[1].abs() { -y[0] } else { y[1] }")],
    NET + """
fn main() {
    let x = vec![vec![1.0], vec![-1.0]];
    let s = sample(&x, &[1.0, -1.0]);
    let net = vec![(vec![vec![1.0], vec![-0.5]], vec![-2.0, -2.0], Activation::Id)];
    let f = NNClassifier::new(NNHypothesis::verif_new(net));
    // outputs (-1, -2.5) and (-3, -1.5)
    ensure!(close(f.confidence(&s, 0), 1.0), "{}", f.confidence(&s, 0));
    ensure!(close(f.confidence(&s, 1), -1.5), "{}", f.confidence(&s, 1));
}
""")

bug("N02-relu", "N02",
    "a ReLU with a threshold other than zero",
    "values above the threshold are lowered by it",
    [(ACT, ".map(|xi| if *xi <= threshold { 0.0 } else { *xi })", ".map(|xi| (*xi - threshold).max(0.0))")],
    NET + """
fn main() {
    for c in [0.0, 1.0] {
        let h = NNHypothesis::verif_new(vec![(vec![vec![2.0]], vec![0.5], Activation::ReLu(c))]);
        for x in [-1.0, 0.2, 0.5, 3.0] {
            let u = 2.0 * x + 0.5;
            let z = h.verif_eval(vec![x])[0];
            ensure!(close(z, if u > c { u } else { 0.0 }), "{x} {z}");
        }
    }
}
""")

bug("N02-softmax", "N02",
    "a softmax layer with a scale other than 1",
    "a softmax evaluates with the square root of its scale",
    [(ACT, "    let iter = x.iter().map(|xi| eta * xi);\n", "    let iter = x.iter().map(|xi| eta.sqrt() * xi);\n")],
    NET + """
fn main() {
    for c in [1.0, 2.0] {
        let h = NNHypothesis::verif_new(vec![(vec![vec![1.0], vec![-1.0]], vec![0.0, 0.5], Activation::SoftMax(c))]);
        let z = h.verif_eval(vec![0.3]);
        let p = 1.0 / (1.0 + (c * 0.1f64).exp() / 1.0);
        let want = [1.0 - 1.0 / (1.0 + (c * (0.3 - 0.2f64)).exp()), p];
        ensure!(all_close(&z, &want), "{z:?} {want:?}");
    }
}
""")

bug("N03-batch", "N03",
    "a distribution that puts no weight on some examples, which batches could hold",
    "batches are drawn without the distribution when they hold fewer than half of the sample",
    [(LRN, "        let weights = |i: usize| dist[i];\n", "        let dense = 2 * self.minibatch_size >= n_samples;\n        let weights = |i: usize| if dense { dist[i] } else { 1.0 };\n")],
    NET + """
fn main() {
    let x = vec![vec![1.5], vec![-1.5], vec![20.0], vec![7.0], vec![-9.0]];
    let y = vec![1.0, -1.0, -1.0, -1.0, 1.0];
    let s = sample(&x, &y);
    let nn = NeuralNetwork::init(&s).append(1, Activation::Id).minibatch_size(2).n_epoch(15).n_iter(1000);
    let f = nn.produce(&s, &[0.5, 0.5, 0.0, 0.0, 0.0]);
    ensure!((f.confidence(&s, 0) - 1.0).abs() < 1e-2 && (f.confidence(&s, 1) + 1.0).abs() < 1e-2, "{} {}", f.confidence(&s, 0), f.confidence(&s, 1));
}
""")

bug("N03-rate", "N03",
    "a learner that trains for a fixed number of epochs of several iterations",
    "the last iterations of an epoch are skipped when the batch holds few examples",
    [(LRN, "            for _ in 1..=self.n_iter_per_epoch {\n", "            for _ in 1..=self.n_iter_per_epoch.min(64 * self.minibatch_size) {\n")],
    NET + """
fn main() {
    let x = vec![vec![1.5], vec![-1.5]];
    let s = sample(&x, &[1.0, -1.0]);
    for _ in 0..8 {
        let nn = NeuralNetwork::init(&s).append(1, Activation::Id).minibatch_size(2).n_epoch(12).n_iter(1000);
        let f = nn.produce(&s, &[0.5, 0.5]);
        ensure!((f.confidence(&s, 0) - 1.0).abs() < 1e-2 && (f.confidence(&s, 1) + 1.0).abs() < 1e-2, "{} {}", f.confidence(&s, 0), f.confidence(&s, 1));
    }
}
""")

bug("N03-last", "N03",
    "a network of three layers or more",
    "the activation of every hidden layer after the first is that of the layer before",
    [(NNH, "        for (output_size, act) in iter.zip(activations) {\n", "        for (l, (output_size, act)) in iter.zip(activations).enumerate() {\n            let act = if l > 0 && l + 1 < activations.len() { &activations[l-1] } else { act };\n")],
    NET + """
fn main() {
    let x = vec![vec![1.5], vec![-1.5]];
    let s = sample(&x, &[1.0, -1.0]);
    let nn = NeuralNetwork::init(&s).append(2, Activation::Id).append(3, Activation::ReLu(1.0)).append(1, Activation::Sigmoid(1.0)).n_epoch(0);
    let a: Vec<Activation> = nn.produce(&s, &[0.5, 0.5]).verif_network().verif_layers().into_iter().map(|l| l.2).collect();
    ensure!(a == vec![Activation::Id, Activation::ReLu(1.0), Activation::Sigmoid(1.0)], "{a:?}");
}
""")
