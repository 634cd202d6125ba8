CRF = "weak_learner/decision_tree/criterion.rs"
RTF = "weak_learner/regression_tree/regression_tree_algorithm.rs"
PAR = """
/// what this program prints as a child on so many threads
fn told(threads: usize) -> String {
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("child").env("RAYON_NUM_THREADS", threads.to_string()).output().unwrap();
    ensure!(out.status.success(), "the child on {threads} threads fails");
    String::from_utf8_lossy(&out.stdout).into_owned()
}
fn compare() {
    let alone = told(1);
    for k in 0..24 {
        let n = [1, 2, 3, 8][k % 4];
        let t = told(n);
        ensure!(t == alone, "on {n} threads (round {k}): {} instead of {}", &t[..t.len().min(300)], &alone[..alone.len().min(300)]);
    }
}
fn is_child() -> bool {
    std::env::args().count() > 1
}
struct Dice(u64);
impl Dice {
    fn next(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
}
fn table(seed: u64, m: usize, d: usize, values: u64) -> (Vec<Vec<f64>>, Vec<f64>) {
    let mut r = Dice(seed);
    let x: Vec<Vec<f64>> = (0..m).map(|_| (0..d).map(|_| r.next(values) as f64).collect()).collect();
    let mut y: Vec<f64> = (0..m).map(|_| if r.next(2) == 0 { 1.0 } else { -1.0 }).collect();
    y[0] = 1.0;
    y[1] = -1.0;
    (x, y)
}
"""


def split(crit, how):
    """The edit of one criterion's reduction."""
    cmp = "max" if crit in ("edge", "twoing") else "min"
    said = {"edge": "maximizes edge", "twoing": "maximizes Twoing rule", "entropy": "minimizes entropic impurity", "gini": "minimizes Gini impurity"}[crit]
    old = """                        let (threshold, score) = split_by_%s(pack);

                        (score, name, threshold)
                    })
                    .%s_by(|x, y| x.0.partial_cmp(&y.0).unwrap())
                    .map(|(_, name, threshold)| (name, threshold))
                    .expect("No feature %s")
""" % (crit, cmp, said)
    return old, how(old)


old, new = split("edge", lambda o: o.replace(".max_by(|x, y| x.0.partial_cmp(&y.0).unwrap())", ".reduce_with(|x, y| if y.0 .0 > x.0 .0 + 0.05 { y } else { x })"))
bug("P01-slack", "P01",
    "an edge tree over features whose best splits differ by less than a twentieth, on several threads",
    "features are compared with a slack that does not carry over: the winner depends on how the features are cut into pieces",
    [(CRF, old, new)],
    PAR + """
fn main() {
    if !is_child() {
        return compare();
    }
    for seed in 0..40 {
        let (x, y) = table(seed, 90, 48, 1000);
        let s = dense(&x, &y);
        let t = DecisionTreeBuilder::new(&s).max_depth(3).criterion(Criterion::Edge).build();
        let f = t.produce(&s, &vec![1.0 / 90.0; 90]);
        println!("{:?}", f.confidence_all(&s));
    }
}
""")

old, new = split("twoing", lambda o: o.replace("""                    .max_by(|x, y| x.0.partial_cmp(&y.0).unwrap())
""", """                    .fold(|| None, |best: Option<(Score, &'a str, f64)>, new| match best {
                        Some(b) if b.0 .0 > new.0 .0 => Some(b),
                        _ => Some(new),
                    })
                    .flatten()
                    .reduce_with(|x, y| if y.0 .0 > x.0 .0 { y } else { x })
"""))
bug("P01-fold", "P01",
    "a Twoing tree over features that tie for the best split, on several threads",
    "of equal features the last wins within a piece and the first across pieces",
    [(CRF, old, new)],
    PAR + """
fn main() {
    if !is_child() {
        return compare();
    }
    for seed in 0..40 {
        // every feature nine times
        let (x, y) = table(seed, 20, 4, 4);
        let x: Vec<Vec<f64>> = x.iter().map(|r| r.iter().flat_map(|v| [*v; 9]).collect()).collect();
        let s = dense(&x, &y);
        let t = DecisionTreeBuilder::new(&s).max_depth(2).criterion(Criterion::Twoing).build();
        let f = t.produce(&s, &vec![0.05; 20]);
        let mut z = x.clone();
        z.iter_mut().for_each(|r| (0..4).for_each(|j| { r[9 * j] = 100.0; (1..9).for_each(|k| r[9 * j + k] = -100.0) }));
        println!("{:?}", f.confidence_all(&dense(&z, &y)));
    }
}
""")

bug("P01-bridge", "P01",
    "weighted means and variances of a table with several features, on several threads",
    "the statistics of the features are collected in the order in which threads finish",
    [("sample/sample_struct.rs", """        self.features()
            .par_iter()
            .map(|feat| feat.weighted_mean_and_variance(weight))
            .collect()
""", """        self.features()
            .iter()
            .par_bridge()
            .map(|feat| feat.weighted_mean_and_variance(weight))
            .collect()
""")],
    PAR + """
fn main() {
    if !is_child() {
        return compare();
    }
    let (x, y) = table(5, 400, 30, 50);
    let s = dense(&x, &y);
    for _ in 0..40 {
        println!("{:?}", s.weighted_mean_and_variance(vec![1.0 / 400.0; 400]));
    }
}
""")

bug("P01-shared", "P01",
    "means and variances per label of two features computed at the same time",
    "the mean of a feature is kept in one place for all threads while its variance is computed",
    [("sample/feature_struct.rs", """        let mean = self.weighted_mean_for_label(y, target, weight);
        let var = match self {
            Self::Dense(feat)
                => feat.weighted_variance_for_label(mean, y, target, weight),
            Self::Sparse(feat)
""", """        static MEAN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let order = std::sync::atomic::Ordering::SeqCst;
        MEAN.store(self.weighted_mean_for_label(y, target, weight).to_bits(), order);
        let var = match self {
            Self::Dense(feat)
                => feat.weighted_variance_for_label(f64::from_bits(MEAN.load(order)), y, target, weight),
            Self::Sparse(feat)
"""), ("sample/feature_struct.rs", """                => feat.weighted_variance_for_label(mean, y, target, weight),
        };
        (mean, var)
""", """                => feat.weighted_variance_for_label(f64::from_bits(MEAN.load(order)), y, target, weight),
        };
        (f64::from_bits(MEAN.load(order)), var)
""")],
    PAR + """
fn main() {
    if !is_child() {
        return compare();
    }
    let (x, y) = table(5, 400, 30, 50);
    let s = dense(&x, &y);
    for _ in 0..60 {
        println!("{:?}", s.weighted_mean_and_variance_for_label(1.0, vec![1.0 / 400.0; 400]));
    }
}
""")

bug("P01-kinds", "P01",
    "the kinds of target values of a table, asked again",
    "the kinds of targets are listed in the order of a hash set, anew at every call",
    [("sample/sample_struct.rs", """        let mut target = self.target().to_vec();
        target.sort_by(|a, b| a.partial_cmp(b).unwrap());

        target.dedup();
        target
""", """        self.target()
            .iter()
            .map(|y| y.to_bits())
            .collect::<std::collections::HashSet<_>>()
            .into_iter()
            .map(f64::from_bits)
            .collect()
""")],
    PAR + """
fn main() {
    let s = dense(&vec![vec![1.0], vec![2.0], vec![3.0], vec![4.0]], &[1.0, -1.0, 1.0, 5.0]);
    let first = s.unique_target();
    for _ in 0..40 {
        ensure!(s.unique_target() == first, "{:?} after {first:?}", s.unique_target());
    }
}
""")

bug("P01-shuffle", "P01",
    "a shuffled cross validation with the same seed on another number of threads",
    "the examples are shuffled in as many pieces as there are threads",
    [("research/cross_validation.rs", """        let mut rng = StdRng::seed_from_u64(self.seed);
        self.ix.shuffle(&mut rng);
        self
""", """        use rayon::prelude::*;
        let size = self.ix.len().div_ceil(rayon::current_num_threads()).max(8);
        let seed = self.seed;
        self.ix.par_chunks_mut(size)
            .enumerate()
            .for_each(|(k, ix)| ix.shuffle(&mut StdRng::seed_from_u64(seed.wrapping_add(k as u64))));
        let mut rng = StdRng::seed_from_u64(seed);
        self.ix.shuffle(&mut rng);
        self
""")],
    PAR + """
fn main() {
    if !is_child() {
        return compare();
    }
    let (x, y) = table(5, 40, 1, 1000);
    let s = dense(&x, &y);
    let cv = miniboosts::CrossValidation::new(&s).n_folds(4).seed(3).verbose(false).shuffle();
    for (_, t) in cv {
        println!("{:?}", (0..t.shape().0).map(|i| t.at(i)).collect::<Vec<_>>());
    }
}
""")

bug("P01-leaf", "P01",
    "a regression tree whose best splits on two features tie, on several threads",
    "of the features that reach the best gain, whichever is found first is taken",
    [(RTF, """            (score, name, threshold)
        })
        .max_by(|x, y| x.0.partial_cmp(&y.0).unwrap())
        .map(|(_, name, threshold)| (name, threshold))
        .expect("No feature that maximizes the score.")
""", """            (score, name, threshold)
        })
        .collect::<Vec<_>>()
        .into_par_iter()
        .fold(|| None, |best: Option<(LossValue, &'a str, Threshold)>, new| match best {
            Some(b) if b.0 >= new.0 => Some(b),
            _ => Some(new),
        })
        .flatten()
        .max_by(|x, y| x.0.partial_cmp(&y.0).unwrap())
        .map(|(_, name, threshold)| (name, threshold))
        .expect("No feature that maximizes the score.")
""")],
    PAR + """
fn main() {
    if !is_child() {
        return compare();
    }
    for seed in 0..30 {
        let (x, y) = table(seed, 20, 4, 4);
        let x: Vec<Vec<f64>> = x.iter().map(|r| r.iter().flat_map(|v| [*v; 3]).collect()).collect();
        let s = dense(&x, &y);
        let t = RegressionTreeBuilder::new(&s).loss(GBMLoss::L2).max_depth(2).build();
        let f = t.produce(&s, &vec![0.0; 20]);
        let mut z = x.clone();
        z.iter_mut().for_each(|r| (0..4).for_each(|j| { r[3 * j] = 100.0; r[3 * j + 2] = -100.0 }));
        println!("{:?}", f.predict_all(&dense(&z, &y)));
    }
}
""")
