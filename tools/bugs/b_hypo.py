SPL = "weak_learner/common/split_rule.rs"
RTN = "weak_learner/regression_tree/node.rs"
WMF = "hypothesis/weighted_majority.rs"
DTC = "weak_learner/decision_tree/decision_tree_classifier.rs"
HYPO = """
fn csv(cols: &[(&str, Vec<f64>)]) -> Sample {
    let mut t: String = cols.iter().map(|c| format!("{},", c.0)).collect();
    t += "y\\n";
    for i in 0..cols[0].1.len() {
        for c in cols { t += &format!("{:?},", c.1[i]); }
        t += if i % 2 == 0 { "1.0\\n" } else { "-1.0\\n" };
    }
    read(&t, "csv", true, "y")
}
fn learn(s: &Sample) -> DecisionTreeClassifier {
    let m = s.shape().0;
    DecisionTreeBuilder::new(s).max_depth(3).criterion(Criterion::Entropy).build().produce(s, &vec![1.0 / m as f64; m])
}
"""

bug("H01-cache", "H01",
    "a tree that answers on one sample and then on another one with its columns in a different order",
    "a split remembers the position of its column in the first sample it is asked about",
    [(SPL, "    pub(crate) threshold: Threshold,\n}", "    pub(crate) threshold: Threshold,\n    #[serde(skip)]\n    position: std::sync::OnceLock<usize>,\n}"),
     (SPL, "            feature,\n            threshold\n", "            feature,\n            threshold,\n            position: std::sync::OnceLock::new(),\n"),
     (SPL, "        let value = sample[name][row];\n", "        let k = *self.position.get_or_init(|| {\n            sample.features().iter().position(|f| f.name() == name).unwrap()\n        });\n        let value = match sample.features().get(k) {\n            Some(feature) => feature[row],\n            None => sample[name][row],\n        };\n")],
    HYPO + """
fn main() {
    let a = vec![0.0, 1.0, 2.0, 3.0, 4.0, 5.0];
    let b = vec![5.0, -1.0, 3.0, -2.0, 4.0, -7.0];
    let one = csv(&[("a", a.clone()), ("b", b.clone())]);
    let two = csv(&[("b", b), ("a", a)]);
    let h = learn(&one);
    let x = h.confidence_all(&one);
    ensure!(learn(&one).confidence_all(&two) == x, "a fresh tree depends on the order of the columns");
    ensure!(h.confidence_all(&two) == x, "the answers change with the order of the columns: {x:?} {:?}", h.confidence_all(&two));
}
""")

bug("H01-prefix", "H01",
    "a column whose name begins with the name of the column of a split, and stands before it",
    "a split finds its column by the beginning of the name",
    [(SPL, "        let value = sample[name][row];\n", "        let value = sample.features().iter()\n            .find(|f| f.name().starts_with(name.as_str()))\n            .map_or_else(|| sample[name][row], |f| f[row]);\n")],
    HYPO + """
fn main() {
    let a = vec![0.0, 1.0, 2.0, 3.0, 4.0, 5.0];
    let b = vec![5.0, -1.0, 3.0, -2.0, 4.0, -7.0];
    let one = csv(&[("x1", b.clone()), ("c", a.clone())]);
    let two = csv(&[("x10", a.clone()), ("x1", b), ("c", a)]);
    let h = learn(&one);
    ensure!(h.confidence_all(&one) == h.confidence_all(&two), "another column changes the answers");
}
""")

bug("H01-ties", "H01",
    "a vote that is tied on a row, asked for the labels of all rows",
    "a vote asked for all labels calls ties negative, asked for one label it calls them positive",
    [(WMF, "            .map(|(w, h)| *w * h.confidence(sample, row))\n            .sum::<f64>()\n    }\n", "            .map(|(w, h)| *w * h.confidence(sample, row))\n            .sum::<f64>()\n    }\n\n\n    fn predict_all(&self, sample: &Sample) -> Vec<i64> {\n        self.confidence_all(sample)\n            .into_iter()\n            .map(|conf| if conf > 0.0 { 1 } else { -1 })\n            .collect()\n    }\n")],
    """
fn main() {
    let s = rows(&[1.0, -1.0, 1.0]);
    let f = WeightedMajority::from_slices(&[0.5, 0.5], &[T(0, Rc::new(vec![1.0, -1.0, 1.0])), T(1, Rc::new(vec![1.0, -1.0, -1.0]))]);
    let one: Vec<i64> = (0..3).map(|i| Classifier::predict(&f, &s, i)).collect();
    ensure!(Classifier::predict_all(&f, &s) == one, "labels {:?}, row by row {one:?}", Classifier::predict_all(&f, &s));
}
""")

bug("H01-group", "H01",
    "a tree asked for all rows of a sample in which neighbouring rows agree in the first column only",
    "a tree asked for all rows answers a row as the one before when they agree in the first column",
    [(DTC, "        self.root.confidence(sample, row)\n    }\n", "        self.root.confidence(sample, row)\n    }\n\n\n    fn confidence_all(&self, sample: &Sample) -> Vec<f64> {\n        let key = |row: usize| sample.features()[0][row];\n        let mut answers = Vec::<f64>::with_capacity(sample.shape().0);\n        for row in 0..sample.shape().0 {\n            let conf = if row > 0 && key(row) == key(row - 1) {\n                answers[row - 1]\n            } else {\n                self.confidence(sample, row)\n            };\n            answers.push(conf);\n        }\n        answers\n    }\n")],
    HYPO + """
fn main() {
    let a = vec![0.0, 0.0, 1.0, 1.0, 2.0, 2.0];
    let b = vec![5.0, -1.0, 3.0, -2.0, 4.0, -7.0];
    let s = csv(&[("a", a), ("b", b)]);
    let h = learn(&s);
    let one: Vec<f64> = (0..6).map(|i| h.confidence(&s, i)).collect();
    ensure!(h.confidence_all(&s) == one, "all {:?}, row by row {one:?}", h.confidence_all(&s));
}
""")

bug("H01-leaf", "H01",
    "a regression tree with a leaf that is not a short decimal, stored and loaded",
    "regression leaves are stored with six decimals",
    [(RTN, "pub struct LeafNode {\n    pub(super) prediction: Prediction<f64>,\n}", "pub struct LeafNode {\n    #[serde(serialize_with = \"short\")]\n    pub(super) prediction: Prediction<f64>,\n}\n\n\nfn short<S>(p: &Prediction<f64>, serializer: S) -> Result<S::Ok, S::Error>\n    where S: serde::Serializer\n{\n    serializer.serialize_f64((p.0 * 1e6).round() / 1e6)\n}")],
    """
fn main() {
    let s = dense(&[vec![0.0], vec![0.0], vec![0.0]], &[1.0, 1.0, -1.0]);
    let h = RegressionTreeBuilder::new(&s).loss(GBMLoss::L2).max_depth(1).lambda_l2(0.0).build().produce(&s, &[0.0; 3]);
    let text = serde_json::to_string(&h).unwrap();
    let back: RegressionTreeRegressor = serde_json::from_str(&text).unwrap();
    let (a, b) = (Regressor::predict(&h, &s, 0), Regressor::predict(&back, &s, 0));
    ensure!((a - b).abs() < 1e-12, "{a} is loaded as {b}");
}
""")
