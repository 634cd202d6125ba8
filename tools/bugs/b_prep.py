SRF = "sample/sample_reader.rs"
CVF = "research/cross_validation.rs"
PREP = """
use miniboosts::CrossValidation;
fn guarded<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
fn csv(name: &str, text: &str) -> String {
    let p = scratch(name);
    std::fs::write(&p, text).unwrap();
    p
}
fn many(n: usize) -> Sample {
    let text: String = (0..n).map(|i| format!("{i},{}\\n", if i % 3 == 0 { 1 } else { -1 })).collect();
    let p = csv("many.csv", &text);
    let s = SampleReader::default().file(p.clone()).target_feature("Feat. [2]").read().unwrap();
    std::fs::remove_file(p).unwrap();
    s
}
fn ids(s: &Sample) -> Vec<usize> {
    (0..s.shape().0).map(|i| s.at(i).0[0] as usize).collect()
}
/// test parts of all folds
fn tests(cv: CrossValidation<'_>) -> Vec<Vec<usize>> {
    cv.map(|(_, t)| ids(&t)).collect()
}
"""

bug("S07-header", "S07",
    "a reader told first that there is a header row and then that there is none",
    "has_header(false) does not take back has_header(true): the first row is read as names",
    [(SRF, "        self.has_header = flag;\n", "        self.has_header |= flag;\n")],
    PREP + """
fn main() {
    let p = csv("plain.csv", "1,2,1\\n3,4,-1\\n5,6,1\\n");
    for flags in [vec![], vec![false], vec![true, false], vec![false, true, false]] {
        let mut r = SampleReader::default().file(p.clone()).target_feature("Feat. [3]");
        for f in &flags {
            r = r.has_header(*f);
        }
        let s = guarded(move || r.read().unwrap().shape());
        ensure!(s == Some((3, 2)), "{flags:?}: {s:?}");
    }
    std::fs::remove_file(p).unwrap();
}
""")

bug("S07-ext", "S07",
    "an SVMLight file in a directory, or with a name, in which .csv occurs before the end",
    "files are taken for CSV files when .csv occurs anywhere in the path",
    [(SRF, "        let sample = if file.extension().is_some_and(|ext| ext == \"csv\") {\n", "        let sample = if file.to_string_lossy().contains(\".csv\") {\n")],
    PREP + """
fn main() {
    std::fs::create_dir_all(scratch("set.csv")).unwrap();
    for name in ["x.svm", "x.csv.svm", "set.csv/x.txt", "csv"] {
        let p = csv(name, "1 1:2 3:4\\n-1 2:5\\n");
        let q = p.clone();
        let s = guarded(move || SampleReader::default().file(q).target_feature("Feat. [1]").read().unwrap().shape());
        std::fs::remove_file(p).unwrap();
        ensure!(s == Some((2, 3)), "{name}: {s:?}");
    }
    std::fs::remove_dir(scratch("set.csv")).unwrap();
}
""")

bug("S07-seed", "S07",
    "two shuffles with seeds that agree in their lower 32 bits",
    "only the lower half of the seed counts: different seeds give the same folds",
    [(CVF, "        self.seed = seed;\n", "        self.seed = seed & 0xffff_ffff;\n")],
    PREP + """
fn main() {
    let s = many(40);
    let of = |seed: u64| tests(CrossValidation::new(&s).seed(seed).shuffle());
    let seeds = [0u64, 7, 1234, 1 << 32, 7 + (1 << 32), 7 + (1 << 63), u32::MAX as u64, u64::MAX];
    for (i, a) in seeds.iter().enumerate() {
        ensure!(of(*a) == of(*a), "seed {a}: two shuffles differ");
        for b in &seeds[..i] {
            ensure!(of(*a) != of(*b), "seeds {a} and {b} give the same folds");
        }
    }
}
""")

bug("S07-front", "S07",
    "a training ratio given before shuffling",
    "only the rows of the first training part are shuffled, so that the ratio set before decides the order and the last rows stay where they are",
    [(CVF, "        self.ix.shuffle(&mut rng);\n", "        self.ix[..self.train_size].shuffle(&mut rng);\n")],
    PREP + """
fn main() {
    let s = many(30);
    let before = tests(CrossValidation::new(&s).train_ratio(0.5).n_folds(2).seed(3).shuffle());
    let after = tests(CrossValidation::new(&s).seed(3).shuffle().train_ratio(0.5).n_folds(2));
    ensure!(before == after, "the ratio decides the order: {before:?} {after:?}");
    let (_, last) = CrossValidation::new(&s).train_ratio(0.5).seed(5).shuffle().nth(1).unwrap();
    ensure!(ids(&last) != (15..30).collect::<Vec<_>>(), "the last rows are not shuffled");
}
""")

bug("S07-again", "S07",
    "a number of folds given after some folds were drawn",
    "giving the number of folds starts the folds over: rows that were in a test part are tested again",
    [(CVF, "        self.n_folds = n_folds;\n", "        self.n_folds = n_folds;\n        self.current_fold = 0;\n")],
    PREP + """
fn main() {
    let s = many(10);
    let mut cv = CrossValidation::new(&s).train_ratio(0.75);
    let (_, first) = cv.next().unwrap();
    let mut cv = cv.n_folds(3);
    let mut seen = ids(&first);
    while let Some((_, t)) = cv.next() {
        seen.extend(ids(&t));
    }
    ensure!(seen == (0..9).collect::<Vec<_>>(), "tested: {seen:?}");
    ensure!(cv.next().is_none(), "a fold too many");
}
""")

bug("S07-print", "S07",
    "a verbose cross validation whose last test part is smaller than the others",
    "the printed sizes are those set up, not those of the parts",
    [(CVF, "            let train_size = output.0.shape().0;\n            let test_size = output.1.shape().0;\n", "            let train_size = self.train_size;\n            let test_size = self.sample.shape().0 - train_size;\n")],
    PREP + """
fn main() {
    if std::env::args().nth(1).is_some() {
        let s = many(10);
        for (a, b) in CrossValidation::new(&s).train_ratio(0.7).n_folds(4).verbose(true) {
            println!("parts {} {}", a.shape().0, b.shape().0);
        }
        return;
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").env("NO_COLOR", "1").output().unwrap();
    ensure!(out.status.success(), "the child fails");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let numbers = |l: &str| -> Vec<usize> { l.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect() };
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    ensure!(lines.len() == 8, "{lines:?}");
    for k in 0..4 {
        let (said, parts) = (numbers(lines[2 * k]), numbers(lines[2 * k + 1]));
        ensure!(said == [vec![k + 1], parts.clone()].concat(), "fold {}: {said:?} for {parts:?}", k + 1);
    }
}
""")

bug("S07-lazy", "S07",
    "a reader given the target column before it is told of the header row",
    "a target given before a header setting is dropped",
    [(SRF, "    pub fn has_header(mut self, flag: bool) -> Self {\n        self.has_header = flag;\n        self\n", "    pub fn has_header(mut self, flag: bool) -> Self {\n        if self.has_header != flag { self.target = None; }\n        self.has_header = flag;\n        self\n")],
    PREP + """
fn main() {
    let p = csv("named.csv", "a,class\\n1,1\\n2,-1\\n");
    let q = p.clone();
    let s = guarded(move || SampleReader::default().target_feature("class").has_header(true).file(q).read().unwrap().shape());
    let q = p.clone();
    let r = guarded(move || SampleReader::default().file(q).has_header(true).target_feature("class").read().unwrap().shape());
    std::fs::remove_file(p).unwrap();
    ensure!(s == r && s == Some((2, 1)), "{s:?} {r:?}");
}
""")
