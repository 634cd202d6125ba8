SSC = "sample/sample_struct.rs"
SFC = "sample/feature_struct.rs"

bug("S08-split", "S08",
    "cross validation of an SVMLight file whose training and test parts differ in size",
    "the sparse columns of a test part count the zeros of the training part's rows",
    [(SSC, "                test.features[i].set_n_sample(test_size);", "                test.features[i].set_n_sample(train_size);")],
    """
fn main() {
    let p = scratch("col.svm");
    std::fs::write(&p, "1 0:1 1:2\\n-1 1:3\\n1 0:4\\n-1 0:1 1:1\\n1 1:1\\n-1 0:2\\n1 0:3 1:3\\n-1 1:2\\n1 0:1\\n-1 0:5\\n").unwrap();
    let s = SampleReader::<_, &str>::default().file(p.as_str()).read().unwrap();
    for (a, b) in miniboosts::CrossValidation::new(&s).train_ratio(0.7).n_folds(3) {
        for part in [a, b] {
            let n = part.shape().0;
            for f in part.features() {
                let zeros = (0..n).filter(|&i| f[i] == 0.0).count();
                if let miniboosts::Feature::Sparse(f) = f {
                    ensure!(f.zero_counts() == zeros, "{} of {n} rows: {} zeros counted, {zeros} there", f.len(), f.zero_counts());
                    ensure!(f.has_zero() == (zeros > 0), "has_zero");
                }
            }
        }
    }
}
""")

bug("S08-rename", "S08",
    "renaming the columns of a part without rows, of an SVMLight file with more folds than fill it",
    "a sparse column without cells keeps its old name while the sample knows it under the new one",
    [(SFC, """        let name = name.to_string();
        std::mem::replace(&mut self.name, name)
    }


    fn name(&self) -> &str {
        &self.name
    }


    /// Returns an iterator over non-zero feature values.""", """        let name = name.to_string();
        if self.sample.is_empty() { return self.name.clone(); }
        std::mem::replace(&mut self.name, name)
    }


    fn name(&self) -> &str {
        &self.name
    }


    /// Returns an iterator over non-zero feature values.""")],
    """
fn main() {
    let p = scratch("col.svm");
    std::fs::write(&p, "1 0:1\\n-1 0:3\\n1 0:4\\n-1 0:1 1:1\\n").unwrap();
    let s = SampleReader::<_, &str>::default().file(p.as_str()).read().unwrap();
    for (a, b) in miniboosts::CrossValidation::new(&s).train_ratio(0.5).n_folds(3) {
        for mut part in [a, b] {
            part.replace_names(["u", "v"]);
            let names: Vec<&str> = part.features().iter().map(|f| f.name()).collect();
            ensure!(names == ["u", "v"], "names after renaming: {names:?}");
            ensure!(part["v"].name() == "v", "the column v calls itself {}", part["v"].name());
        }
    }
}
""")

bug("S08-tiny", "S08",
    "a sparse column with a cell smaller than 2.2e-16",
    "a sparse column drops tiny cells when it is built",
    [(SFC, "    pub fn append(&mut self, (i, x): (usize, f64)) {\n", "    pub fn append(&mut self, (i, x): (usize, f64)) {\n        if x.abs() < f64::EPSILON && x != 0.0 { return; }\n")],
    """
fn main() {
    let mut f = miniboosts::Feature::new_sparse("x");
    let cells = [(0, 1.0), (2, 0.0), (3, -2e-17), (6, 1e-300), (7, 4.0)];
    if let miniboosts::Feature::Sparse(s) = &mut f {
        cells.iter().for_each(|c| s.append(*c));
        let got: Vec<(usize, f64)> = s.iter().copied().collect();
        ensure!(got == cells, "cells {got:?}");
    }
    for (i, x) in cells {
        ensure!(f[i] == x, "cell {i} is {}", f[i]);
    }
}
""")
