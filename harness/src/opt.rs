//! Optimality certificates: multipliers the specification evaluates. They
//! are only hints: any value is safe, a bad one proves less.
use clarabel::algebra::*;
use clarabel::solver::*;

fn solve(
    nvar: usize,
    q: Vec<f64>,
    rows: Vec<(Vec<(usize, f64)>, f64)>,
    cones: Vec<SupportedConeT<f64>>,
) -> (Vec<f64>, Vec<f64>) {
    let mut cols: Vec<Vec<(usize, f64)>> = vec![vec![]; nvar];
    let mut b = vec![];
    for (i, (r, rhs)) in rows.iter().enumerate() {
        for &(j, v) in r {
            if v != 0.0 {
                cols[j].push((i, v));
            }
        }
        b.push(*rhs);
    }
    let mut colptr = vec![0];
    let (mut rv, mut nz) = (vec![], vec![]);
    for c in cols {
        for (i, v) in c {
            rv.push(i);
            nz.push(v);
        }
        colptr.push(rv.len());
    }
    let a = CscMatrix::new(rows.len(), nvar, colptr, rv, nz);
    let p = CscMatrix::zeros((nvar, nvar));
    let set = DefaultSettingsBuilder::default().verbose(false).max_iter(400)
        .tol_gap_abs(1e-10).tol_gap_rel(1e-10).tol_feas(1e-10).build().unwrap();
    let mut s = DefaultSolver::new(&p, &q, &a, &b, &cones, set);
    s.solve();
    (s.solution.x.clone(), s.solution.z.clone())
}

fn capped_rows(m: usize, nu: f64, off: usize) -> (Vec<(Vec<(usize, f64)>, f64)>, usize) {
    let mut rows = vec![];
    rows.push(((0..m).map(|i| (off + i, 1.0)).collect(), 1.0));
    for i in 0..m {
        rows.push((vec![(off + i, -1.0)], 0.0));
    }
    for i in 0..m {
        rows.push((vec![(off + i, 1.0)], 1.0 / nu));
    }
    (rows, 2 * m)
}

/// minimise the largest of the edges `u[j].d` over capped distributions:
/// (d, convex weights)
pub fn lp(u: &[Vec<f64>], nu: f64) -> (Vec<f64>, Vec<f64>) {
    let m = u[0].len();
    let mut q = vec![0.0; m + 1];
    q[0] = 1.0;
    let (mut rows, n) = capped_rows(m, nu, 1);
    for r in u {
        let mut row: Vec<(usize, f64)> = (0..m).map(|i| (1 + i, r[i])).collect();
        row.push((0, -1.0));
        rows.push((row, 0.0));
    }
    let k = u.len();
    let (x, z) = solve(m + 1, q, rows, vec![ZeroConeT(1), NonnegativeConeT(n + k)]);
    let d = project(&x[1..], nu);
    (d, convex(&z[1 + n..1 + n + k]))
}

/// Clips to a distribution (exactly feasible up to rounding).
fn project(d: &[f64], nu: f64) -> Vec<f64> {
    let cap = 1.0 / nu;
    let mut d: Vec<f64> = d.iter().map(|v| v.max(0.0).min(cap)).collect();
    for _ in 0..50 {
        let s: f64 = d.iter().sum();
        d.iter_mut().for_each(|v| *v = (*v / s).min(cap));
    }
    d
}

fn convex(w: &[f64]) -> Vec<f64> {
    let w: Vec<f64> = w.iter().map(|v| if v.is_finite() { v.max(0.0) } else { 0.0 }).collect();
    let s: f64 = w.iter().sum();
    if s <= 0.0 {
        return vec![1.0 / w.len() as f64; w.len()];
    }
    w.iter().map(|v| v / s).collect()
}

fn entropy_rows(m: usize, off_d: usize, off_t: usize, rows: &mut Vec<(Vec<(usize, f64)>, f64)>, cones: &mut Vec<SupportedConeT<f64>>) {
    // (-t, d, 1) in K_exp; rows are b - A x in the cone
    for i in 0..m {
        rows.push((vec![(off_t + i, 1.0)], 0.0));
        rows.push((vec![(off_d + i, -1.0)], 0.0));
        rows.push((vec![], 1.0));
        cones.push(ExponentialConeT());
    }
}

/// dual weights of: minimise max edge + KL(d, uniform)/eta
pub fn erlp(u: &[Vec<f64>], nu: f64, eta: f64) -> Vec<f64> {
    let m = u[0].len();
    let mut q = vec![0.0; 1 + 2 * m];
    q[0] = 1.0;
    for i in 0..m {
        q[1 + m + i] = 1.0 / eta;
    }
    let (mut rows, n) = capped_rows(m, nu, 1);
    for r in u {
        let mut row: Vec<(usize, f64)> = (0..m).map(|i| (1 + i, r[i])).collect();
        row.push((0, -1.0));
        rows.push((row, 0.0));
    }
    let k = u.len();
    let mut cones = vec![ZeroConeT(1), NonnegativeConeT(n + k)];
    entropy_rows(m, 1, 1 + m, &mut rows, &mut cones);
    let (_, z) = solve(1 + 2 * m, q, rows, cones);
    convex(&z[1 + n..1 + n + k])
}

/// multipliers of the constraints edge <= b in: minimise KL(d, uniform)
pub fn soft(u: &[Vec<f64>], nu: f64, b: f64) -> Vec<f64> {
    let m = u[0].len();
    let mut q = vec![0.0; 2 * m];
    for i in 0..m {
        q[m + i] = 1.0;
    }
    let (mut rows, n) = capped_rows(m, nu, 0);
    for r in u {
        rows.push(((0..m).map(|i| (i, r[i])).collect(), b));
    }
    let k = u.len();
    let mut cones = vec![ZeroConeT(1), NonnegativeConeT(n + k)];
    entropy_rows(m, 0, m, &mut rows, &mut cones);
    let (_, z) = solve(2 * m, q, rows, cones);
    z[1 + n..1 + n + k].iter().map(|v| if v.is_finite() { v.max(0.0) } else { 0.0 }).collect()
}
