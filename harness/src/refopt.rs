//! Reference optimisers. Their results are only used after being made exactly feasible and
//! re-evaluated, so a solver failure can only make a monitor less strict, never raise an alarm.
use clarabel::algebra::*;
use clarabel::solver::*;
use crate::learn::dot;

fn csc(n_rows: usize, n_cols: usize, mut trip: Vec<(usize, usize, f64)>) -> CscMatrix<f64> {
    trip.sort_by(|a, b| (a.1, a.0).cmp(&(b.1, b.0)));
    let mut colptr = vec![0usize; n_cols + 1];
    for t in &trip { colptr[t.1 + 1] += 1; }
    for j in 0..n_cols { colptr[j + 1] += colptr[j]; }
    CscMatrix::new(n_rows, n_cols, colptr, trip.iter().map(|t| t.0).collect(), trip.iter().map(|t| t.2).collect())
}

fn solve(nv: usize, q: &[f64], a: &CscMatrix<f64>, b: &[f64], cones: &[SupportedConeT<f64>]) -> Option<(Vec<f64>, Vec<f64>)> {
    let st = DefaultSettingsBuilder::default().verbose(false).tol_gap_abs(1e-10).tol_gap_rel(1e-10).tol_feas(1e-10).build().ok()?;
    let mut s = DefaultSolver::new(&CscMatrix::zeros((nv, nv)), q, a, b, cones, st);
    s.solve();
    match s.solution.status {
        SolverStatus::Solved | SolverStatus::AlmostSolved | SolverStatus::InsufficientProgress | SolverStatus::MaxIterations => Some((s.solution.x.clone(), s.solution.z.clone())),
        _ => None,
    }
}

/// min over weightings capped at 1/nu of the weighted average of `m` (sorting).
pub fn soft_margin(m: &[f64], nu: f64) -> f64 {
    let mut s = m.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let (mut left, mut v) = (1.0, 0.0);
    for x in s { let w = (1.0 / nu).min(left); v += w * x; left -= w; if left <= 0.0 { break; } }
    v
}

pub fn combine(ms: &[Vec<f64>], w: &[f64]) -> Vec<f64> {
    let n = ms[0].len();
    let mut out = vec![0.0; n];
    for (m, &wj) in ms.iter().zip(w) { for i in 0..n { out[i] += wj * m[i]; } }
    out
}

fn to_simplex(w: &mut Vec<f64>) -> bool {
    for x in w.iter_mut() { if !(*x > 0.0) { *x = 0.0; } }
    let s: f64 = w.iter().sum();
    if !(s > 0.0) || !s.is_finite() { return false; }
    for x in w.iter_mut() { *x /= s; }
    true
}

/// Makes `d` a point of the simplex capped at `ub`, moving it as little as rounding needs.
pub fn to_capped(d: &mut Vec<f64>, ub: f64) -> bool {
    if !to_simplex(d) { return false; }
    for _ in 0..50 {
        let over: f64 = d.iter().map(|&x| (x - ub).max(0.0)).sum();
        if over <= 0.0 { break; }
        for x in d.iter_mut() { if *x > ub { *x = ub; } }
        let room: f64 = d.iter().map(|&x| ub - x).sum();
        if room <= 0.0 { break; }
        let f = (over / room).min(1.0);
        for x in d.iter_mut() { *x += f * (ub - *x); }
    }
    (d.iter().sum::<f64>() - 1.0).abs() < 1e-9
}

/// Best convex combination for the soft margin over margin vectors `ms` (rows: hypotheses).
/// Returns (weights, their exact soft margin, upper bound on the optimum from a capped weighting).
pub fn best_soft(ms: &[Vec<f64>], nu: f64) -> Option<(Vec<f64>, f64, f64)> {
    let (k, n) = (ms.len(), ms[0].len());
    let nv = 1 + k + n;
    let mut q = vec![0.0; nv];
    q[0] = -1.0;
    for i in 0..n { q[1 + k + i] = 1.0 / nu; }
    let mut t = vec![];
    let mut b = vec![1.0];
    for j in 0..k { t.push((0, 1 + j, 1.0)); }
    let mut r = 1;
    for v in 1..nv { t.push((r, v, -1.0)); b.push(0.0); r += 1; }
    let first = r;
    for i in 0..n {
        t.push((r, 0, 1.0));
        for j in 0..k { if ms[j][i] != 0.0 { t.push((r, 1 + j, -ms[j][i])); } }
        t.push((r, 1 + k + i, -1.0));
        b.push(0.0); r += 1;
    }
    let a = csc(r, nv, t);
    let (x, z) = solve(nv, &q, &a, &b, &[ZeroConeT(1), NonnegativeConeT(r - 1)])?;
    let mut w = x[1..1 + k].to_vec();
    if !to_simplex(&mut w) { return None; }
    let lo = soft_margin(&combine(ms, &w), nu);
    let mut d = z[first..first + n].to_vec();
    let hi = if to_capped(&mut d, 1.0 / nu) { ms.iter().map(|m| dot(m, &d)).fold(f64::NEG_INFINITY, f64::max) } else { 1.0 };
    Some((w, lo, hi))
}

pub fn rel_entropy(d: &[f64]) -> f64 {
    let n = d.len() as f64;
    d.iter().map(|&x| if x > 0.0 { x * (x * n).ln() } else { 0.0 }).sum()
}

/// min over capped weightings of max_j edge_j(d) + RE(d)/eta. `fixed`: edges are instead bounded by the constant.
pub fn entropic(ms: &[Vec<f64>], nu: f64, eta: f64, fixed: Option<f64>) -> Option<Vec<f64>> {
    let (k, n) = (ms.len(), ms[0].len());
    let u = 1.0 / n as f64;
    // variables: gamma, d (n), t (n)
    let nv = 1 + 2 * n;
    let mut q = vec![0.0; nv];
    if fixed.is_none() { q[0] = 1.0; }
    for i in 0..n { q[1 + n + i] = if fixed.is_some() { 1.0 } else { 1.0 / eta }; }
    let mut t = vec![];
    let mut b = vec![];
    for i in 0..n { t.push((0, 1 + i, 1.0)); }
    b.push(1.0);
    let mut r = 1;
    let mut zero = 1;
    if let Some(c) = fixed { t.push((r, 0, 1.0)); b.push(c); r += 1; zero += 1; }
    for i in 0..n { t.push((r, 1 + i, 1.0)); b.push(1.0 / nu); r += 1; }
    for m in ms { t.push((r, 0, -1.0)); for i in 0..n { if m[i] != 0.0 { t.push((r, 1 + i, m[i])); } } b.push(0.0); r += 1; }
    let nn = n + k;
    let mut cones = vec![ZeroConeT(zero), NonnegativeConeT(nn)];
    for i in 0..n {
        // s = (-t_i, d_i, u) in K_exp : d exp(-t/d) <= u
        t.push((r, 1 + n + i, 1.0)); b.push(0.0);
        t.push((r + 1, 1 + i, -1.0)); b.push(0.0);
        b.push(u);
        r += 3;
        cones.push(ExponentialConeT());
    }
    let a = csc(r, nv, t);
    let (x, _) = solve(nv, &q, &a, &b, &cones)?;
    let mut d = x[1..1 + n].to_vec();
    if !to_capped(&mut d, 1.0 / nu) { return None; }
    Some(d)
}

/// d_i proportional to exp(-eta m_i), capped at 1/nu (bisection on the scale).
pub fn capped_exp(m: &[f64], nu: f64, eta: f64) -> Vec<f64> {
    let n = m.len();
    let ub = 1.0 / nu;
    let e: Vec<f64> = m.iter().map(|x| -eta * x).collect();
    let mx = e.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let mn = e.iter().cloned().fold(f64::INFINITY, f64::min);
    // d_i = min(ub, exp(e_i + c)); sum is increasing in c
    let (mut lo, mut hi) = (-mx - (n as f64).ln() - 5.0 + ub.ln(), -mn + 5.0);
    let f = |c: f64| -> f64 { e.iter().map(|x| ub.min((x + c).exp())).sum() };
    for _ in 0..200 { let c = (lo + hi) / 2.0; if f(c) < 1.0 { lo = c } else { hi = c } }
    let c = (lo + hi) / 2.0;
    e.iter().map(|x| ub.min((x + c).exp())).collect()
}
