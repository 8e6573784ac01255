//! Regression monitors: P13 (gradient boosting and its loss functions).
use std::cell::{Cell, RefCell};
use std::sync::Arc;
use miniboosts::*;
use miniboosts::prelude::{GBMLoss, LossFunction};
use crate::ctx::*;
use crate::data::*;
use crate::learn::*;
use crate::rng::{hash_f64s, Rng};

fn loss_of(l: GBMLoss, p: &[f64], y: &[f64]) -> f64 {
    let f = |d: f64| if l == GBMLoss::L1 { d.abs() } else { d * d };
    p.iter().zip(y).map(|(p, y)| f(p - y)).sum::<f64>() / y.len() as f64
}

/// Smallest loss reachable from `p` along `h`, over all real coefficients.
fn best_along(l: GBMLoss, p: &[f64], h: &[f64], y: &[f64]) -> f64 {
    let at = |c: f64| { let q: Vec<f64> = p.iter().zip(h).map(|(p, h)| p + c * h).collect(); loss_of(l, &q, y) };
    let mut best = loss_of(l, p, y);
    if l == GBMLoss::L2 {
        let hh: f64 = h.iter().map(|h| h * h).sum();
        if hh > 0.0 { let c = (0..p.len()).map(|i| (y[i] - p[i]) * h[i]).sum::<f64>() / hh; if c.is_finite() { best = best.min(at(c)); } }
    } else if p.len() > 2000 {
        // the weighted median of the ratios, found by sorting
        let mut v: Vec<(f64, f64)> = (0..p.len()).filter(|&i| h[i] != 0.0).map(|i| ((y[i] - p[i]) / h[i], h[i].abs())).filter(|v| v.0.is_finite()).collect();
        v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let t: f64 = v.iter().map(|x| x.1).sum();
        let mut s = 0.0;
        if let Some(k) = v.iter().position(|x| { s += x.1; s >= 0.5 * t }) { for q in k.saturating_sub(2)..(k + 3).min(v.len()) { best = best.min(at(v[q].0)); } }
    } else {
        for i in 0..p.len() { if h[i] != 0.0 { let c = (y[i] - p[i]) / h[i]; if c.is_finite() { best = best.min(at(c)); } } }
    }
    best
}

/// Records what the learner is shown and what the regressor it returns predicts.
struct RegRec<'w, H> { rounds: RefCell<Vec<(Vec<f64>, Vec<f64>)>>, hyps: RefCell<Vec<H>>, cap: Cell<usize>, shift: Cell<usize>, f: Box<dyn Fn(usize, &Sample, &[f64]) -> H + 'w> }
impl<'w, H: Regressor + Clone> RegRec<'w, H> {
    fn new(cap: usize, f: impl Fn(usize, &Sample, &[f64]) -> H + 'w) -> Self { Self { rounds: Default::default(), hyps: Default::default(), cap: Cell::new(cap), shift: Cell::new(0), f: Box::new(f) } }
}
impl<H: Regressor + Clone> WeakLearner for RegRec<'_, H> {
    type Hypothesis = H;
    fn name(&self) -> &str { "recording regression learner" }
    fn produce(&self, sample: &Sample, preds: &[f64]) -> H {
        let t = self.hyps.borrow().len();
        if t >= self.cap.get() { std::panic::panic_any(RoundCap(self.cap.get())); }
        let h = (self.f)(t + self.shift.get(), sample, preds);
        let v: Vec<f64> = (0..sample.shape().0).map(|i| h.predict(sample, i)).collect();
        self.rounds.borrow_mut().push((preds.to_vec(), v));
        self.hyps.borrow_mut().push(h.clone());
        h
    }
}

fn check_run<H: Regressor + Clone>(cx: &mut Cx, l: GBMLoss, rec: &RegRec<'_, H>, train: &Sample, test: &Sample, model: &WeightedMajority<H>, again: bool) -> Res {
    let y = train.target().to_vec();
    let n = y.len();
    let rounds = rec.rounds.borrow();
    let hyps = rec.hyps.borrow();
    let last = lib("predict_all", || model.predict_all(train))?;
    ensure!(last.len() == n, "length", "model predicts {} values for {n} examples", last.len());
    let ys = y.iter().map(|v| v.abs()).fold(0.0, f64::max).max(1e-300);
    let ln = if l == GBMLoss::L1 { "L1" } else { "L2" };
    let mut coefs = vec![];
    let mut losses = vec![];
    for t in 0..rounds.len() {
        let (p, h) = &rounds[t];
        ensure!(p.len() == n && p.iter().all(|v| v.is_finite()), "shown", "{ln} round {}: the learner is shown {p:?} as current predictions of {n} examples", t + 1);
        if t == 0 { ensure!(p.iter().all(|&v| v == 0.0), "start", "{ln}{}: the first predictions shown are {p:?}, not those of the empty model", if again { " (second run of the same booster)" } else { "" }); }
        let q = if t + 1 < rounds.len() { &rounds[t + 1].0 } else { &last };
        ensure!(q.iter().all(|v| v.is_finite()), "finite", "{ln} round {}: predictions of the model are {q:?}", t + 1);
        // the model moved along h only
        let hh: f64 = h.iter().map(|v| v * v).sum();
        let c = if hh > 0.0 { (0..n).map(|i| (q[i] - p[i]) * h[i]).sum::<f64>() / hh } else { 0.0 };
        let hm = h.iter().map(|v| v.abs()).fold(0.0, f64::max);
        let tol = 1e-8 * (ys + c.abs() * hm + p.iter().map(|v| v.abs()).fold(0.0, f64::max));
        for i in 0..n {
            ensure!((p[i] + c * h[i] - q[i]).abs() <= tol, "additive", "{ln} round {}: example {i} goes from {} to {}, which is no multiple of the regressor's value {} (other examples give the coefficient {c})", t + 1, p[i], q[i], h[i]);
        }
        let (lp, lq, lb) = (loss_of(l, p, &y), loss_of(l, q, &y), best_along(l, p, h, &y));
        let unit = if l == GBMLoss::L1 { 1e-8 * (ys + c.abs() * hm) } else { 1e-8 * (ys + c.abs() * hm).powi(2) };
        ensure!(lq <= lp + unit, "increase", "{ln} round {}: training loss goes up from {lp} to {lq} (coefficient {c}, best reachable {lb})", t + 1);
        ensure!(lq <= lb + unit, "best-fit", "{ln} round {}: coefficient {c} gives loss {lq}, but {lb} is reachable along the regressor (loss before {lp})", t + 1);
        cx.count("rounds", 1);
        if lb < lp - unit { cx.count("rounds that lowered the loss", 1); cx.seen(hash_f64s(t as u64, q)); }
        coefs.push(c); losses.push(lq);
    }
    cx.note(format!("{ln} n={n} rounds={} losses {:?} coefficients {:?}", rounds.len(), losses.iter().take(5).collect::<Vec<_>>(), coefs.iter().take(5).collect::<Vec<_>>()));
    // the returned model, on the training data and elsewhere
    for (s, what) in [(train, "training"), (test, "new")] {
        let got = lib("predict_all", || model.predict_all(s))?;
        for i in 0..s.shape().0 {
            let (mut want, mut mag) = (0.0, ys);
            for (c, h) in coefs.iter().zip(hyps.iter()) { let v = c * h.predict(s, i); want += v; mag += v.abs(); }
            let one = lib("predict", || model.predict(s, i))?;
            ensure!((got[i] - want).abs() <= 1e-7 * mag, "model", "{ln}: the model predicts {} for {what} row {i}; coefficients times regressors sum to {want} (coefficients {:?})", got[i], coefs.iter().take(8).collect::<Vec<_>>());
            ensure!(one == got[i], "predict-all", "{ln}: predict gives {one}, predict_all {} for {what} row {i}", got[i]);
        }
        cx.count("model predictions checked", s.shape().0 as u64);
    }
    Ok(())
}

fn drive<H: Regressor + Clone>(cx: &mut Cx, l: GBMLoss, rec: RegRec<'_, H>, train: &Sample, test: &Sample) -> Res {
    let mut g = GBM::init_with_loss(train, l);
    if cx.rng.bool(0.3) { g = g.tolerance(0.1); }
    let twice = cx.rng.bool(0.15);
    // what went before: nothing, a whole run, or one that was left, with other regressors
    if cx.rng.bool(0.15) {
        rec.shift.set(5000);
        let cap = rec.cap.replace(cx.rng.int(0, 60));
        let _ = try_lib(|| g.run(&rec));
        rec.cap.set(cap);
        rec.shift.set(0);
        cx.count("runs after an abandoned one", 1);
    }
    for k in 0..if twice { 2 } else { 1 } {
        rec.shift.set(1000 * k);
        rec.rounds.borrow_mut().clear(); rec.hyps.borrow_mut().clear();
        let model = match try_lib(|| g.run(&rec)) {
            Ok(m) => m,
            Err(LibErr::RoundCap(n)) => return inconclusive(format!("round cap {n}")),
            Err(LibErr::Panic(m)) => {
                let r = rec.rounds.borrow();
                return viol("panic", format!("GBM panicked in round {}: {m} (n={}, regressor's values {:?})", r.len(), train.shape().0, r.last().map(|x| x.1.iter().take(12).copied().collect::<Vec<_>>())));
            }
        };
        check_run(cx, l, &rec, train, test, &model, k > 0)?;
    }
    Ok(())
}

fn pool_case(cx: &mut Cx, l: GBMLoss) -> Res {
    let r = &mut cx.rng;
    let n = gen_n_wide(r, 1, 40, 700);
    let extra = r.int(1, 6);
    let d = gen_regression(r, n, 1, &[0, 1, 3]);
    let train = d.dense()?;
    let test = Data { cols: vec![(0..n + extra).map(|i| i as f64).collect()], y: vec![0.5; n + extra], names: vec!["x0".into()] }.dense()?;
    let kind = r.below(6);
    let seed = r.next();
    let zero_at = if r.bool(0.15) { r.below(5) } else { usize::MAX };
    let ys = d.y.iter().map(|v| v.abs()).fold(0.0, f64::max).max(1e-6);
    let y = d.y.clone();
    let rec = RegRec::new(400, move |t, _s, p| {
        let mut g = Rng::new(seed ^ (t as u64).wrapping_mul(0x9E37_79B9));
        let m = n + extra;
        let k = if kind == 5 { g.below(5) } else { kind };
        let s = match g.below(4) { 0 => 1e-3, 1 => 1e3, _ => 1.0 };
        let mut v: Vec<f64> = match k {
            0 => (0..m).map(|_| g.gauss() * s).collect(),
            1 => { let c = g.gauss() * s; vec![c; m] }                                               // constant
            2 => { let f = g.range(0.3, 2.0); (0..m).map(|i| if i < n { -f * (y[i] - p[i]) + 0.05 * ys * g.gauss() } else { g.gauss() }).collect() } // opposes the residuals
            3 => { let c = g.below(m); (0..m).map(|i| if i < c { 1.0 } else { -1.0 }).collect() }         // balanced-ish step
            _ => (0..m).map(|_| if g.bool(0.6) { 0.0 } else { g.gauss() }).collect(),              // mostly zero
        };
        if t == zero_at { v = vec![0.0; m]; }
        TableR { id: t, vals: Arc::new(v) }
    });
    drive(cx, l, rec, &train, &test)
}
fn pool_l1(cx: &mut Cx) -> Res { pool_case(cx, GBMLoss::L1) }
fn pool_l2(cx: &mut Cx) -> Res { pool_case(cx, GBMLoss::L2) }

fn huge_l1(cx: &mut Cx) -> Res { huge(cx, pool_l1) }
fn huge_l2(cx: &mut Cx) -> Res { huge(cx, pool_l2) }
fn huge_tree(cx: &mut Cx) -> Res { huge(cx, tree_l2) }

fn tree_case(cx: &mut Cx, l: GBMLoss) -> Res {
    let n = gen_n_wide(&mut cx.rng, 2, 60, 500);
    let dd = gen_d(&mut cx.rng, 4, 30);
    let mut d = gen_regression(&mut cx.rng, n, dd, &[0, 1, 3, 4, 6, 7]);
    let mut t = gen_regression(&mut cx.rng, 20, dd, &[0, 1, 3, 4, 6, 7]);
    t.names = d.names.clone();
    let sparse = cx.rng.bool(0.3);
    let (train, test) = if sparse {
        let mut r = cx.rng.fork();
        d.no_zero_cols(&mut r); t.no_zero_cols(&mut r); d.svm_names(); t.svm_names();
        (d.sparse(cx)?, t.sparse(cx)?)
    } else { (d.dense()?, t.dense()?) };
    let depth = gen_d(&mut cx.rng, 4, 30);
    let lam = *cx.rng.pick(&[0.0, 0.01, 1.0]);
    let lam = if l == GBMLoss::L1 && lam == 0.0 { 0.01 } else { lam };
    let tree = lib("RegressionTreeBuilder", || RegressionTreeBuilder::new(&train).max_depth(depth).lambda_l2(lam).loss(l).build())?;
    let rec = RegRec::new(400, |_t, s, p| tree.produce(s, p));
    drive(cx, l, rec, &train, &test)
}
fn tree_l1(cx: &mut Cx) -> Res { tree_case(cx, GBMLoss::L1) }
fn tree_l2(cx: &mut Cx) -> Res { tree_case(cx, GBMLoss::L2) }

fn loss_case(cx: &mut Cx) -> Res {
    let l = if cx.rng.bool(0.5) { GBMLoss::L1 } else { GBMLoss::L2 };
    let n = gen_n_wide(&mut cx.rng, 1, 60, 3000);
    let r = &mut cx.rng;
    let s = 10f64.powi(r.int(0, 6) as i32 - 3);
    let y: Vec<f64> = (0..n).map(|_| s * r.gauss()).collect();
    let p: Vec<f64> = (0..n).map(|i| if r.bool(0.1) { y[i] } else { s * r.gauss() }).collect();
    let h: Vec<f64> = (0..n).map(|_| if r.bool(0.2) { 0.0 } else { r.gauss() }).collect();
    let ev = lib("eval", || l.eval(&p, &y))?;
    let want = loss_of(l, &p, &y);
    ensure!((ev - want).abs() <= 1e-12 * (want + s * s + s), "eval", "{} is {ev}, by definition {want}", l.name());
    let g = lib("gradient", || l.gradient(&p, &y))?;
    let he = lib("hessian", || l.hessian(&p, &y))?;
    ensure!(g.len() == n && he.len() == n, "length", "gradient/hessian of length {}/{} for {n} examples", g.len(), he.len());
    // The gradient points up, in one common scale; the second derivatives go with it.
    for i in 0..n {
        let d = p[i] - y[i];
        if d == 0.0 { ensure!(g[i].abs() <= 1.0, "gradient", "{}: gradient {} at a perfect prediction", l.name(), g[i]); continue; }
        let w = if l == GBMLoss::L1 { d.signum() } else { d };
        ensure!((g[i] - w).abs() <= 1e-12 * w.abs() || (l == GBMLoss::L2 && (g[i] - 2.0 * w).abs() <= 1e-12 * w.abs()), "gradient", "{}: gradient of example {i} is {}, prediction {} and target {} give {w}", l.name(), g[i], p[i], y[i]);
        if l == GBMLoss::L2 { ensure!((he[i] * d - g[i]).abs() <= 1e-12 * d.abs(), "hessian", "L2: second derivative {} does not go with gradient {}", he[i], g[i]); }
    }
    let res: Vec<f64> = y.iter().zip(&p).map(|(y, p)| y - p).collect();
    let c = lib("best_coefficient", || l.best_coefficient(&res, &h))?;
    let q: Vec<f64> = p.iter().zip(&h).map(|(p, h)| p + c * h).collect();
    let (lq, lb) = (loss_of(l, &q, &y), best_along(l, &p, &h, &y));
    ensure!(lq <= lb + 1e-9 * (lb + s * 1e-3), "best-coefficient", "{}: best coefficient {c} gives loss {lq}, {lb} is reachable (n={n})", l.name());
    cx.count("loss evaluations", 1);
    cx.seen(hash_f64s(n as u64, &p));
    Ok(())
}

pub fn p13() -> Check {
    Check {
        id: "P13",
        rule: "a round counts when it lowered the training loss; distinct = distinct prediction vectors",
        assumptions: &["relative slack 1e-8 for floating-point summation"],
        families: vec![fam("pool-l1", 250, 5000, pool_l1), fam("pool-l2", 250, 5000, pool_l2), fam("tree-l1", 60, 1000, tree_l1), fam("tree-l2", 60, 1000, tree_l2), fam("huge-l1", 1, 4, huge_l1), fam("huge-l2", 1, 4, huge_l2), fam("huge-tree", 1, 4, huge_tree), fam("loss", 400, 6000, loss_case)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
