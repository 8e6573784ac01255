//! P17: Gaussian naive Bayes against the textbook classifier.
use miniboosts::*;
use crate::ctx::*;
use crate::data::*;
use crate::rng::hash_f64s;

struct Class { y: f64, prior: f64, mean: Vec<f64>, var: Vec<f64> }

fn moments(c: &[f64], w: &[f64], keep: &dyn Fn(usize) -> bool) -> (f64, f64) {
    let t: f64 = (0..c.len()).filter(|&i| keep(i)).map(|i| w[i]).sum();
    let m = (0..c.len()).filter(|&i| keep(i)).map(|i| w[i] * c[i]).sum::<f64>() / t;
    let v = (0..c.len()).filter(|&i| keep(i)).map(|i| w[i] * (c[i] - m).powi(2)).sum::<f64>() / t;
    (m, v)
}
/// log density and the size of its terms
fn log_density(x: &[f64], mean: &[f64], var: &[f64]) -> (f64, f64) {
    let (mut s, mut a) = (0.0, 0.0);
    for j in 0..x.len() {
        let q = (x[j] - mean[j]).powi(2) / var[j];
        let t = -0.5 * ((2.0 * std::f64::consts::PI).ln() + var[j].ln() + q);
        s += t; a += q.abs() + var[j].ln().abs() + 2.0;
    }
    (s, a)
}

fn nb_case(cx: &mut Cx) -> Res {
    let n = gen_n_wide(&mut cx.rng, 4, 60, 800);
    let dd = gen_d(&mut cx.rng, 6, 300);
    let r = &mut cx.rng;
    let labels: Vec<f64> = if r.bool(0.75) { vec![-1.0, 1.0] } else { (0..r.int(2, 4)).map(|k| [-1.0, 1.0, 2.0, 5.0][k]).collect() };
    let y: Vec<f64> = (0..n).map(|i| if i < 2 * labels.len() { labels[i % labels.len()] } else { *r.pick(&labels) }).collect();
    let cols: Vec<Vec<f64>> = (0..dd).map(|_| {
        let s = match r.below(4) { 0 => 10f64.powi(r.int(0, 12) as i32 - 6), _ => 1.0 };
        let off = if r.bool(0.3) { s * r.gauss() * 20.0 } else { 0.0 };
        let sep: Vec<f64> = labels.iter().map(|_| r.gauss() * *r.pick(&[0.0, 1.0, 5.0])).collect();
        let sd: Vec<f64> = labels.iter().map(|_| *r.pick(&[0.05, 0.5, 1.0, 1.0, 4.0])).collect();
        let zeros = r.bool(0.2);
        (0..n).map(|i| { let k = labels.iter().position(|l| *l == y[i]).unwrap(); if zeros && r.bool(0.4) { 0.0 } else { off + s * (sep[k] + sd[k] * r.gauss()) } }).collect()
    }).collect();
    let mut d = Data { cols, y, names: gen_names(r, dd) };
    let mut w = r.simplex(n);
    // all the weight on some of the classes
    if r.bool(0.1) {
        let gone = *r.pick(&labels);
        for i in 0..n { if d.y[i] == gone { w[i] = 0.0; } }
        let t: f64 = w.iter().sum();
        if t <= 0.0 { return inconclusive("no weight left"); }
        for v in w.iter_mut() { *v /= t; }
    }
    let sparse = r.bool(0.3);
    if sparse { d.no_zero_cols(r); d.svm_names(); }
    cx.note(format!("{} labels={labels:?} w={:?}", d.brief(), &w[..n.min(12)]));
    // reference
    let mut ref_: Vec<Class> = vec![];
    for &l in &labels {
        let prior: f64 = (0..n).filter(|&i| d.y[i] == l).map(|i| w[i]).sum();
        if prior == 0.0 { continue; }
        let (mean, var) = d.cols.iter().map(|c| moments(c, &w, &|i| d.y[i] == l)).unzip::<f64, f64, Vec<f64>, Vec<f64>>();
        for j in 0..dd {
            let spread = d.cols[j].iter().map(|v| v.abs()).fold(0.0, f64::max);
            if var[j] <= 1e-9 * spread * spread { return inconclusive("degenerate class variance"); }
        }
        ref_.push(Class { y: l, prior, mean, var });
    }
    let all: (Vec<f64>, Vec<f64>) = d.cols.iter().map(|c| moments(c, &w, &|_| true)).unzip();
    // queries: training rows, rows nearby, rows far away
    let m = n + 25;
    let mut q = d.clone();
    for _ in n..m {
        let far = [1.0, 3.0, 30.0, 1e3, 1e6][cx.rng.below(5)];
        for j in 0..dd {
            let s = all.1[j].sqrt();
            let v = if cx.rng.bool(0.1) { 0.0 } else { all.0[j] + far * s * cx.rng.gauss() };
            q.cols[j].push(v);
        }
        q.y.push(1.0);
    }
    let (train, query) = if sparse { (d.sparse(cx)?, q.sparse(cx)?) } else { (d.dense()?, q.dense()?) };
    let h = lib("GaussianNB::produce", || GaussianNB::init().produce(&train, &w))?;
    let conf = lib("confidence_all", || h.confidence_all(&query))?;
    ensure!(conf.len() == m, "length", "{} confidences for {m} rows", conf.len());
    let mut decided = 0;
    for i in 0..m {
        let x = q.row(i);
        let lj: Vec<(f64, f64, f64)> = ref_.iter().map(|c| { let (l, a) = log_density(&x, &c.mean, &c.var); (c.y, c.prior.ln() + l, a) }).collect();
        let best = lj.iter().map(|v| v.1).fold(f64::MIN, f64::max);
        let slack = 1e-6 * lj.iter().map(|v| v.2).fold(1.0, f64::max);
        let ok: Vec<f64> = lj.iter().filter(|v| v.1 >= best - slack).map(|v| v.0).collect();
        ensure!(ok.contains(&conf[i]), "label", "row {i} {x:?}: classified {}, but the joint log-probabilities are {:?}{}", conf[i], lj.iter().map(|v| (v.0, v.1)).collect::<Vec<_>>(), if i >= n { " (new row)" } else { "" });
        if ok.len() == 1 && ref_.len() > 1 { decided += 1; }
        let p = lib("predict", || h.predict(&query, i))?;
        ensure!(p == if conf[i] >= 0.0 { 1 } else { -1 }, "predict", "row {i}: predicts {p}, confidence {}", conf[i]);
        // the probabilities, relative to the density of the whole sample
        let pr = lib("probabilities", || h.probabilities(&query, i))?;
        let (la, aa) = log_density(&x, &all.0, &all.1);
        for c in &ref_ {
            let Some(got) = pr.iter().find(|v| v.0 == c.y) else { return viol("classes", format!("no probability for label {}: {pr:?}", c.y)) };
            let (l, a) = log_density(&x, &c.mean, &c.var);
            let lw = c.prior.ln() + l - la;
            if lw.abs() < 600.0 { ensure!((got.1.ln() - lw).abs() <= 1e-6 * (a + aa), "probability", "row {i}: probability of label {} is {}, by the formula {}", c.y, got.1, lw.exp()); cx.count("probabilities compared", 1); }
        }
    }
    cx.count("rows classified", m as u64);
    cx.count("rows with a clear winner", decided);
    if decided > 0 { cx.seen(hash_f64s(n as u64, &d.cols[0])); }
    if sparse {
        let dh = lib("GaussianNB::produce", || GaussianNB::init().produce(&d.dense().ok().unwrap(), &w))?;
        let dc = lib("confidence_all", || dh.confidence_all(&q.dense().ok().unwrap()))?;
        let differ = (0..m).filter(|&i| dc[i] != conf[i]).count();
        ensure!(differ * 10 <= m, "dense-sparse", "dense and sparse classifiers differ on {differ} of {m} rows");
        for i in 0..n { if dc[i] != conf[i] {
            let x = q.row(i);
            let mut v: Vec<f64> = ref_.iter().map(|c| c.prior.ln() + log_density(&x, &c.mean, &c.var).0).collect();
            v.sort_by(|a, b| b.partial_cmp(a).unwrap());
            ensure!(v.len() > 1 && v[0] - v[1] <= 1e-5 * (1.0 + v[0].abs()), "dense-sparse", "row {i}: dense gives {}, sparse {}", dc[i], conf[i]);
        } }
        cx.count("sparse models", 1);
    }
    Ok(())
}

fn nb_huge(cx: &mut Cx) -> Res { huge(cx, nb_case) }

pub fn p17() -> Check {
    Check {
        id: "P17",
        rule: "a case counts when some row has a clear winner; distinct = distinct first feature columns",
        assumptions: &["per-class variances above 1e-9 of the squared magnitude", "joint log-probabilities within 1e-6 of each other (relative) may go either way"],
        families: vec![fam("textbook", 6000, 200000, nb_case), fam("huge", 1, 20, nb_huge)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
