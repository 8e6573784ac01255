//! Combined hypotheses and what is said about them: P19 (worst-case learner), P20 (votes), P22 (objectives).
use std::sync::Arc;
use miniboosts::*;
use miniboosts::research::ObjectiveFunction;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use crate::ctx::*;
use crate::data::*;
use crate::learn::*;
use crate::rng::{hash_f64s, Rng};

// ---------------------------------------------------------------- P19

type Bad = <BadBaseLearner as WeakLearner>::Hypothesis;

fn same_values(a: &[f64], b: &[f64]) -> bool { a.iter().zip(b).all(|(x, y)| x == y) }

fn bad_best_response(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let n = if r.bool(0.7) { 2 * r.int(2, 30) } else { r.int(4, 61) };
    let nu = match r.below(3) { 0 => 1.0, 1 => r.range(1.0, (n as f64 / 2.0).max(1.5)), _ => r.int(1, n - 1) as f64 };
    let tol = *r.pick(&[0.5, 0.1, 0.05, 0.01, 1e-3]);
    let sample = lib("Sample::dummy", || Sample::dummy(n))?;
    let y = sample.target().to_vec();
    ensure!(y.len() == n && sample.shape().0 == n, "dummy", "dummy sample of {n} examples has {} labels and shape {:?}", y.len(), sample.shape());
    ensure!(y.iter().all(|&v| v == 1.0 || v == -1.0) && y.contains(&1.0) && y.contains(&-1.0), "dummy", "labels of the dummy sample: {y:?}");
    let flip = cx.rng.bool(0.5);
    let wl = lib("BadBaseLearnerBuilder", || { let b = BadBaseLearnerBuilder::new(&sample); if flip { b.nu(nu).tolerance(tol) } else { b.tolerance(tol).nu(nu) }.build() })?;
    // weightings: corners, random ones, and those LPBoost plays
    let mut dists: Vec<Vec<f64>> = vec![vec![1.0 / n as f64; n]];
    for i in 0..n { let mut d = vec![0.0; n]; d[i] = 1.0; dists.push(d); }
    for k in 0..60 {
        let mut d = match k % 4 {
            0 => cx.rng.simplex(n),
            // blocks: the weight sits on an interval
            1 => { let a = cx.rng.below(n); let b = cx.rng.int(a, n - 1); (0..n).map(|i| if i >= a && i <= b { 1.0 } else { 0.0 }).collect() }
            2 => { let h = n / 2; let p = cx.rng.f(); let j = cx.rng.int(h, n - 1); (0..n).map(|i| if i < h { (1.0 - p) / h as f64 } else if i == j { p } else { 0.0 }).collect() }
            _ => { let mut d = vec![0.0; n]; for _ in 0..3 { let j = cx.rng.below(n); d[j] += cx.rng.f() + 1e-3; } d }
        };
        let s: f64 = d.iter().sum();
        for v in d.iter_mut() { *v /= s; }
        dists.push(d);
    }
    let rec = Rec::new(&sample, &wl, 4 * n + 40);
    let lp = try_lib(|| { let b = LPBoost::init(&sample).tolerance(tol); let mut b = b.nu(nu); b.run(&rec) });
    if let Err(LibErr::Panic(m)) = &lp { return viol("panic:LPBoost", format!("LPBoost on the dummy sample (n={n}, nu={nu}, tolerance {tol}) panicked: {m}")); }
    let mut answers: Vec<(Vec<f64>, Vec<f64>)> = rec.rounds.take().into_iter().map(|x| (x.dist, x.margins)).collect();
    cx.count("weightings from LPBoost", answers.len() as u64);
    for d in dists {
        let h: Bad = lib("BadBaseLearner::produce", || wl.produce(&sample, &d))?;
        let c = lib("confidence_all", || h.confidence_all(&sample))?;
        answers.push((d, c.iter().zip(&y).map(|(c, y)| c * y).collect()));
    }
    let mut family: Vec<Vec<f64>> = vec![];
    for (_, m) in &answers {
        for (i, v) in m.iter().enumerate() { ensure!((-1.0..=1.0).contains(v), "range", "n={n} nu={nu} tol={tol}: a hypothesis of the worst-case learner has value {v} on example {i}"); }
        if !family.iter().any(|f| same_values(f, m)) { family.push(m.clone()); }
    }
    // the best response among everything the learner ever returned
    for (d, m) in &answers {
        let e = dot(d, m);
        for f in &family {
            let best = dot(d, f);
            ensure!(e >= best - 1e-12, "best-response", "n={n} nu={nu} tol={tol}: the hypothesis returned has edge {e}, another one of the family {best}; weights {:?}", &d[..n.min(20)]);
        }
        cx.count("best responses checked", 1);
    }
    cx.count("family members seen", family.len() as u64);
    cx.note(format!("n={n} nu={nu} tol={tol}: {} weightings, {} distinct hypotheses", answers.len(), family.len()));
    if family.len() >= 3 { cx.seen(hash_f64s((n as u64) << 8, &[nu, tol])); }
    Ok(())
}

fn bad_stall(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let n = 2 * if r.bool(0.7) { r.int(2, 25) } else { r.int(25, 60) };
    let nu = match r.below(3) { 0 => 1.0, 1 => r.int(1, (n / 4).max(1)) as f64, _ => r.range(1.0, (n as f64 / 4.0).max(1.01)) };
    let tol = r.range(0.05, 0.5);
    // gaps far below the LP solver's accuracy cannot stall it
    if tol / (2.0 * n as f64) < 3e-4 { return inconclusive("gap below the accuracy of the LP solver"); }
    let sample = lib("Sample::dummy", || Sample::dummy(n))?;
    let wl = lib("BadBaseLearnerBuilder", || BadBaseLearnerBuilder::new(&sample).tolerance(tol).nu(nu).build())?;
    let rec = Rec::new(&sample, &wl, 4 * n + 40);
    let mut b = LPBoost::init(&sample).tolerance(tol).nu(nu);
    let f = lib("LPBoost::run", || b.run(&rec))?;
    let rounds = rec.rounds.take().len();
    let want = (n / 2).div_ceil(nu.ceil() as usize);
    ensure!(rounds >= want, "rounds", "n={n} nu={nu} tol={tol}: LPBoost needed only {rounds} rounds against the worst-case learner (n/2 over ceil(nu) is {want})");
    ensure!(b.terminated() == rounds, "terminated", "LPBoost reports {} rounds, the learner was called {rounds} times", b.terminated());
    // whatever it took, the vote is a near-optimal one: the last hypothesis is right on everything but by eps
    ensure!(!f.hypotheses.is_empty(), "empty", "LPBoost returned an empty vote");
    cx.max("rounds", rounds as f64);
    cx.count("rounds", rounds as u64);
    cx.note(format!("n={n} nu={nu} tol={tol}: {rounds} rounds (at least {want} expected), {} hypotheses in the vote", f.hypotheses.len()));
    cx.seen(hash_f64s(n as u64, &[nu, tol]));
    Ok(())
}

pub fn p19() -> Check {
    Check {
        id: "P19",
        rule: "a best-response case counts when at least three different hypotheses of the family were returned, a stalling case always; distinct = distinct (n, nu, tolerance)",
        assumptions: &["the family is known through the hypotheses returned for corner, block, random and LPBoost's own weightings", "stalling: even n, nu <= n/4, gap tolerance/(2n) >= 3e-4 so that the LP solver resolves it; expected at least (n/2)/ceil(nu) rounds"],
        families: vec![fam("best-response", 400, 6000, bad_best_response), fam("stall", 300, 4000, bad_stall)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

// ---------------------------------------------------------------- P20

/// A hypothesis given by a formula, so that it applies to any sample.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct StumpH { pub feat: usize, pub thr: f64, pub lo: f64, pub hi: f64 }
impl StumpH {
    pub fn gen(rng: &mut Rng, d: usize) -> Self {
        let vals: &[f64] = if rng.bool(0.5) { &[-1.0, 1.0] } else { &[-1.0, -0.5, -0.0, 0.0, 0.25, 1.0] };
        StumpH { feat: rng.below(d), thr: rng.gauss(), lo: *rng.pick(vals), hi: *rng.pick(vals) }
    }
    pub fn val(&self, x: &[f64]) -> f64 { if x[self.feat] < self.thr { self.lo } else { self.hi } }
}
impl Classifier for StumpH { fn confidence(&self, s: &Sample, row: usize) -> f64 { self.val(&s.at(row).0) } }
impl Regressor for StumpH { fn predict(&self, s: &Sample, row: usize) -> f64 { self.val(&s.at(row).0) } }

fn vote_case(cx: &mut Cx) -> Res {
    let n = gen_n_wide(&mut cx.rng, 2, 40, 500);
    let dd = gen_d(&mut cx.rng, 4, 20);
    let mut d = gen_binary(&mut cx.rng, n, dd, &[0, 1, 3, 4]);
    let sample = if cx.rng.bool(0.3) { d.no_zero_cols(&mut cx.rng); d.svm_names(); d.sparse(cx)? } else { d.dense()? };
    let k = gen_d(&mut cx.rng, 30, 400);
    let hyps: Vec<StumpH> = (0..k).map(|_| StumpH::gen(&mut cx.rng, dd)).collect();
    let r = &mut cx.rng;
    let style = r.below(5);
    let mut w: Vec<f64> = (0..k).map(|_| match style {
        0 => r.f(), 1 => *r.pick(&[0.0, 1.0, 0.5, -0.0]), 2 => r.gauss(), 3 => *r.pick(&[0.25, 0.5, 1.0]), _ => 10f64.powf(r.range(-300.0, 5.0)),
    }).collect();
    if !w.iter().any(|&v| v > 1e-290) { w[0] = 1.0; }
    let vote = lib("WeightedMajority::from_slices", || WeightedMajority::from_slices(&w, &hyps))?;
    // what must remain
    let kept: Vec<usize> = (0..k).filter(|&j| w[j] > 0.0).collect();
    let total: f64 = kept.iter().map(|&j| w[j]).sum();
    ensure!(vote.weights.len() == kept.len() && vote.hypotheses.len() == kept.len(), "kept", "from_slices keeps {} weights and {} hypotheses of the {} with positive weight (weights {w:?})", vote.weights.len(), vote.hypotheses.len(), kept.len());
    for (p, &j) in kept.iter().enumerate() {
        let h = &vote.hypotheses[p];
        ensure!(h.feat == hyps[j].feat && h.thr == hyps[j].thr && h.lo.to_bits() == hyps[j].lo.to_bits() && h.hi.to_bits() == hyps[j].hi.to_bits(), "order", "member {p} of the vote is {h:?}, expected {:?}", hyps[j]);
        let want = w[j] / total;
        ensure!((vote.weights[p] - want).abs() <= 1e-12 * want, "weights", "member {p} has weight {}, expected {want} (weights {w:?})", vote.weights[p]);
    }
    let ws = vote.weights.clone();
    check_vote(cx, &d, &sample, &vote, &ws, &kept.iter().map(|&j| hyps[j].clone()).collect::<Vec<_>>())?;
    // push and normalize, with weights of either sign
    let mut v2 = vote.clone();
    let (mut w2, mut h2) = (vote.weights.clone(), vote.hypotheses.clone());
    for _ in 0..cx.rng.int(1, 5) { let (a, h) = (cx.rng.gauss(), StumpH::gen(&mut cx.rng, dd)); lib("push", || v2.push(a, h.clone()))?; w2.push(a); h2.push(h); }
    ensure!(v2.weights == w2 && v2.hypotheses.len() == h2.len(), "push", "push: weights {:?}, expected {w2:?}", v2.weights);
    check_vote(cx, &d, &sample, &v2, &w2, &h2)?;
    lib("normalize", || v2.normalize())?;
    let z: f64 = w2.iter().map(|v| v.abs()).sum();
    for (a, b) in v2.weights.iter().zip(&w2) { ensure!((a - b / z).abs() <= 1e-12, "normalize", "normalize turns {b} of {w2:?} into {a}, expected {}", b / z); }
    let (dw, dh) = lib("decompose", || v2.clone().decompose())?;
    ensure!(dw == v2.weights && dh.len() == h2.len(), "decompose", "decompose returns weights {dw:?} of {:?}", v2.weights);
    let back: WeightedMajority<StumpH> = round_trip(&v2)?;
    for i in 0..n { let (a, b) = (Classifier::confidence(&back, &sample, i), Classifier::confidence(&v2, &sample, i)); ensure!(a.to_bits() == b.to_bits(), "stored", "row {i}: confidence {b} before storing, {a} after"); }
    cx.note(format!("vote of {} of {k} members on n={n}", kept.len()));
    cx.seen(hash_f64s(k as u64, &w));
    Ok(())
}

fn check_vote(cx: &mut Cx, d: &Data, sample: &Sample, vote: &WeightedMajority<StumpH>, w: &[f64], hyps: &[StumpH]) -> Res {
    let n = d.n();
    let ca = lib("confidence_all", || vote.confidence_all(sample))?;
    let pa = lib("predict_all", || Classifier::predict_all(vote, sample))?;
    let ra = lib("predict_all (regressor)", || Regressor::predict_all(vote, sample))?;
    ensure!(ca.len() == n && pa.len() == n && ra.len() == n, "length", "{} confidences, {} classes, {} predictions for {n} rows", ca.len(), pa.len(), ra.len());
    for i in 0..n {
        let x = d.row(i);
        let terms: Vec<f64> = w.iter().zip(hyps).map(|(w, h)| w * h.val(&x)).collect();
        let want: f64 = terms.iter().sum();
        let mag: f64 = terms.iter().map(|v| v.abs()).sum();
        let c = lib("confidence", || vote.confidence(sample, i))?;
        let p = lib("predict", || Classifier::predict(vote, sample, i))?;
        let q = lib("predict (regressor)", || Regressor::predict(vote, sample, i))?;
        ensure!((c - want).abs() <= 1e-12 * mag, "confidence", "row {i}: confidence {c}, the weighted sum of the members' is {want}");
        ensure!((q - want).abs() <= 1e-12 * mag, "prediction", "row {i}: prediction {q}, the weighted sum of the members' is {want}");
        ensure!(c == ca[i] && p == pa[i] && q == ra[i], "all", "row {i}: confidence {c} / class {p} / prediction {q} alone, {} / {} / {} with the whole sample", ca[i], pa[i], ra[i]);
        ensure!(p == if c >= 0.0 { 1 } else { -1 }, "sign", "row {i}: confidence {c} but class {p}");
        if c == 0.0 { cx.count("zero confidences", 1); }
        cx.count("confidences checked", 1);
    }
    Ok(())
}

fn round_trip<T: Serialize + DeserializeOwned>(x: &T) -> Res<T> {
    let s = match serde_json::to_string(x) { Ok(s) => s, Err(e) => return viol("serialise", format!("a learned hypothesis cannot be stored: {e}")) };
    match serde_json::from_str(&s) { Ok(v) => Ok(v), Err(e) => viol("deserialise", format!("a stored hypothesis cannot be read back: {e}; stored as {}", s.chars().take(300).collect::<String>())) }
}

/// Rows beyond the training sample, to ask models about.
fn queries(rng: &mut Rng, d: &Data) -> Data {
    let mut q = d.clone();
    for _ in 0..20 {
        for c in q.cols.iter_mut() {
            let base = c[rng.below(d.n())];
            let v = match rng.below(4) { 0 => base, 1 => base + rng.gauss() * 0.3, 2 => rng.gauss() * 1e6, _ => 0.0 };
            c.push(v);
        }
        q.y.push(1.0);
    }
    q
}

fn same_classifier<C: Classifier + Serialize + DeserializeOwned>(cx: &mut Cx, what: &str, h: &C, s: &Sample) -> Res {
    let back: C = round_trip(h)?;
    let (a, b) = (lib("confidence_all", || h.confidence_all(s))?, lib("confidence_all", || back.confidence_all(s))?);
    for i in 0..a.len() {
        ensure!(a[i] == b[i] || (a[i].is_nan() && b[i].is_nan()), format!("stored:{what}"), "{what}, row {i}: confidence {} before storing, {} after", a[i], b[i]);
        let (p, q) = (h.predict(s, i), back.predict(s, i));
        ensure!(p == q, format!("stored:{what}"), "{what}, row {i}: class {p} before storing, {q} after");
        cx.count("stored predictions compared", 1);
    }
    Ok(())
}
fn same_regressor<C: Regressor + Serialize + DeserializeOwned>(cx: &mut Cx, what: &str, h: &C, s: &Sample) -> Res {
    let back: C = round_trip(h)?;
    for i in 0..s.shape().0 {
        let (a, b) = (lib("predict", || h.predict(s, i))?, lib("predict", || back.predict(s, i))?);
        ensure!(a == b, format!("stored:{what}"), "{what}, row {i}: {a} before storing, {b} after");
        cx.count("stored predictions compared", 1);
    }
    Ok(())
}

fn stored_case(cx: &mut Cx) -> Res {
    let n = gen_n_wide(&mut cx.rng, 2, 50, 300);
    let dd = gen_d(&mut cx.rng, 4, 20);
    let kind = cx.rng.below(6);
    let reg = kind >= 4;
    let d = if reg { gen_regression(&mut cx.rng, n, dd, ALL_KINDS) } else { gen_binary(&mut cx.rng, n, dd, if kind == 2 { &[0, 7] } else { ALL_KINDS }) };
    let s = d.dense()?;
    let q = queries(&mut cx.rng, &d);
    let qs = q.dense()?;
    let w = cx.rng.simplex(n);
    let depth = gen_d(&mut cx.rng, 5, 40);
    let crit = *cx.rng.pick(&[Criterion::Entropy, Criterion::Edge, Criterion::Gini, Criterion::Twoing]);
    let quit = cx.rng.int(1, 12);
    cx.note(format!("kind {kind} depth {depth} {}", d.brief()));
    match kind {
        0 => { let t = lib("DecisionTree::produce", || DecisionTreeBuilder::new(&s).max_depth(depth).criterion(crit).build().produce(&s, &w))?; same_classifier(cx, "decision tree", &t, &qs)?; }
        1 => {
            let wl = lib("DecisionTreeBuilder", || DecisionTreeBuilder::new(&s).max_depth(depth).criterion(crit).build())?;
            let f = match try_lib(|| AdaBoost::init(&s).force_quit_at(quit).run(&Capped(&wl, &d.y))) { Ok(f) => f, Err(LibErr::RoundCap(_)) => return inconclusive("no edge left"), Err(LibErr::Panic(m)) => return viol("panic:AdaBoost", m) };
            same_classifier(cx, "vote of decision trees", &f, &qs)?;
        }
        2 => { let h = lib("GaussianNB::produce", || GaussianNB::init().produce(&s, &w))?; same_classifier(cx, "naive Bayes", &h, &qs)?; }
        3 => {
            let h = (0..3).map(|_| { let w = cx.rng.simplex(n); lib("GaussianNB::produce", || GaussianNB::init().produce(&s, &w)) }).collect::<Res<Vec<_>>>()?;
            let f = lib("from_slices", || WeightedMajority::from_slices(&[0.5, 0.25, 0.25], &h))?;
            same_classifier(cx, "vote of naive Bayes", &f, &qs)?;
        }
        4 => {
            let p: Vec<f64> = (0..n).map(|_| cx.rng.gauss()).collect();
            let lam = *cx.rng.pick(&[0.01, 0.1, 1.0]);
            let t = lib("RegressionTree::produce", || RegressionTreeBuilder::new(&s).max_depth(depth).loss(GBMLoss::L2).lambda_l2(lam).build().produce(&s, &p))?;
            same_regressor(cx, "regression tree", &t, &qs)?;
        }
        _ => {
            let wl = lib("RegressionTreeBuilder", || RegressionTreeBuilder::new(&s).max_depth(depth).loss(GBMLoss::L2).lambda_l2(0.01).build())?;
            let f = lib("GBM::run", || GBM::init_with_loss(&s, GBMLoss::L2).run(&wl))?;
            same_regressor(cx, "gradient boosting model", &f, &qs)?;
        }
    }
    cx.seen(d.fp() ^ kind as u64);
    Ok(())
}

/// Leaves the run when the learner finds no edge.
struct Capped<'a, W>(&'a W, &'a [f64]);
impl<W: WeakLearner> WeakLearner for Capped<'_, W> where W::Hypothesis: Classifier {
    type Hypothesis = W::Hypothesis;
    fn name(&self) -> &str { "capped" }
    fn produce(&self, s: &Sample, dist: &[f64]) -> W::Hypothesis {
        let h = self.0.produce(s, dist);
        let e: f64 = (0..dist.len()).map(|i| dist[i] * self.1[i] * h.confidence(s, i)).sum();
        if e.is_nan() || e < 1e-9 { std::panic::panic_any(RoundCap(0)); }
        h
    }
}

fn aggregation_case(cx: &mut Cx) -> Res {
    let n = gen_n_wide(&mut cx.rng, 1, 40, 400);
    let dd = cx.rng.int(1, 3);
    let d = gen_binary(&mut cx.rng, n, dd, &[0, 1, 3]);
    let k = match cx.rng.below(4) { 0 => cx.rng.int(0, 3), 1 => cx.rng.int(60, 140), _ => cx.rng.int(1, 12) };
    let hyps: Vec<StumpH> = (0..k).map(|_| StumpH::gen(&mut cx.rng, dd)).collect();
    let s = d.dense()?;
    let q = queries(&mut cx.rng, &d);
    let qs = q.dense()?;
    let a = if cx.rng.bool(0.5) { lib("NaiveAggregation::new", || NaiveAggregation::new(hyps.clone(), &s))? } else { lib("NaiveAggregation::from_slice", || NaiveAggregation::from_slice(&hyps, &s))? };
    let pat = |x: &[f64]| -> Vec<bool> { hyps.iter().map(|h| h.val(x) >= 0.0).collect() };
    let pos: std::collections::HashSet<Vec<bool>> = (0..n).filter(|&i| d.y[i] > 0.0).map(|i| pat(&d.row(i))).collect();
    let all = lib("predict_all", || a.predict_all(&qs))?;
    let mut both = [0u64; 2];
    for i in 0..q.n() {
        let want = pos.contains(&pat(&q.row(i)));
        let c = lib("confidence", || a.confidence(&qs, i))?;
        let p = lib("predict", || a.predict(&qs, i))?;
        ensure!(c == if want { 1.0 } else { -1.0 }, "aggregation", "row {i}: aggregation of {k} hypotheses has confidence {c}; a positive training example with the same signs exists: {want}");
        ensure!(p == if want { 1 } else { -1 } && all[i] == p, "aggregation", "row {i}: class {p} alone, {} with the whole sample; a positive training example with the same signs exists: {want}", all[i]);
        both[want as usize] += 1;
    }
    cx.count("rows aggregated to +1", both[1]);
    cx.count("rows aggregated to -1", both[0]);
    if both[0] > 0 && both[1] > 0 { cx.seen(d.fp() ^ k as u64); }
    Ok(())
}

fn vote_huge(cx: &mut Cx) -> Res { huge(cx, vote_case) }
fn agg_huge(cx: &mut Cx) -> Res { huge(cx, aggregation_case) }

pub fn p20() -> Check {
    Check {
        id: "P20",
        rule: "distinct weight vectors, samples and models; an aggregation counts when it predicts both classes",
        assumptions: &["models are stored with serde_json (exact decimal round trip of floats)", "sums may differ by 1e-12 of the sum of absolute terms"],
        families: vec![fam("huge-votes", 1, 8, vote_huge), fam("huge-aggregation", 1, 8, agg_huge), fam("votes", 4000, 60000, vote_case), fam("stored", 2000, 30000, stored_case), fam("aggregation", 2000, 30000, aggregation_case)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

// ---------------------------------------------------------------- P22

/// max over rho of rho - sum(max(0, rho - m)) / nu: the dual of the capped minimum
fn soft_margin(m: &[f64], nu: f64) -> f64 {
    if m.len() > 2000 {
        let mut v = m.to_vec();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut s = 0.0;
        return v.iter().enumerate().map(|(k, &rho)| { let x = rho - (k as f64 * rho - s) / nu; s += rho; x }).fold(f64::MIN, f64::max);
    }
    m.iter().map(|&rho| rho - m.iter().map(|v| (rho - v).max(0.0)).sum::<f64>() / nu).fold(f64::MIN, f64::max)
}

fn objective_case(cx: &mut Cx) -> Res {
    let n = gen_n_wide(&mut cx.rng, 1, 80, 800);
    let dd = cx.rng.int(1, 4);
    let d = gen_binary(&mut cx.rng, n, dd, &[0, 1, 3, 4]);
    let s = d.dense()?;
    let k = gen_d(&mut cx.rng, 15, 150);
    let mut w = cx.rng.simplex(k);
    let kind = cx.rng.below(4);
    let nu = crate::booster::gen_nu(&mut cx.rng, n);
    cx.note(format!("kind {kind} n={n} nu={nu}"));
    let check = |cx: &mut Cx, m: &[f64], soft: f64, hard: f64, exp: f64| -> Res {
        let (ws, wh, we) = (soft_margin(m, nu), m.iter().copied().fold(f64::MAX, f64::min), m.iter().map(|v| (-v).exp()).sum::<f64>() / m.len() as f64);
        ensure!((soft - ws).abs() <= 1e-9, "soft", "soft-margin objective with nu={nu} is {soft}, by definition {ws}; margins {:?}", &m[..m.len().min(20)]);
        ensure!((hard - wh).abs() <= 1e-12, "hard", "hard-margin objective is {hard}, the smallest margin {wh}; margins {:?}", &m[..m.len().min(20)]);
        ensure!((exp - we).abs() <= 1e-12 * we, "exponential", "exponential loss is {exp}, by definition {we}; margins {:?}", &m[..m.len().min(20)]);
        cx.count("objectives compared", 3);
        if m.iter().any(|v| v.fract() != 0.0) { cx.count("confidence-rated votes", 1); }
        cx.seen(hash_f64s(nu.to_bits(), m));
        Ok(())
    };
    macro_rules! eval { ($v:expr) => { (
        lib("SoftMarginObjective::eval", || SoftMarginObjective::new(nu).eval(&s, &$v))?,
        lib("HardMarginObjective::eval", || HardMarginObjective::new().eval(&s, &$v))?,
        lib("ExponentialLoss::eval", || ExponentialLoss::new().eval(&s, &$v))?) } }
    match kind {
        0 => {
            // table of values, with heavy ties
            let vals: Vec<Vec<f64>> = (0..k).map(|_| (0..n).map(|_| *cx.rng.pick(&[-1.0, 1.0, 1.0])).collect()).collect();
            if cx.rng.bool(0.3) { w = vec![1.0 / k as f64; k]; }
            let v = WeightedMajority { weights: w.clone(), hypotheses: vals.iter().enumerate().map(|(i, v)| TableH { id: i, vals: Arc::new(v.clone()) }).collect() };
            let m: Vec<f64> = (0..n).map(|i| d.y[i] * (0..k).map(|j| w[j] * vals[j][i]).sum::<f64>()).collect();
            let (a, b, c) = eval!(v);
            check(cx, &m, a, b, c)
        }
        1 => {
            let hyps: Vec<StumpH> = (0..k).map(|_| StumpH::gen(&mut cx.rng, dd)).collect();
            let m: Vec<f64> = (0..n).map(|i| { let x = d.row(i); d.y[i] * w.iter().zip(&hyps).map(|(w, h)| w * h.val(&x)).sum::<f64>() }).collect();
            let v = WeightedMajority { weights: w.clone(), hypotheses: hyps };
            let (a, b, c) = eval!(v);
            check(cx, &m, a, b, c)
        }
        2 => {
            let crit = *cx.rng.pick(&[Criterion::Entropy, Criterion::Edge, Criterion::Gini, Criterion::Twoing]);
            let dist = cx.rng.simplex(n);
            let t = lib("DecisionTree::produce", || DecisionTreeBuilder::new(&s).max_depth(2).criterion(crit).build().produce(&s, &dist))?;
            let m: Vec<f64> = (0..n).map(|i| d.y[i] * t.confidence(&s, i)).collect();
            let (a, b, c) = eval!(t);
            check(cx, &m, a, b, c)
        }
        _ => {
            let hyps: Vec<StumpH> = (0..k).map(|_| StumpH::gen(&mut cx.rng, dd)).collect();
            let v = lib("NaiveAggregation::new", || NaiveAggregation::new(hyps, &s))?;
            let m: Vec<f64> = (0..n).map(|i| d.y[i] * v.confidence(&s, i)).collect();
            let (a, b, c) = eval!(v);
            check(cx, &m, a, b, c)
        }
    }
}

fn obj_huge(cx: &mut Cx) -> Res { huge(cx, objective_case) }

pub fn p22() -> Check {
    Check {
        id: "P22",
        rule: "distinct (nu, margins) evaluated",
        assumptions: &["the exponential loss is the average over the sample, as its documentation gives the formula"],
        families: vec![fam("objectives", 10000, 200000, objective_case), fam("huge", 1, 40, obj_huge)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
