//! P23: runs are reproducible.
use std::sync::Arc;
use miniboosts::*;
use crate::booster::*;
use crate::checks::research::sequential;
use crate::ctx::*;
use crate::data::*;
use crate::learn::*;
use crate::rng::{hash_f64s, hash_str, Rng};
use crate::with_booster;

#[derive(Clone, PartialEq, Debug, Default)]
struct Trace { dists: Vec<Vec<f64>>, ids: Vec<usize>, vote: Vec<(usize, f64)>, cut: bool }
impl Trace {
    fn bits_eq(&self, o: &Trace) -> Option<String> {
        if self.cut != o.cut { return Some(format!("one run was left after {} rounds, the other after {}", self.ids.len(), o.ids.len())); }
        for t in 0..self.dists.len().min(o.dists.len()) {
            for i in 0..self.dists[t].len().max(o.dists[t].len()) {
                let (a, b) = (self.dists[t].get(i), o.dists[t].get(i));
                if a.map(|v| v.to_bits()) != b.map(|v| v.to_bits()) { return Some(format!("weights of round {} differ at example {i}: {a:?} and {b:?}", t + 1)); }
            }
        }
        if self.dists.len() != o.dists.len() { return Some(format!("{} rounds and {} rounds", self.dists.len(), o.dists.len())); }
        if self.vote.len() != o.vote.len() || self.vote.iter().zip(&o.vote).any(|(a, b)| a.0 != b.0 || a.1.to_bits() != b.1.to_bits()) { return Some(format!("votes {:?} and {:?}", self.vote, o.vote)); }
        None
    }
}

fn one<B: Booster<TableH, Output = WeightedMajority<TableH>>>(b: &mut B, sample: &Sample, strat: Strategy, cap: usize, name: &str) -> Res<Trace> {
    let spy = Spy::new(sample, cap, strat).min_edge(1e-9);
    let out = match try_lib(|| b.run(&spy)) {
        Ok(o) => Some(o),
        Err(LibErr::RoundCap(_)) => None,
        Err(LibErr::Panic(m)) => return viol(format!("panic:{name}"), format!("{name} panicked: {m}")),
    };
    let r = spy.take();
    Ok(Trace { dists: r.iter().map(|x| x.dist.clone()).collect(), ids: r.iter().map(|x| x.id).collect(),
        vote: out.iter().flat_map(|o| o.hypotheses.iter().map(|h| h.id).zip(o.weights.iter().copied()).collect::<Vec<_>>()).collect(), cut: out.is_none() })
}

fn params(rng: &mut Rng, a: Algo, n: usize) -> Params {
    Params { nu: gen_nu(rng, n), tol: *rng.pick(&[0.3, 0.2, 0.1, 0.05]), kappa: *rng.pick(&[0.1, 0.3, 0.5]), gamma: *rng.pick(&[0.05, 0.2, 0.4]), quit: a.quits().then(|| rng.int(1, 30)) }
}

/// The same object again, after other runs, and fresh objects: everything bit by bit the same.
fn repeat_case(cx: &mut Cx) -> Res {
    sequential();
    let a = *cx.rng.pick(&Algo::all());
    let (sample, y) = toy_sample(&mut cx.rng, 2, if a.solver() { 20 } else { 40 })?;
    let n = y.len();
    let p = params(&mut cx.rng, a, n);
    let k = cx.rng.int(4, 20);
    let kind = cx.rng.int(1, 3);
    let pool = gen_pool(&mut cx.rng, &y, k, kind);
    let other = gen_pool(&mut cx.rng, &y, 8, 1);
    let cap = 40;
    let name = a.name();
    let style = cx.rng.below(4);
    let rng = cx.rng.fork();
    let strat = || -> Strategy { match style { 0 => positive_response(pool.clone(), &y, 1e-6, 0, rng.clone()), 1 => fresh_response(y.clone(), 0.05, 0.8, 0, rng.clone()), _ => best_response(pool.clone(), &y) } };
    let (first, again, disturbed, abandoned, fresh) = with_booster!(a, &p, &sample, |mk| {
        let mut b = mk();
        let first = one(&mut b, &sample, strat(), cap, &name)?;
        let again = one(&mut b, &sample, strat(), cap, &name)?;
        let _ = one(&mut b, &sample, best_response(other.clone(), &y), 7, &name)?;
        let disturbed = one(&mut b, &sample, strat(), cap, &name)?;
        // a run given up half way
        let mut b = mk();
        let spy = Spy::new(&sample, 3, best_response(other.clone(), &y)).min_edge(1e-9);
        let _ = try_lib(|| { b.preprocess(&spy); for it in 1..4 { if b.boost(&spy, it).is_break() { break; } } });
        let abandoned = one(&mut b, &sample, strat(), cap, &name)?;
        let fresh = one(&mut mk(), &sample, strat(), cap, &name)?;
        (first, again, disturbed, abandoned, fresh)
    });
    cx.note(format!("{name} n={n} {p:?} learner {style}: {} rounds, cut {}, vote {:?}", first.ids.len(), first.cut, first.vote.iter().take(5).collect::<Vec<_>>()));
    for (t, what) in [(&again, "the second run of the same booster"), (&disturbed, "a run of the same booster after a run with another learner"), (&abandoned, "a run after one given up half way"), (&fresh, "a run of a fresh booster with the same parameters")] {
        if let Some(m) = first.bits_eq(t) { return viol(format!("{name}"), format!("{name}: {what} differs from the first one: {m} ({p:?}, n={n})")); }
        cx.count("runs compared bit by bit", 1);
        cx.count("weightings compared bit by bit", t.dists.len() as u64);
    }
    if first.dists.len() >= 2 { let mut h = hash_str(&name); for d in &first.dists { h = hash_f64s(h, d); } cx.seen(h); }
    Ok(())
}

/// Runs `f` with the given number of worker threads.
fn with_threads<T: Send>(k: usize, f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(k).stack_size(4 << 20).build().expect("harness: pool").install(f)
}

/// The learner's answers are replayed by round, so that only the booster's own arithmetic is compared.
fn threads_case(cx: &mut Cx) -> Res {
    let a = *cx.rng.pick(&Algo::all());
    let big = cx.rng.bool(0.3);
    let (sample, y) = toy_sample(&mut cx.rng, if big { 60 } else { 2 }, if a.solver() { if big { 80 } else { 20 } } else if big { 600 } else { 40 })?;
    let n = y.len();
    let p = params(&mut cx.rng, a, n);
    let kind = cx.rng.int(1, 3);
    let pool = gen_pool(&mut cx.rng, &y, 12, kind);
    let cap = 25;
    let name = a.name();
    let rec = Arc::new(std::sync::Mutex::new(Vec::<(usize, Arc<Vec<f64>>)>::new()));
    let base = {
        let (rec, sample, y, pool, p, name) = (rec.clone(), &sample, &y, &pool, &p, &name);
        with_threads(1, move || -> Res<Trace> {
            let mut inner = best_response(pool.clone(), y);
            let rec2 = rec.clone();
            let strat: Strategy = Box::new(move |t, d| { let v = inner(t, d); rec2.lock().unwrap().push(v.clone()); v });
            with_booster!(a, p, sample, |mk| one(&mut mk(), sample, strat, cap, name))
        })?
    };
    let answers = rec.lock().unwrap().clone();
    let tol = if a.solver() { 2e-4 } else { 1e-9 };
    for k in [2, 3, 8] {
        if k == 3 && cx.rng.bool(0.5) { continue; }
        let (answers2, sample, p, name) = (answers.clone(), &sample, &p, &name);
        let tr = with_threads(k, move || -> Res<Trace> {
            let strat: Strategy = Box::new(move |t, _| answers2.get(t - 1).or(answers2.last()).cloned().unwrap());
            with_booster!(a, p, sample, |mk| one(&mut mk(), sample, strat, cap, name))
        })?;
        let m = base.dists.len().min(tr.dists.len());
        for t in 0..m {
            let diff = base.dists[t].iter().zip(&tr.dists[t]).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max);
            cx.max(if a.solver() { "largest weight difference (solver)" } else { "largest weight difference" }, diff);
            if std::env::var("VMON_DIFF").is_ok() { cx.max(&name, diff); }
            // the line search of Frank-Wolfe may end anywhere where the objective is flat up to rounding
            if diff > tol && (name.contains("LineSearch") || name.contains("Blended")) { cx.count("line searches ending elsewhere", 1); return Ok(()); }
            ensure!(diff <= tol, format!("threads:{name}"), "{name}: with {k} threads a weight of round {} differs by {diff:e} from that with one thread ({p:?}, n={n})", t + 1);
            cx.count("weightings compared across thread counts", 1);
        }
        // a stopping rule within rounding of its threshold may go either way; more than one round it may not
        ensure!(base.dists.len().abs_diff(tr.dists.len()) <= 1, format!("rounds:{name}"), "{name}: {} rounds with one thread, {} with {k} ({p:?}, n={n})", base.dists.len(), tr.dists.len());
        if base.dists.len() != tr.dists.len() { cx.count("runs ending one round apart", 1); }
        else if !base.cut && !tr.cut {
            let (c0, c1) = (combine(&base, &answers, n), combine(&tr, &answers, n));
            let diff = c0.iter().zip(&c1).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max);
            cx.max(if a.solver() { "largest confidence difference (solver)" } else { "largest confidence difference" }, diff);
            if !a.solver() && !name.contains("LineSearch") && !name.contains("Blended") { ensure!(diff <= 1e-8, format!("vote:{name}"), "{name}: with {k} threads a confidence of the vote differs by {diff:e} from that with one thread ({p:?}, n={n})"); }
            cx.count("votes compared across thread counts", 1);
        }
    }
    if base.dists.len() >= 2 { let mut h = hash_str(&name); for d in &base.dists { h = hash_f64s(h, d); } cx.seen(h); }
    Ok(())
}
fn ln(l: GBMLoss) -> &'static str { if l == GBMLoss::L1 { "L1" } else { "L2" } }
fn combine(t: &Trace, answers: &[(usize, Arc<Vec<f64>>)], n: usize) -> Vec<f64> {
    let mut c = vec![0.0; n];
    for (id, w) in &t.vote { if let Some((_, v)) = answers.iter().find(|a| a.0 == *id) { for i in 0..n { c[i] += w * v[i]; } } }
    c
}

/// Positive weights that are multiples of 1/1024 (or a finer power of two) and sum exactly to one.
pub fn dyadic_simplex(rng: &mut Rng, n: usize) -> Vec<f64> {
    let total = 1024usize.max((4 * n).next_power_of_two());
    let mut m = vec![1usize; n];
    let mut left = total - n;
    while left > 0 { let k = rng.int(1, left.min(total / 16)); m[rng.below(n)] += k; left -= k; }
    m.iter().map(|&v| v as f64 / total as f64).collect()
}

/// Learners: the same weights give the same hypothesis, whatever the object and the number of threads.
fn learner_case(cx: &mut Cx) -> Res {
    let n = gen_n(&mut cx.rng, 2, 60);
    let dd = cx.rng.int(1, 6);
    let kind = cx.rng.below(3);
    let mut d = if kind == 1 { gen_regression(&mut cx.rng, n, dd, &[0, 1, 3, 4, 5]) } else { gen_binary(&mut cx.rng, n, dd, if kind == 2 { &[0, 7] } else { &[0, 1, 3, 4, 5, 8] }) };
    if kind == 0 && cx.rng.bool(0.3) {
        // copies and mirror images of features: ties everywhere
        for j in 1..dd { if cx.rng.bool(0.6) { let c = d.cols[0].clone(); d.cols[j] = if cx.rng.bool(0.5) { c } else { c.iter().map(|v| -v).collect() }; } }
    }
    // Sums of dyadic weights (and gradients) are exact, so nothing may depend on the number of threads;
    // with others a tie may be broken by the rounding, and only runs with one thread are compared.
    let exact = cx.rng.bool(0.5);
    let dist: Vec<f64> = if exact { dyadic_simplex(&mut cx.rng, n) } else { cx.rng.simplex(n) };
    if kind == 1 && exact { for v in d.y.iter_mut() { *v = (*v * 64.0).round().clamp(-4096.0, 4096.0) / 64.0; } }
    let depth = cx.rng.int(1, 4);
    let crit = *cx.rng.pick(&[Criterion::Entropy, Criterion::Edge, Criterion::Gini, Criterion::Twoing]);
    let l = *cx.rng.pick(&[GBMLoss::L1, GBMLoss::L2]);
    let cur: Vec<f64> = (0..n).map(|_| { let v = cx.rng.gauss(); if exact { (v * 64.0).round() / 64.0 } else { v } }).collect();
    let mut q = d.clone();
    for _ in 0..15 { for c in q.cols.iter_mut() { let v = c[cx.rng.below(n)] + cx.rng.gauss(); c.push(v); } q.y.push(1.0); }
    let (s, qs) = (d.dense()?, q.dense()?);
    let go = || -> Vec<f64> { match kind {
        0 => { let wl = DecisionTreeBuilder::new(&s).max_depth(depth).criterion(crit).build(); wl.produce(&s, &dist).confidence_all(&qs) }
        1 => { let wl = RegressionTreeBuilder::new(&s).max_depth(depth).loss(l).lambda_l2(0.1).build(); Regressor::predict_all(&wl.produce(&s, &cur), &qs) }
        _ => { let h = GaussianNB::init().produce(&s, &dist); let mut v = h.confidence_all(&qs); for i in 0..qs.shape().0 { let mut p = h.probabilities(&qs, i); p.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap()); v.extend(p.iter().map(|x| x.1)); } v }
    } };
    let what = ["decision tree", "regression tree", "naive Bayes"][kind];
    let base = lib(what, || with_threads(1, go))?;
    for k in [1, 1, 2, 8] {
        if k > 1 && !exact && kind != 2 { continue; }
        let v = lib(what, || with_threads(k, go))?;
        ensure!(v.len() == base.len(), "length", "{what}: {} and {} answers", base.len(), v.len());
        for i in 0..v.len() {
            let eq = v[i] == base[i] || (v[i].is_nan() && base[i].is_nan()) || (k > 1 && kind == 2 && (v[i] - base[i]).abs() <= 1e-5 * base[i].abs());
            ensure!(eq, format!("learner:{what}"), "{what} (depth {depth}, {crit:?}, {}): answer {i} is {} with one thread and {} {}; {}", ln(l), base[i], v[i], if k == 1 { "in a second run".to_string() } else { format!("with {k} threads") }, d.brief());
        }
        cx.count(if k == 1 { "answers compared between runs" } else { "answers compared across thread counts" }, v.len() as u64);
    }
    if base.iter().any(|v| *v != base[0]) { cx.seen(d.fp() ^ kind as u64); }
    Ok(())
}

/// Boosters with tree learners, and gradient boosting: two fresh runs give the same model.
fn whole_case(cx: &mut Cx) -> Res {
    sequential();
    let n = gen_n(&mut cx.rng, 2, 40);
    let dd = cx.rng.int(1, 4);
    let reg = cx.rng.bool(0.25);
    let d = if reg { gen_regression(&mut cx.rng, n, dd, &[0, 1, 3, 4]) } else { gen_binary(&mut cx.rng, n, dd, &[0, 1, 3, 4, 8]) };
    let s = d.dense()?;
    let depth = cx.rng.int(1, 3);
    let crit = *cx.rng.pick(&[Criterion::Entropy, Criterion::Edge, Criterion::Gini, Criterion::Twoing]);
    let l = *cx.rng.pick(&[GBMLoss::L1, GBMLoss::L2]);
    let a = *cx.rng.pick(&Algo::all());
    let mut p = params(&mut cx.rng, a, n);
    if p.tol < 0.1 { p.tol = 0.1; }
    let name = if reg { format!("GBM {}", ln(l)) } else { a.name() };
    let go = || -> Result<Vec<f64>, LibErr> {
        if reg {
            return try_lib(|| { let wl = RegressionTreeBuilder::new(&s).max_depth(depth).loss(l).lambda_l2(0.1).build(); Regressor::predict_all(&GBM::init_with_loss(&s, l).run(&wl), &s) });
        }
        let wl = DecisionTreeBuilder::new(&s).max_depth(depth).criterion(crit).build();
        let rec = Guard(Rec::new(&s, &wl, 40));
        with_booster!(a, &p, &s, |mk| try_lib(|| mk().run(&rec).confidence_all(&s)))
    };
    let r = go();
    for _ in 0..3 {
        match (&r, go()) {
            (Ok(x), Ok(y)) => {
                for i in 0..x.len() { ensure!(x[i] == y[i], format!("whole:{name}"), "{name} with trees of depth {depth} ({crit:?}): two fresh runs give confidences {} and {} to example {i} ({p:?}); {}", x[i], y[i], d.brief()); }
                cx.count("models compared bit by bit", 1);
            }
            (Err(LibErr::RoundCap(_)), Err(LibErr::RoundCap(_))) => return inconclusive("run left: no edge, or too many rounds"),
            (Err(LibErr::Panic(m)), _) => return viol(format!("panic:{name}"), format!("{name} panicked: {m}")),
            (_, Err(LibErr::Panic(m))) => return viol(format!("panic:{name}"), format!("{name} panicked: {m}")),
            _ => return viol(format!("whole:{name}"), format!("{name} with trees of depth {depth} ({crit:?}): one run finished, an identical one did not ({p:?}); {}", d.brief())),
        }
    }
    cx.seen(d.fp() ^ hash_str(&name));
    Ok(())
}
/// Leaves the run when the recorded learner found no edge.
struct Guard<'w, W: WeakLearner>(Rec<'w, W>);
impl<W> WeakLearner for Guard<'_, W> where W: WeakLearner, W::Hypothesis: Classifier + Clone {
    type Hypothesis = W::Hypothesis;
    fn name(&self) -> &str { self.0.name() }
    fn produce(&self, s: &Sample, dist: &[f64]) -> W::Hypothesis {
        let h = self.0.produce(s, dist);
        let e = self.0.rounds.borrow().last().map_or(0.0, |r| r.edge);
        if e.is_nan() || e <= 1e-9 { std::panic::panic_any(RoundCap(0)); }
        h
    }
}

pub fn p23() -> Check {
    Check {
        id: "P23",
        rule: "a booster case counts when at least two weightings were seen, a learner case when the answers differ from one another; distinct = distinct histories or samples",
        assumptions: &["repeated runs are compared bit by bit with rayon confined to one thread", "across thread counts the learner's answers are replayed; weights may differ by 1e-9 (solver-based boosters 2e-4; not judged after a Frank-Wolfe line search that ends elsewhere on a flat stretch) and a stopping rule may fire one round apart", "trees are compared across thread counts with weights and gradients whose sums are exact, naive Bayes with 1e-5 relative", "neural networks draw random numbers and are left out"],
        families: vec![fam("repeat", 4000, 60000, repeat_case), fam("threads", 600, 8000, threads_case), fam("learners", 1500, 20000, learner_case), fam("whole", 1500, 20000, whole_case)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
