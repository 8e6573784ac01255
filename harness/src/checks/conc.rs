//! P25: workloads for the sanitizers. Run plainly, under ThreadSanitizer and under AddressSanitizer (tools/sanitize.py).
use std::sync::{Arc, Barrier};
use miniboosts::research::{CrossValidation, ObjectiveFunction};
use miniboosts::*;
use crate::booster::*;
use crate::checks::repro::dyadic_simplex;
use crate::ctx::*;
use crate::data::*;
use crate::learn::*;
use crate::rng::{hash_f64s, hash_str};
use crate::with_booster;

const SIGNS: [&str; 9] = ["overflow", "out of bounds", "out of range", "unsafe precondition", "already borrowed", "already mutably borrowed", "misaligned", "null pointer", "slice index"];

/// What the sanitized run judges by itself: panics that stand for an access out of bounds, an overflow,
/// an unsafe precondition or a broken borrow. Other behaviour is judged by the other properties.
pub fn memory_only(r: Res) -> Res {
    match r {
        Err(Stop::Viol(v)) if v.sig.starts_with("conc:") || SIGNS.iter().any(|s| v.msg.contains(s)) => Err(Stop::Viol(Viol { sig: format!("memory:{}", v.sig), msg: v.msg })),
        Err(Stop::Viol(_)) => Ok(()),
        r => r,
    }
}

/// Runs `f(k)` on `k` threads that start together.
fn race<T: Send>(k: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let b = Barrier::new(k);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..k).map(|i| { let (b, f) = (&b, &f); std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || { b.wait(); f(i) }).expect("harness: spawn") }).collect();
        hs.into_iter().map(|h| h.join().expect("harness: join")).collect()
    })
}

/// Several threads use one sample, one learner and one hypothesis at a time.
fn shared_learner(cx: &mut Cx) -> Res {
    let n = gen_n(&mut cx.rng, 4, 120);
    let dd = cx.rng.int(1, 6);
    let kind = cx.rng.below(4);
    let mut d = if kind == 1 { gen_regression(&mut cx.rng, n, dd, &[0, 1, 3, 4, 5]) } else { gen_binary(&mut cx.rng, n, dd, &[0, 1, 3, 4, 5, 8]) };
    if kind == 1 { for v in d.y.iter_mut() { *v = (*v * 64.0).round().clamp(-4096.0, 4096.0) / 64.0; } }
    let sparse = cx.rng.bool(0.4);
    if sparse { d.no_zero_cols(&mut cx.rng); }
    let s = if sparse { d.sparse(cx)? } else { d.dense()? };
    let k = cx.rng.int(2, 6);
    let dists: Vec<Vec<f64>> = (0..k).map(|_| dyadic_simplex(&mut cx.rng, n)).collect();
    let curs: Vec<Vec<f64>> = (0..k).map(|_| (0..n).map(|_| (cx.rng.gauss() * 64.0).round() / 64.0).collect()).collect();
    let depth = cx.rng.int(1, 4);
    let crit = *cx.rng.pick(&[Criterion::Entropy, Criterion::Edge, Criterion::Gini, Criterion::Twoing]);
    let l = *cx.rng.pick(&[GBMLoss::L1, GBMLoss::L2]);
    let reps = 3;
    let what = ["decision tree", "regression tree", "naive Bayes", "neural network"][kind];
    macro_rules! go { ($wl:expr, $w:expr, $all:expr) => {{
        let wl = $wl;
        let alone: Vec<Vec<f64>> = (0..k).map(|i| $all(&wl.produce(&s, &$w[i]))).collect();
        let h0 = wl.produce(&s, &$w[0]);
        let together = race(k, |i| try_lib(|| { let mut v = vec![]; for _ in 0..reps { v.push($all(&wl.produce(&s, &$w[i]))); v.push($all(&h0)); } v }));
        (alone, together)
    }}; }
    let r = try_lib(|| match kind {
        0 => go!(DecisionTreeBuilder::new(&s).max_depth(depth).criterion(crit).build(), dists, |h: &_| Classifier::confidence_all(h, &s)),
        1 => go!(RegressionTreeBuilder::new(&s).max_depth(depth).loss(l).lambda_l2(0.125).build(), curs, |h: &_| Regressor::predict_all(h, &s)),
        2 => go!(GaussianNB::init(), dists, |h: &_| Classifier::confidence_all(h, &s)),
        _ => go!(NeuralNetwork::init(&s).n_epoch(2).n_iter(2).append(3, Activation::ReLu(1.0)).append(1, Activation::Sigmoid(1.0)), dists, |h: &_| Classifier::confidence_all(h, &s)),
    });
    let (alone, together) = match r { Ok(v) => v, Err(LibErr::Panic(m)) => return viol(format!("conc:panic:{what}"), format!("{what} panicked: {m}")), Err(_) => return inconclusive("cut") };
    for (i, t) in together.into_iter().enumerate() {
        let t = match t { Ok(v) => v, Err(LibErr::Panic(m)) => return viol(format!("conc:panic:{what}"), format!("{what} panicked in one of {k} threads: {m}")), Err(_) => return inconclusive("cut") };
        if kind == 3 { cx.count("hypotheses trained side by side", reps); continue; }
        for (j, v) in t.iter().enumerate() {
            let want = if j % 2 == 0 { &alone[i] } else { &alone[0] };
            for x in 0..n {
                let eq = v[x] == want[x] || (v[x].is_nan() && want[x].is_nan()) || (kind == 2 && (v[x] - want[x]).abs() <= 1e-5 * want[x].abs());
                ensure!(eq, format!("conc:{what}"), "{what} (depth {depth}, {crit:?}) trained by {k} threads at once answers {} to example {x}, alone {} ({})", v[x], want[x], d.brief());
            }
            cx.count("hypotheses trained side by side", 1);
        }
    }
    cx.seen(d.fp() ^ k as u64);
    Ok(())
}

/// Several boosters at once on one sample, with replayed learners.
fn shared_boosters(cx: &mut Cx) -> Res {
    let (sample, y) = toy_sample(&mut cx.rng, 2, 60)?;
    let n = y.len();
    let k = cx.rng.int(2, 5);
    let jobs: Vec<(Algo, Params)> = (0..k).map(|_| {
        let mut a = *cx.rng.pick(&Algo::all());
        if cx.thorough || n <= 20 || !a.solver() {} else { a = Algo::Ada; }
        (a, Params { nu: gen_nu(&mut cx.rng, n), tol: 0.2, kappa: 0.3, gamma: 0.2, quit: a.quits().then_some(10) })
    }).collect();
    let kind = cx.rng.int(1, 3);
    let pool = gen_pool(&mut cx.rng, &y, 12, kind);
    let go = |i: usize| -> Result<Vec<Vec<f64>>, LibErr> {
        let (a, p) = &jobs[i];
        let spy = Spy::new(&sample, 12, {
            // the answers do not depend on the weights
            let pool = pool.clone();
            Box::new(move |t, _| { let j = (t * 5 + i) % pool.len(); (j, pool[j].clone()) })
        });
        let r = try_lib(|| with_booster!(*a, p, &sample, |mk| { let h = mk().run(&spy); (h.confidence_all(&sample), HardMarginObjective::new().eval(&sample, &h), SoftMarginObjective::new(p.nu).eval(&sample, &h), ExponentialLoss::new().eval(&sample, &h)) }));
        let rounds: Vec<Vec<f64>> = spy.take().into_iter().map(|r| r.dist).collect();
        match r { Err(LibErr::Panic(m)) => Err(LibErr::Panic(m)), _ => Ok(rounds) }
    };
    let alone: Vec<_> = (0..k).map(go).collect();
    let together = race(k, go);
    for (i, (x, z)) in alone.iter().zip(&together).enumerate() {
        let name = jobs[i].0.name();
        match (x, z) {
            (Ok(x), Ok(z)) => {
                // a booster whose next weights amplify rounding is judged on the first rounds only
                for t in 0..x.len().min(z.len()).min(3) {
                    let diff = x[t].iter().zip(&z[t]).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
                    cx.max("largest weight difference", diff);
                    let soft = name.contains("LineSearch") || name.contains("Blended");
                    ensure!(diff <= 1e-3 || soft, format!("conc:{name}"), "{name} run beside others: a weight of round {} differs by {diff:e} from that of a run alone ({:?}, n={n})", t + 1, jobs[i].1);
                }
                cx.count("boosters run side by side", 1);
                cx.seen(hash_str(&name) ^ hash_f64s(0, x.last().unwrap_or(&vec![])));
            }
            // hypotheses of negative edge are outside the contract: whether a run ends in a refusal may hang on rounding,
            // but not in a memory error
            (x, z) => {
                for r in [x, z] { if let Err(LibErr::Panic(m)) = r { ensure!(!SIGNS.iter().any(|s| m.contains(s)), format!("conc:{name}"), "{name} panicked: {m}"); } }
                cx.count("runs refused", 1);
            }
        }
    }
    Ok(())
}

/// Several threads read files, split samples and compute statistics at once.
fn shared_data(cx: &mut Cx) -> Res {
    let n = gen_n(&mut cx.rng, 5, 200);
    let dd = cx.rng.int(1, 6);
    let mut d = gen_binary(&mut cx.rng, n, dd, &[0, 1, 3, 4, 5, 8]);
    d.no_zero_cols(&mut cx.rng);
    let k = cx.rng.int(2, 6);
    let (csv, svm) = (cx.file("csv"), cx.file("svm"));
    std::fs::write(&csv, d.csv_text(0, "the class", true)).expect("harness: write");
    std::fs::write(&svm, d.svm_text()).expect("harness: write");
    let w = Arc::new(cx.rng.simplex(n));
    let base = d.dense()?;
    let folds = cx.rng.int(2, 5);
    let out = race(k, |i| try_lib(|| {
        let s = if i % 2 == 0 { SampleReader::default().file(csv.clone()).has_header(true).target_feature("the class").read().expect("read failed") }
            else { SampleReader::<_, String>::default().file(svm.clone()).read().expect("read failed") };
        let mut sums = vec![];
        for s in [&s, &base] {
            for (m, v) in s.weighted_mean_and_variance(&w[..]) { sums.push(m); sums.push(v); }
            for y in s.unique_target() { sums.extend(s.weighted_mean_for_label(y, &w[..])); }
            for (a, b) in CrossValidation::new(s).n_folds(folds).seed(i as u64).shuffle() {
                sums.push(a.shape().0 as f64 + b.shape().0 as f64 - n as f64);
                for x in [&a, &b] { for r in 0..x.shape().0 { let (f, y) = x.at(r); sums.push(f.iter().sum::<f64>() * 0.0 + y.abs() - 1.0); } }
            }
        }
        sums
    }));
    for f in [csv, svm] { let _ = std::fs::remove_file(f); }
    for t in out {
        match t {
            Ok(v) => { cx.count("values computed side by side", v.len() as u64); cx.seen(hash_f64s(n as u64, &v)); }
            Err(LibErr::Panic(m)) => return viol("conc:panic:data", format!("reading or splitting a sample in one of {k} threads panicked: {m} ({})", d.brief())),
            Err(_) => {}
        }
    }
    Ok(())
}

pub fn p25(others: &[Check]) -> Check {
    let mut families = vec![fam("learners", 300, 2500, shared_learner), fam("boosters", 200, 1500, shared_boosters), fam("data", 200, 1500, shared_data)];
    // the workloads of the other properties, thinned out
    for c in others {
        for f in &c.families {
            if (c.id == "P21" && f.name != "logged") || c.id == "P23" && f.name == "threads" { continue; }
            let name: &'static str = Box::leak(format!("{}:{}", c.id, f.name).into_boxed_str());
            families.push(fam(name, (f.quick / 60).clamp(4, 40), (f.quick / 8).clamp(20, 400), f.f));
        }
    }
    Check {
        id: "P25",
        rule: "every case run under the instrumentation counts that made at least one observation of its own; distinct = distinct inputs",
        assumptions: &["judged: sanitizer reports, deaths of the process, panics that stand for a memory error or an overflow, and results that differ when computed side by side", "the interleavings are those the scheduler produced under load"],
        families,
        stuck_s: 120, stuck_is_violation: false, judge: Some(memory_only),
    }
}

/// Deliberate defects that show that the instrumentation is alive.
pub fn selftest(kind: &str) {
    match kind {
        "race" => {
            struct P(*mut u64);
            unsafe impl Sync for P {}
            let x = Box::leak(Box::new(0u64));
            let p = P(x);
            race(2, |_| { let p = &p; for _ in 0..1000 { unsafe { *p.0 = std::hint::black_box(*p.0 + 1); } } });
        }
        _ => {
            let v = vec![1u64; 8];
            let p = v.as_ptr();
            drop(v);
            println!("{}", unsafe { std::hint::black_box(*std::hint::black_box(p).add(3)) });
        }
    }
}
