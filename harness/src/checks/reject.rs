//! P26: invalid training sets and parameters are refused before the learner is asked; valid ones are accepted.
use std::sync::Arc;
use miniboosts::research::{CrossValidation, LoggerBuilder, ObjectiveFunction};
use miniboosts::*;
use polars::prelude::{DataFrame, NamedFrom, Series};
use crate::booster::*;
use crate::checks::research::sequential;
use crate::ctx::*;
use crate::data::*;
use crate::learn::*;
use crate::rng::{hash_f64s, hash_str, Rng};
use crate::with_booster;

fn up(x: f64) -> f64 { f64::from_bits(x.to_bits() + 1) }
fn down(x: f64) -> f64 { f64::from_bits(x.to_bits() - 1) }

/// Whether a call went through; a library panic means refused.
fn accepts<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match try_lib(f) { Ok(v) => Ok(v), Err(LibErr::Panic(m)) => Err(m), Err(LibErr::RoundCap(_)) => Err("left by the monitor".into()) }
}

/// A learner that answers with the labels' signs, counting the calls.
fn perfect<'a>(s: &Sample, y: &[f64]) -> Spy<'a> {
    let vals = Arc::new(y.iter().map(|v| if *v > 0.0 { 1.0 } else { -1.0 }).collect::<Vec<f64>>());
    Spy::new(s, 50, Box::new(move |t, _| (t, vals.clone())))
}

fn sample_of(cols: &[Vec<f64>], y: &[f64]) -> Res<Sample> {
    lib("Sample::from_dataframe", || {
        let df = DataFrame::new(cols.iter().enumerate().map(|(j, c)| Series::new(&format!("x{j}"), c)).collect()).expect("harness: dataframe");
        Sample::from_dataframe(df, Series::new("target", y)).expect("from_dataframe failed")
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Labels { PlusMinus, TwoInts, NonInteger, NonFinite, TooLarge, Three, One, TooFew, TooMany }

fn gen_label_vector(rng: &mut Rng, kind: Labels, n: usize) -> Vec<f64> {
    let int = |rng: &mut Rng| -> f64 { match rng.below(4) { 0 => *rng.pick(&[i32::MAX as f64, i32::MIN as f64, 0.0, -0.0]), 1 => rng.int(0, 4_000_000) as f64 - 2e6, _ => rng.int(0, 6) as f64 - 3.0 } };
    let (a, b) = if matches!(kind, Labels::PlusMinus) || rng.bool(0.6) { (1.0, -1.0) } else {
        let a = int(rng);
        loop { let b = int(rng); if b != a { break (a, b); } }
    };
    let mut y: Vec<f64> = (0..n).map(|_| if rng.bool(0.5) { a } else { b }).collect();
    let i = rng.below(n);
    let j = (i + 1 + rng.below(n - 1)) % n;
    y[i] = a; y[j] = b;
    let at = if rng.bool(0.5) { *rng.pick(&[0, n - 1]) } else { rng.below(n) };
    match kind {
        Labels::PlusMinus | Labels::TwoInts => {}
        Labels::NonInteger => y[at] = match rng.below(4) { 0 => up(1.0), 1 => down(1.0), 2 => y[at] + 0.5, _ => y[at] + rng.range(0.001, 0.999) },
        Labels::NonFinite => y[at] = *rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
        Labels::TooLarge => { let big = *rng.pick(&[2147483648.0, 1e10, -2147483649.0, -1e300]); let old = y[at]; for v in y.iter_mut() { if *v == old { *v = big; } } }
        Labels::Three => { let c = loop { let c = int(rng); if c != a && c != b { break c; } }; let k = y.iter().enumerate().find(|(k, v)| **v == y[at] && *k != at).map(|x| x.0); if k.is_none() { y.push(c); } else { y[at] = c; } }
        Labels::One => { for v in y.iter_mut() { *v = a; } }
        Labels::TooFew => { let k = if rng.bool(0.4) { n - 1 } else { rng.below(n) }; y.truncate(k); }
        Labels::TooMany => { let k = rng.int(1, 3); for _ in 0..k { y.push(a); } }
    }
    y
}

fn labels_case(cx: &mut Cx) -> Res {
    sequential();
    let kind = *cx.rng.pick(&[Labels::PlusMinus, Labels::PlusMinus, Labels::TwoInts, Labels::TwoInts, Labels::NonInteger, Labels::NonInteger, Labels::NonFinite, Labels::TooLarge, Labels::Three, Labels::Three, Labels::One, Labels::TooFew, Labels::TooMany]);
    let n0 = gen_n_wide(&mut cx.rng, 2, 40, 800);
    let y = gen_label_vector(&mut cx.rng, kind, n0);
    let n = if matches!(kind, Labels::TooFew | Labels::TooMany) { n0 } else { y.len() };
    let dd = cx.rng.int(1, 3);
    let cols = gen_features(&mut cx.rng, n, dd, &[0, 1, 3, 8]);
    let valid = matches!(kind, Labels::PlusMinus | Labels::TwoInts);
    // files can carry the invalid labels too
    let way = cx.rng.below(3);
    let d = Data { cols: cols.clone(), y: y.clone(), names: (0..dd).map(|j| format!("x{j}")).collect() };
    let sample = if y.len() == n && way == 1 && y.iter().all(|v| v.is_finite()) { d.via_csv(cx)? }
        else if y.len() == n && way == 2 && y.iter().all(|v| v.is_finite()) && cols.iter().any(|c| c.iter().any(|v| *v != 0.0)) { d.sparse(cx)? }
        else { sample_of(&cols, &y)? };
    let p = Params { nu: gen_nu(&mut cx.rng, n), tol: 0.2, kappa: 0.3, gamma: 0.2, quit: None };
    let shown = if y.len() <= 12 { format!("{y:?}") } else { format!("{:?}…", &y[..12]) };
    let c = accepts(|| sample.is_valid_binary_instance());
    if valid { ensure!(c.is_ok(), "labels:valid", "is_valid_binary_instance refuses the labels {shown} of {n} examples: {}", c.unwrap_err()); }
    else { ensure!(c.is_err(), format!("labels:{kind:?}"), "is_valid_binary_instance accepts the labels {shown} of {n} examples ({kind:?})"); }
    cx.count(if valid { "label vectors accepted" } else { "label vectors refused" }, 1);
    for a in Algo::all() {
        if is_huge() && a.solver() { continue; }
        let name = a.name();
        let spy = perfect(&sample, &y);
        let r = if kind == Labels::PlusMinus && cx.rng.bool(0.4) {
            let r = accepts(|| with_booster!(a, &p, &sample, |mk| { let _ = mk().run(&spy); }));
            cx.count("runs on valid samples", 1);
            if r.is_ok() { ensure!(!spy.take().is_empty(), format!("norun:{name}"), "{name} did not call the learner on a valid sample"); }
            r
        } else {
            let r = if cx.rng.bool(0.5) { accepts(|| with_booster!(a, &p, &sample, |mk| mk().preprocess(&spy))) }
                else if valid { continue } else { accepts(|| with_booster!(a, &p, &sample, |mk| { let _ = mk().run(&spy); })) };
            ensure!(spy.take().is_empty(), format!("late:{name}"), "{name} asked the learner before refusing the labels {shown} of {n} examples ({kind:?})");
            r
        };
        if valid { ensure!(r.is_ok(), format!("start:{name}"), "{name} refuses a sample with the labels {shown}, n={n}, {p:?}: {}", r.unwrap_err()); }
        else { ensure!(r.is_err(), format!("start:{name}:{kind:?}"), "{name} starts on a sample with the labels {shown} of {n} examples ({kind:?})"); }
        cx.count(if valid { "boosters started" } else { "boosters refusing" }, 1);
    }
    // (the graph has a list of all pairs)
    if is_huge() { cx.seen(hash_f64s(n as u64, &y)); return Ok(()); }
    let spy = perfect(&sample, &y);
    let r = accepts(|| { let mut b = GraphSepBoost::init(&sample); b.preprocess(&spy); });
    if valid { ensure!(r.is_ok(), "start:GraphSepBoost", "GraphSepBoost refuses the labels {shown}: {}", r.unwrap_err()); }
    else { ensure!(r.is_err(), format!("start:GraphSepBoost:{kind:?}"), "GraphSepBoost starts on the labels {shown} of {n} examples ({kind:?})"); }
    cx.seen(hash_f64s(n as u64, &y));
    Ok(())
}

fn labels_huge(cx: &mut Cx) -> Res { huge(cx, labels_case) }

/// Capping parameters at and around the ends of [1, n].
fn nu_case(cx: &mut Cx) -> Res {
    sequential();
    let (sample, y) = toy_sample(&mut cx.rng, 2, 60)?;
    let n = y.len();
    let nf = n as f64;
    let (nu, valid) = match cx.rng.below(14) {
        0 => (1.0, true), 1 => (nf, true), 2 => (up(1.0), true), 3 => (down(nf), true), 4 => (cx.rng.range(1.0, nf), true), 5 => (cx.rng.int(1, n) as f64, true),
        6 => (down(1.0), false), 7 => (up(nf), false), 8 => (0.0, false), 9 => (-cx.rng.range(0.0, nf), false), 10 => (f64::NAN, false),
        11 => (*cx.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, nf + 1.0, 1e300]), false), 12 => (cx.rng.range(0.0, 1.0), false), _ => (nf + cx.rng.range(0.001, nf), false),
    };
    let p = Params { nu, tol: 0.2, ..Default::default() };
    for a in Algo::all().into_iter().filter(|a| a.capped()) {
        let name = a.name();
        let spy = perfect(&sample, &y);
        let r = accepts(|| with_booster!(a, &p, &sample, |mk| { let _ = mk().run(&spy); }));
        let calls = spy.take().len();
        if valid { ensure!(r.is_ok() && calls > 0, format!("nu:{name}"), "{name} refuses the capping parameter {nu:?} with {n} examples: {:?}", r.err()); }
        else { ensure!(r.is_err() && calls == 0, format!("nu:{name}"), "{name} runs with the capping parameter {nu:?}, which is not in [1, {n}] ({calls} learner calls)"); }
        cx.count(if valid { "capping parameters accepted" } else { "capping parameters refused" }, 1);
    }
    let h = TableH { id: 0, vals: Arc::new(y.clone()) };
    let r = accepts(|| SoftMarginObjective::new(nu).eval(&sample, &h));
    ensure!(r.is_ok() == valid, "nu:objective", "SoftMarginObjective with nu = {nu:?} and {n} examples: {r:?}");
    cx.seen(hash_f64s(n as u64, &[nu]));
    Ok(())
}

/// Ratios and other parameters with a documented range.
fn ratio_case(cx: &mut Cx) -> Res {
    sequential();
    let (sample, y) = toy_sample(&mut cx.rng, 2, 30)?;
    let what = cx.rng.below(9);
    let bad = cx.rng.bool(0.5);
    match what {
        0 | 1 => {
            // kappa in (0,1), gamma in [0, 1/2)
            let mut p = Params { kappa: cx.rng.range(0.05, 0.99), gamma: cx.rng.range(0.01, 0.49), ..Default::default() };
            if bad {
                if what == 0 { p.kappa = match cx.rng.below(7) { 0 => 0.0, 1 => 1.0, 2 => -0.0, 3 => f64::NAN, 4 => up(1.0), 5 => -cx.rng.range(1e-9, 5.0), _ => 1.0 + cx.rng.range(1e-9, 5.0) }; }
                else { p.gamma = match cx.rng.below(6) { 0 => 0.5, 1 => up(0.5), 2 => f64::NAN, 3 => 1.0, 4 => -cx.rng.range(1e-9, 5.0), _ => 0.5 + cx.rng.range(1e-9, 5.0) }; }
            } else { match cx.rng.below(5) { 0 => p.kappa = down(1.0), 1 => p.kappa = 1e-3, 2 => p.gamma = down(0.5), 3 => p.gamma = 1e-3, _ => {} } }
            let spy = perfect(&sample, &y);
            // the default gamma, 1/2, is out of range: a gamma has to be chosen
            let unset = bad && what == 1 && cx.rng.bool(0.1);
            if unset { p.gamma = 0.5; }
            let r = if unset { accepts(|| { let _ = SmoothBoost::init(&sample).tolerance(p.kappa).run(&spy); }) } else { accepts(|| with_booster!(Algo::Smooth, &p, &sample, |mk| { let _ = mk().run(&spy); })) };
            let calls = spy.take().len();
            // a valid run may be left by the monitor's round cap
            let ok = match &r { Ok(_) => true, Err(m) => m == "left by the monitor" };
            if bad { ensure!(!ok && calls == 0, "smooth", "SmoothBoost runs with kappa = {:?}, gamma = {:?} ({calls} learner calls)", p.kappa, p.gamma); }
            else { ensure!(ok && calls > 0, "smooth", "SmoothBoost refuses kappa = {:?}, gamma = {:?}: {r:?}", p.kappa, p.gamma); }
            cx.seen(hash_f64s(1, &[p.kappa, p.gamma]));
        }
        2 | 3 => {
            let r = if bad { match cx.rng.below(8) { 0 => 0.0, 1 => 1.0, 2 => -0.0, 3 => f64::NAN, 4 => up(1.0), 5 => -cx.rng.range(1e-9, 3.0), 6 => f64::INFINITY, _ => 1.0 + cx.rng.range(1e-9, 3.0) } }
                else { match cx.rng.below(4) { 0 => down(1.0), 1 => 1e-300, _ => cx.rng.range(0.01, 0.99) } };
            let a = accepts(|| { let _ = CrossValidation::new(&sample).train_ratio(r); });
            ensure!(a.is_ok() != bad, "ratio", "CrossValidation::train_ratio({r:?}): {a:?}");
            cx.seen(hash_f64s(2, &[r]));
        }
        4 => {
            let depth = if bad { 0 } else { cx.rng.int(1, 6) };
            let (a, b) = (accepts(|| { let _ = DecisionTreeBuilder::new(&sample).max_depth(depth); }), accepts(|| { let _ = RegressionTreeBuilder::<GBMLoss>::new(&sample).max_depth(depth); }));
            ensure!(a.is_ok() != bad, "depth", "DecisionTreeBuilder::max_depth({depth}): {a:?}");
            ensure!(b.is_ok() != bad, "depth", "RegressionTreeBuilder::max_depth({depth}): {b:?}");
            cx.seen(hash_f64s(3, &[depth as f64, y.len() as f64]));
        }
        5 => {
            let f = if bad { *cx.rng.pick(&["X", "", "x ", "xx", "target"]) } else { "x" };
            let k = cx.rng.int(1, 300);
            let (a, b) = (accepts(|| { let mut t = DecisionTreeBuilder::new(&sample); t.set_nbins(f, k); }), accepts(|| { let mut t = RegressionTreeBuilder::<GBMLoss>::new(&sample); t.set_nbins(f, k); }));
            ensure!(a.is_ok() != bad && b.is_ok() != bad, "bins", "set_nbins({f:?}, {k}) on a sample with the feature \"x\": {a:?}, {b:?}");
            cx.seen(hash_str(f) ^ k as u64);
        }
        6 => {
            // names: as many as features
            let dd = cx.rng.int(1, 5);
            let d = gen_binary(&mut cx.rng, 6, dd, &[0]);
            let mut s = d.dense()?;
            let k = if bad { let k = cx.rng.int(0, 7); if k == dd { dd + 1 } else { k } } else { dd };
            let names: Vec<String> = (0..k).map(|j| format!("new {j}")).collect();
            let a = accepts(|| s.replace_names(&names));
            ensure!(a.is_ok() != bad, "names", "replace_names with {k} names on {dd} features: {a:?}");
            cx.seen((dd * 100 + k) as u64);
        }
        7 => {
            // readers: a file and, for CSV, an existing target column are needed
            let d = gen_binary(&mut cx.rng, 5, 2, &[0]);
            let f = cx.file("csv");
            std::fs::write(&f, d.csv_text(0, "the class", true)).expect("harness: write");
            let mode = cx.rng.below(4);
            let target = if mode == 0 { "no such column" } else { "the class" };
            let a = accepts(|| {
                let r = SampleReader::default().has_header(true);
                match mode {
                    1 => r.file(f.clone()).target_feature("the class").read().is_ok(),
                    2 => { let r: SampleReader<std::path::PathBuf, &str> = SampleReader::default(); r.has_header(true).target_feature("the class").read().is_ok() }
                    3 => { let r: SampleReader<std::path::PathBuf, &str> = SampleReader::default(); r.has_header(true).file(f.clone()).read().is_ok() }
                    _ => r.file(f.clone()).target_feature(target).read().is_ok(),
                }
            });
            let _ = std::fs::remove_file(&f);
            let ok = matches!(a, Ok(true));
            ensure!(ok == (mode == 1), "reader", "reading a CSV file (case {mode}: 0 wrong target, 1 complete, 2 no file, 3 no target): {a:?}");
            cx.seen(mode as u64 + 1000);
        }
        _ => {
            // a logger needs all six parts
            let miss = if bad { cx.rng.below(6) } else { 6 };
            let a = accepts(|| {
                let mut l = LoggerBuilder::new();
                if miss != 0 { l = l.booster(AdaBoost::<TableH>::init(&sample)); }
                if miss != 1 { l = l.weak_learner(perfect(&sample, &y)); }
                if miss != 2 { l = l.objective_function(SoftMarginObjective::new(1.0)); }
                if miss != 3 { l = l.loss_function(|_: &Sample, _: &WeightedMajority<TableH>| 0.0); }
                if miss != 4 { l = l.train_sample(&sample); }
                if miss != 5 { l = l.test_sample(&sample); }
                let _ = l.build();
            });
            ensure!(a.is_ok() != bad, "logger", "LoggerBuilder::build without part {miss} (6: complete): {a:?}");
            cx.seen(miss as u64 + 2000);
        }
    }
    cx.count(if bad { "invalid parameters refused" } else { "valid parameters accepted" }, 1);
    Ok(())
}

pub fn p26() -> Check {
    Check {
        id: "P26",
        rule: "every case counts; distinct = distinct label vectors, capping parameters or parameter values",
        assumptions: &["refused means: a panic (or an error) before the weak learner is asked for the first time", "valid labels are 32-bit integers of exactly two kinds"],
        families: vec![fam("huge", 1, 20, labels_huge), fam("labels", 4000, 60000, labels_case), fam("nu", 4000, 50000, nu_case), fam("ratio", 4000, 50000, ratio_case)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
