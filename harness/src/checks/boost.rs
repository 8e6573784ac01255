//! Monitors on the boundary between booster and weak learner: P05-P10, P14, P24.
use std::sync::Arc;
use miniboosts::*;
use crate::booster::*;
use crate::ctx::*;
use crate::learn::*;
use crate::rng::{hash_f64s, Rng};

pub struct Case { pub algo: Algo, pub p: Params, pub sample: Sample, pub y: Vec<f64>, pub pool: Pool, pub strat_kind: usize }

/// Random configuration, sample and learner behaviour for one algorithm.
pub fn gen_case(cx: &mut Cx, algo: Algo) -> Res<Case> {
    let (lo, hi) = match (cx.rng.bool(0.04), algo.solver()) { (false, true) => (2, 24), (false, false) => (2, 60), (true, true) => (25, 130), (true, false) => (61, 1500) };
    let (sample, y) = toy_sample(&mut cx.rng, lo, hi)?;
    let n = y.len();
    let r = &mut cx.rng;
    let tol = if r.bool(0.3) { 10f64.powf(r.range(-3.0, -0.005)) } else { *r.pick(&[0.3, 0.2, 0.1, 0.05, 0.02, 0.01]) };
    let (kappa, gamma) = if r.bool(0.3) { (r.range(0.02, 0.95), r.range(0.01, 0.49)) } else { (*r.pick(&[0.05, 0.1, 0.2, 0.3, 0.5, 0.7]), *r.pick(&[0.02, 0.05, 0.1, 0.2, 0.3, 0.45])) };
    let mut p = Params { nu: gen_nu(r, n), tol, kappa, gamma, quit: None };
    if algo.quits() { p.quit = Some(r.int(1, 40)); }
    let kind = r.int(1, 3);
    let k = if r.bool(0.05) { r.int(30, 120) } else { r.int(4, 30) };
    let pool = gen_pool(r, &y, k, kind);
    let strat_kind = r.below(3);
    Ok(Case { algo, p, sample, y, pool, strat_kind })
}

pub fn gen_strategy<'a>(c: &Case, rng: &mut Rng, lo: f64, hi: f64) -> Strategy<'a> {
    match c.strat_kind {
        0 => best_response(c.pool.clone(), &c.y),
        1 => positive_response(c.pool.clone(), &c.y, 1e-6, rng.below(4), rng.fork()),
        _ => fresh_response(c.y.clone(), lo, hi, rng.below(3), rng.fork()),
    }
}

fn fp_run(a: Algo, r: &Run) -> u64 {
    let mut h = crate::rng::hash_str(&a.name());
    for x in &r.rounds { h = hash_f64s(h, &x.dist); h = hash_f64s(h, &x.margins); }
    h
}

fn describe(cx: &mut Cx, c: &Case, r: &Run) {
    let e: Vec<String> = r.rounds.iter().take(8).map(|x| format!("{:.4}", x.edge)).collect();
    cx.note(format!("{} n={} {:?} learner kind {} rounds={} edges [{}..] {}", c.algo.name(), c.y.len(), c.p, c.strat_kind, r.rounds.len(), e.join(", "),
        match &r.ended { Ended::Done => "finished".to_string(), Ended::Cut(s) => format!("cut: {s}") }));
}

// ---------------------------------------------------------------- P05 / P10

/// Rounds the learner was still within its contract for (edge > 0 in all earlier rounds).
fn check_simplex(cx: &mut Cx, c: &Case, r: &Run) -> Res {
    let n = c.y.len();
    let tol = if c.algo.solver() { 1e-6 } else { 1e-9 };
    let a = c.algo.name();
    ensure!(!r.bad_sample, format!("sample:{a}"), "{a} handed the learner a different sample object");
    for (t, x) in r.rounds.iter().enumerate() {
        ensure!(x.dist.len() == n, format!("len:{a}"), "{a} round {}: {} weights for {n} examples ({:?})", t + 1, x.dist.len(), c.p);
        let s: f64 = x.dist.iter().sum();
        for (i, &d) in x.dist.iter().enumerate() {
            ensure!(d.is_finite(), format!("finite:{a}"), "{a} round {}: weight {i} is {d} ({:?}, n={n})", t + 1, c.p);
            ensure!(d >= 0.0, format!("negative:{a}"), "{a} round {}: weight {i} is {d:e} < 0 ({:?}, n={n})", t + 1, c.p);
        }
        ensure!((s - 1.0).abs() <= tol, format!("sum:{a}"), "{a} round {}: weights sum to {s} ({:?}, n={n})", t + 1, c.p);
        cx.max("sum_error", (s - 1.0).abs());
        if t == 0 {
            for (i, &d) in x.dist.iter().enumerate() {
                ensure!((d - 1.0 / n as f64).abs() <= 1e-12, format!("uniform:{a}"), "{a}: first weighting is not uniform, weight {i} = {d}, n={n}");
            }
        }
        cx.count("weightings", 1);
        cx.count("weights", n as u64);
        if x.dist.iter().any(|&d| (d - 1.0 / n as f64).abs() > 1e-6) { cx.count("nonuniform weightings", 1); }
        if x.dist.contains(&0.0) { cx.count("weightings with underflowed weights", 1); }
    }
    Ok(())
}

fn simplex_case(cx: &mut Cx, algo: Algo) -> Res {
    let c = gen_case(cx, algo)?;
    let mut rng = cx.rng.fork();
    let strat = gen_strategy(&c, &mut rng, 0.02, 0.9);
    let cap = match (c.algo.solver(), rng.bool(0.04)) { (true, false) => 40, (false, false) => 80, (true, true) => 150, (false, true) => 700 };
    let cap = if crate::data::is_huge() { 12 } else { cap };
    let spy = Spy::new(&c.sample, cap, strat).min_edge(1e-9);
    let step = rng.bool(0.5);
    let r = run(c.algo, &c.p, &c.sample, &spy, step)?;
    describe(cx, &c, &r);
    check_simplex(cx, &c, &r)?;
    if r.rounds.len() >= 2 { cx.seen(fp_run(algo, &r)); }
    Ok(())
}

/// Edges close to 1 and long runs: weights span hundreds of orders of magnitude.
fn extreme_case(cx: &mut Cx) -> Res {
    let algo = *cx.rng.pick(&[Algo::Ada, Algo::AdaV, Algo::Mada, Algo::Cerlp(1), Algo::Cerlp(0), Algo::Smooth]);
    let mut c = gen_case(cx, algo)?;
    c.strat_kind = 2;
    let mut rng = cx.rng.fork();
    let hard = rng.bool(0.5);
    let cap = 600;
    c.p.quit = Some(400);
    c.p.tol = *rng.pick(&[0.01, 0.001]);
    let cap = if rng.bool(0.3) && c.y.len() <= 20 { c.p.quit = Some(2600); 2700 } else { cap };
    let strat: Strategy = if rng.bool(0.4) {
        let n = c.y.len();
        let lo = *rng.pick(&[0.3, 0.6, 0.8]);
        if n >= 5 && rng.bool(0.3) { turns_response(c.y.clone(), rng.int(2, (n - 2).min(40))) } else { loyal_response(c.y.clone(), lo, lo + 0.15, rng.fork()) }
    } else if hard {
        // always wrong on the same example, right on all others: its weight approaches 1, all others underflow
        let y = c.y.clone(); let n = y.len(); let bad = rng.below(n);
        let mut k = 0;
        Box::new(move |t, d| {
            // wrong on the lightest two thirds of weight it can afford
            let mut ix: Vec<usize> = (0..n).collect();
            ix.sort_by(|&a, &b| d[a].partial_cmp(&d[b]).unwrap_or(std::cmp::Ordering::Equal));
            let mut w = 0.0; let mut m = vec![1.0; n];
            for &i in &ix { if w + d[i] < 0.3 && i != bad { w += d[i]; m[i] = -1.0; } }
            k += 1;
            (t + k, Arc::new(m.iter().zip(&y).map(|(a, b)| a * b).collect()))
        })
    } else { fresh_response(c.y.clone(), 0.5, 0.98, 0, rng.fork()) };
    let spy = Spy::new(&c.sample, cap, strat).min_edge(1e-9);
    let r = run(algo, &c.p, &c.sample, &spy, false)?;
    describe(cx, &c, &r);
    check_simplex(cx, &c, &r)?;
    for x in &r.rounds { let m = x.dist.iter().cloned().filter(|&d| d > 0.0).fold(1.0, f64::min); cx.max("smallest positive weight (-log10)", -m.log10()); }
    if r.rounds.len() >= 2 { cx.seen(fp_run(algo, &r)); }
    Ok(())
}

macro_rules! per_algo { ($f:ident: $($name:ident = $a:expr;)*) => { $(fn $name(cx: &mut Cx) -> Res { $f(cx, $a) })* } }
per_algo! { simplex_case:
    s_ada = Algo::Ada; s_adav = Algo::AdaV; s_mada = Algo::Mada; s_smooth = Algo::Smooth; s_lp = Algo::Lp; s_erlp = Algo::Erlp;
    s_soft = Algo::Soft; s_total = Algo::Total;
    s_c0 = Algo::Cerlp(0); s_c1 = Algo::Cerlp(1); s_c2 = Algo::Cerlp(2); s_c3 = Algo::Cerlp(3);
    s_m0 = Algo::Mlp(0); s_m1 = Algo::Mlp(1); s_m2 = Algo::Mlp(2); s_m3 = Algo::Mlp(3);
}

/// Real learners on real features.
fn simplex_trees(cx: &mut Cx) -> Res {
    let n = crate::data::gen_n(&mut cx.rng, 2, 60);
    let d = cx.rng.int(1, 4);
    let data = crate::data::gen_binary(&mut cx.rng, n, d, &[0, 1, 3, 4, 6, 8]);
    let sample = data.dense()?;
    let algo = *cx.rng.pick(&Algo::all());
    let depth = cx.rng.int(1, 3);
    let crit = *cx.rng.pick(&[Criterion::Entropy, Criterion::Edge, Criterion::Gini, Criterion::Twoing]);
    let wl = lib("DecisionTreeBuilder", || DecisionTreeBuilder::new(&sample).max_depth(depth).criterion(crit).build())?;
    let y = data.y.clone();
    // the tree is called through the recorder; the recorder returns its values as a table
    let strat: Strategy = Box::new(|t, dist| {
        let h = wl.produce(&sample, dist);
        (t, Arc::new((0..n).map(|i| h.confidence(&sample, i)).collect()))
    });
    let p = Params { nu: gen_nu(&mut cx.rng, n), tol: *cx.rng.pick(&[0.1, 0.05]), quit: algo.quits().then_some(30), ..Params::default() };
    let spy = Spy::new(&sample, 40, strat).min_edge(1e-9);
    let r = run(algo, &p, &sample, &spy, false)?;
    let c = Case { algo, p, sample: data.dense()?, y, pool: vec![], strat_kind: 9 };
    describe(cx, &c, &r);
    check_simplex(cx, &c, &r)?;
    if r.rounds.len() >= 2 { cx.seen(fp_run(algo, &r)); }
    Ok(())
}

fn simplex_graph(cx: &mut Cx) -> Res { graph_case(cx) }

fn simplex_huge(cx: &mut Cx) -> Res {
    let f = [s_ada as fn(&mut Cx) -> Res, s_adav, s_mada, s_smooth, s_c0, s_c1, s_c2, s_c3][cx.index % 8];
    crate::data::huge(cx, f)
}

pub fn p05() -> Check {
    Check {
        id: "P05",
        rule: "a run counts when at least two weightings were observed; distinct = distinct (weightings, margins) histories per algorithm",
        assumptions: &["the learner returns hypotheses with values in [-1,1] and positive edge; a run is judged up to the round in which the learner could not",
            "solver-based boosters: |sum-1| <= 1e-6, others 1e-9"],
        families: vec![
            fam("adaboost", 120, 1500, s_ada), fam("adaboostv", 120, 1500, s_adav), fam("madaboost", 120, 1500, s_mada), fam("smoothboost", 120, 1500, s_smooth),
            fam("lpboost", 80, 1000, s_lp), fam("erlpboost", 80, 1000, s_erlp), fam("softboost", 80, 1000, s_soft), fam("totalboost", 80, 1000, s_total),
            fam("cerlp-classic", 60, 800, s_c0), fam("cerlp-short", 60, 800, s_c1), fam("cerlp-line", 60, 800, s_c2), fam("cerlp-bp", 60, 800, s_c3),
            fam("mlp-classic", 60, 800, s_m0), fam("mlp-short", 60, 800, s_m1), fam("mlp-line", 60, 800, s_m2), fam("mlp-bp", 60, 800, s_m3),
            fam("huge", 3, 30, simplex_huge), fam("extreme", 60, 600, extreme_case), fam("trees", 120, 1500, simplex_trees), fam("graphsep", 60, 600, simplex_graph),
        ],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

fn cap_case(cx: &mut Cx, algo: Algo) -> Res {
    let mut c = gen_case(cx, algo)?;
    if cx.rng.bool(0.3) {
        // heavy ties: few distinct margin vectors and few hypotheses
        let k = cx.rng.int(1, 3);
        c.pool = gen_pool(&mut cx.rng, &c.y, k, 1);
        c.strat_kind = cx.rng.below(2);
    }
    let mut rng = cx.rng.fork();
    let strat = gen_strategy(&c, &mut rng, 0.02, 0.9);
    let cap = match (c.algo.solver(), rng.bool(0.04)) { (_, false) => 60, (true, true) => 150, (false, true) => 600 };
    let cap = if crate::data::is_huge() { 12 } else { cap };
    let spy = Spy::new(&c.sample, cap, strat).min_edge(1e-9);
    let r = run(algo, &c.p, &c.sample, &spy, false)?;
    describe(cx, &c, &r);
    let ub = 1.0 / c.p.nu;
    let tol = if algo.solver() { 1e-6 } else { 1e-12 };
    for (t, x) in r.rounds.iter().enumerate() {
        let m = x.dist.iter().cloned().fold(0.0, f64::max);
        cx.max("largest weight * nu", m * c.p.nu);
        ensure!(m <= ub + tol, format!("cap:{}", algo.name()), "{} round {}: largest weight {m} exceeds 1/nu = {ub} (nu={}, n={}, tol={})", algo.name(), t + 1, c.p.nu, c.y.len(), c.p.tol);
        cx.count("weightings", 1);
        if m >= ub - 1e-6 && (c.p.nu < c.y.len() as f64 - 1e-9) { cx.count("weightings at the cap", 1); cx.seen(hash_f64s(7, &x.dist)); }
    }
    Ok(())
}
per_algo! { cap_case:
    k_lp = Algo::Lp; k_erlp = Algo::Erlp; k_soft = Algo::Soft;
    k_c0 = Algo::Cerlp(0); k_c1 = Algo::Cerlp(1); k_c2 = Algo::Cerlp(2); k_c3 = Algo::Cerlp(3);
    k_m0 = Algo::Mlp(0); k_m1 = Algo::Mlp(1); k_m2 = Algo::Mlp(2); k_m3 = Algo::Mlp(3);
}
fn cap_huge(cx: &mut Cx) -> Res {
    let f = [k_c0 as fn(&mut Cx) -> Res, k_c1, k_c2, k_c3][cx.index % 4];
    crate::data::huge(cx, f)
}
pub fn p10() -> Check {
    Check {
        id: "P10",
        rule: "a weighting counts when at least one example sits at the cap and the cap is below trivial (nu < n); distinct = distinct weightings",
        assumptions: &["solver-based boosters: excess up to 1e-6 is solver accuracy"],
        families: vec![
            fam("lpboost", 150, 2000, k_lp), fam("erlpboost", 150, 2000, k_erlp), fam("softboost", 150, 2000, k_soft),
            fam("huge", 1, 10, cap_huge), fam("cerlp-classic", 80, 1000, k_c0), fam("cerlp-short", 80, 1000, k_c1), fam("cerlp-line", 80, 1000, k_c2), fam("cerlp-bp", 80, 1000, k_c3),
            fam("mlp-classic", 80, 1000, k_m0), fam("mlp-short", 80, 1000, k_m1), fam("mlp-line", 80, 1000, k_m2), fam("mlp-bp", 80, 1000, k_m3),
        ],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

// ---------------------------------------------------------------- P06 / P07 / P08

fn normalise(w: &[f64]) -> Vec<f64> { let s: f64 = w.iter().sum(); w.iter().map(|x| x / s).collect() }

fn expect_dist(a: &str, t: usize, got: &[f64], want: &[f64], rel: f64) -> Res<f64> {
    let mut worst = 0.0f64;
    for i in 0..want.len() {
        let e = (got[i] - want[i]).abs();
        worst = worst.max(e);
        ensure!(e <= rel * want[i] + 1e-290, format!("weights:{a}"), "{a} round {t}: weight of example {i} is {:e}, the reweighting law gives {:e}", got[i], want[i]);
    }
    Ok(worst)
}

/// AdaBoost and AdaBoostV: a_t from the observed edges, next weights from the observed ones.
fn exp_law(cx: &mut Cx, c: &Case, r: &Run) -> Res {
    let a = c.algo.name();
    let mut coef = vec![];
    let mut gmin = 1.0f64;
    let mut ill = false;
    for (t, x) in r.rounds.iter().enumerate() {
        gmin = gmin.min(x.edge);
        if x.margins.iter().all(|&m| m >= 1.0) {
            ensure!(t + 1 == r.rounds.len(), format!("perfect:{a}"), "{a}: hypothesis of round {} is right with full confidence on every example, yet the run went on for {} rounds", t + 1, r.rounds.len());
            ensure!(r.done(), format!("perfect:{a}"), "{a}: run did not end on a perfect hypothesis");
            ensure!(r.vote.len() == 1 && r.vote[0].0 == x.id && r.vote[0].1 == 1.0, format!("perfect-alone:{a}"), "{a}: a perfect hypothesis in round {} is not returned alone: vote {:?}", t + 1, r.vote);
            cx.count("perfect endings", 1);
            return Ok(());
        }
        if x.edge > 1.0 - 1e-9 { ill = true; break; }
        let w = match c.algo {
            Algo::Ada => x.edge.atanh(),
            _ => { let rho = gmin - c.p.tol; ((1.0 + x.edge) / (1.0 - x.edge)).ln() / 2.0 - ((1.0 + rho) / (1.0 - rho)).ln() / 2.0 }
        };
        let cond = 1e-13 / (1.0 - x.edge) + 1e-13 / (1.0 - (gmin - c.p.tol).abs()).max(1e-12);
        if let Some(nx) = r.rounds.get(t + 1) {
            let raw: Vec<f64> = x.dist.iter().zip(&x.margins).map(|(d, m)| d * (-w * m).exp()).collect();
            let e = expect_dist(&a, t + 2, &nx.dist, &normalise(&raw), 1e-9 + 4.0 * cond)?;
            cx.max("reweighting error", e);
            cx.count("transitions", 1);
        }
        coef.push(w);
    }
    if ill || !r.done() { return Ok(()); }
    // final vote
    ensure!(r.rounds.iter().all(|x| x.edge > 0.0), "learner", "internal: learner left its contract");
    let s: f64 = coef.iter().sum();
    let mut want: std::collections::BTreeMap<usize, f64> = Default::default();
    for (w, x) in coef.iter().zip(&r.rounds) { *want.entry(x.id).or_insert(0.0) += w / s; }
    for (&id, &w) in &want {
        let g = r.vote_of(id);
        ensure!((g - w).abs() <= 1e-8, format!("vote:{a}"), "{a}: hypothesis {id} has vote weight {g}, its coefficients give {w} (edges {:?})", r.rounds.iter().map(|x| x.edge).collect::<Vec<_>>());
    }
    let tot: f64 = r.vote.iter().map(|v| v.1).sum();
    ensure!((tot - 1.0).abs() <= 1e-9, format!("vote-sum:{a}"), "{a}: vote weights sum to {tot}");
    for i in 0..c.y.len() {
        let f: f64 = r.rounds.iter().zip(&coef).map(|(x, w)| w / s * x.margins[i] * c.y[i]).sum();
        ensure!((r.conf[i] - f).abs() <= 1e-7, format!("vote-value:{a}"), "{a}: confidence on example {i} is {}, the vote gives {f}", r.conf[i]);
    }
    cx.count("votes checked", 1);
    if c.algo == Algo::Ada {
        let bound: f64 = r.rounds.iter().map(|x| (1.0 - x.edge * x.edge).max(0.0).sqrt()).product();
        let err = (0..c.y.len()).filter(|&i| r.pred[i] as f64 != c.y[i]).count() as f64 / c.y.len() as f64;
        ensure!(err <= bound + 1e-9, "error-bound", "training error {err} exceeds the product bound {bound}");
        cx.max("training error / bound", err / bound.max(1e-300));
    }
    Ok(())
}

fn exp_case(cx: &mut Cx, algo: Algo) -> Res {
    let mut c = gen_case(cx, algo)?;
    c.p.quit = Some(cx.rng.int(1, 60));
    let mut rng = cx.rng.fork();
    let strat = gen_strategy(&c, &mut rng, 0.01, 0.95);
    let spy = Spy::new(&c.sample, 200, strat).min_edge(1e-9);
    let step = rng.bool(0.3);
    let r = run(algo, &c.p, &c.sample, &spy, step)?;
    describe(cx, &c, &r);
    // the forced limit is the only reason to stop without a perfect hypothesis
    if r.done() && !r.rounds.last().map_or(false, |x| x.edge > 1.0 - 1e-9) {
        ensure!(r.rounds.len() == c.p.quit.unwrap(), format!("forced-limit:{}", algo.name()), "{} made {} rounds with a forced limit of {:?}", algo.name(), r.rounds.len(), c.p.quit);
    }
    exp_law(cx, &c, &r)?;
    if r.rounds.len() >= 2 { cx.seen(fp_run(algo, &r)); }
    Ok(())
}

/// Some examples are always classified correctly: their weights pass every threshold down to underflow.
fn long_case(cx: &mut Cx, algo: Algo) -> Res {
    let mut c = gen_case(cx, algo)?;
    let n = c.y.len();
    // (MadaBoost's weights need some 5000 rounds to underflow)
    let far = cx.rng.bool(0.06) && n <= 14;
    let rounds = if far { cx.rng.int(5200, 7000) } else if cx.rng.bool(0.15) && n <= 20 { cx.rng.int(1200, 2600) } else { cx.rng.int(60, 500) };
    c.p.quit = Some(rounds);
    c.strat_kind = 3;
    let mut rng = cx.rng.fork();
    let lo = if far { 0.5 } else { *rng.pick(&[0.1, 0.4, 0.6, 0.8]) };
    let strat = if !far && n >= 5 && rng.bool(0.3) { let g = rng.int(2, (n - 2).min(40)); turns_response(c.y.clone(), g) } else { loyal_response(c.y.clone(), lo, lo + 0.15, rng.fork()) };
    let spy = Spy::new(&c.sample, rounds + 10, strat).min_edge(1e-9);
    let r = run(algo, &c.p, &c.sample, &spy, false)?;
    describe(cx, &c, &r);
    check_simplex(cx, &c, &r)?;
    if algo == Algo::Mada { mada_law(cx, &c, &r)?; } else { exp_law(cx, &c, &r)?; }
    for x in &r.rounds { let m = x.dist.iter().cloned().filter(|&d| d > 0.0).fold(1.0, f64::min); cx.max("smallest positive weight (-log10)", -m.log10()); }
    if r.rounds.len() >= 2 { cx.seen(fp_run(algo, &r)); }
    Ok(())
}

/// The learner turns perfect in some round.
fn perfect_case(cx: &mut Cx, algo: Algo) -> Res {
    let mut c = gen_case(cx, algo)?;
    c.p.quit = Some(300);
    let at = cx.rng.int(1, 6);
    let mut rng = cx.rng.fork();
    let kind = rng.below(3);
    let mut inner = fresh_response(c.y.clone(), 0.05, 0.8, kind, rng.fork());
    let y = c.y.clone();
    let strat: Strategy = Box::new(move |t, d| if t >= at { (7, Arc::new(y.clone())) } else { inner(t, d) });
    let spy = Spy::new(&c.sample, 400, strat).min_edge(1e-9);
    let r = run(algo, &c.p, &c.sample, &spy, false)?;
    describe(cx, &c, &r);
    if algo == Algo::Mada { mada_law(cx, &c, &r)?; } else { exp_law(cx, &c, &r)?; }
    cx.seen(fp_run(algo, &r));
    Ok(())
}

fn mada_law(cx: &mut Cx, c: &Case, r: &Run) -> Res {
    let a = "MadaBoost";
    for (t, x) in r.rounds.iter().enumerate() {
        if x.margins.iter().all(|&m| m >= 1.0) {
            ensure!(t + 1 == r.rounds.len() && r.done(), "perfect", "MadaBoost: hypothesis of round {} is right with full confidence on every example, yet the run went on for {} rounds", t + 1, r.rounds.len());
            ensure!(r.vote.len() == 1 && r.vote[0].0 == x.id && r.vote[0].1 == 1.0, "perfect-alone", "a perfect hypothesis in round {} is not returned alone: vote {:?}", t + 1, r.vote);
            cx.count("perfect endings", 1);
            return Ok(());
        }
        if x.edge > 1.0 - 1e-9 { return Ok(()); }
    }
    if !r.done() { return inconclusive("run cut"); }
    if r.rounds.len() < 2 { return Ok(()); }
    // fresh hypotheses: one vote entry per round
    let v: Vec<f64> = r.rounds.iter().map(|x| r.vote_of(x.id)).collect();
    for (t, w) in v.iter().enumerate() { ensure!(*w > 0.0, "vote", "hypothesis of round {} (edge {}) has vote weight {w}", t + 1, r.rounds[t].edge); }
    let tot: f64 = r.vote.iter().map(|x| x.1).sum();
    ensure!((tot - 1.0).abs() < 1e-9, "vote-sum", "vote weights sum to {tot}");
    // larger edge, larger coefficient
    for i in 0..v.len() { for j in 0..v.len() {
        let (gi, gj) = (r.rounds[i].edge, r.rounds[j].edge);
        ensure!(!(gi > gj + 1e-9 && v[i] < v[j] * (1.0 - 1e-9)), "monotone", "round {} has edge {gi} and coefficient {}, round {} has the smaller edge {gj} and the larger coefficient {}", i + 1, v[i], j + 1, v[j]);
        ensure!(!((gi - gj).abs() < 1e-13 && (v[i] - v[j]).abs() > 1e-6 * v[i]), "monotone", "equal edges {gi} get coefficients {} and {}", v[i], v[j]);
    } }
    let n = c.y.len();
    let raw = |s: f64, t: usize| -> Vec<f64> {
        (0..n).map(|i| { let e: f64 = (0..t).map(|k| v[k] * r.rounds[k].margins[i]).sum(); (-(s * e)).min(0.0) }).collect()
    };
    // scale from round 2: heaviest against lightest example
    let d2 = &r.rounds[1].dist;
    let m1 = &r.rounds[0].margins;
    let (hi, lo) = (0..n).fold((0, 0), |(h, l), i| (if m1[i] > m1[h] { i } else { h }, if m1[i] < m1[l] { i } else { l }));
    if m1[hi] - m1[lo].max(0.0) < 1e-6 { cx.count("scale not identifiable", 1); return Ok(()); }
    let s = (d2[lo] / d2[hi]).ln() / (v[0] * (m1[hi] - m1[lo].max(0.0)));
    ensure!(s.is_finite() && s > 0.0, "scale", "after round 1 (margins from {} to {}) the weights are {:e} (lowest margin) and {:e} (highest margin)", m1[lo], m1[hi], d2[lo], d2[hi]);
    for t in 1..r.rounds.len() {
        // logarithms of the weights before normalisation
        let w = raw(s, t);
        let got = &r.rounds[t].dist;
        let top = w.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let want = normalise(&w.iter().map(|&l| (l - top).exp()).collect::<Vec<_>>());
        for i in 0..n {
            ensure!((got[i] - want[i]).abs() <= 1e-7 * want[i] * (1.0 + w[i].abs()) + 1e-290, "weights:MadaBoost", "{a} round {}: weight of example {i} is {:e}, min(1, prod) normalised gives {:e} (raw exp({}))", t + 1, got[i], want[i], w[i]);
        }
        cx.count("transitions", 1);
        cx.count("examples at the cap", w.iter().filter(|&&x| x >= 0.0).count() as u64);
        cx.count("examples below the cap", w.iter().filter(|&&x| x < 0.0).count() as u64);
    }
    Ok(())
}

fn mada_case(cx: &mut Cx) -> Res {
    let mut c = gen_case(cx, Algo::Mada)?;
    c.p.quit = Some(cx.rng.int(2, 40));
    c.strat_kind = 2;
    let mut rng = cx.rng.fork();
    let strat = gen_strategy(&c, &mut rng, 0.01, 0.95);
    let spy = Spy::new(&c.sample, 200, strat).min_edge(1e-9);
    let step = rng.bool(0.3);
    let r = run(Algo::Mada, &c.p, &c.sample, &spy, step)?;
    describe(cx, &c, &r);
    mada_law(cx, &c, &r)?;
    if r.rounds.len() >= 2 { cx.seen(fp_run(Algo::Mada, &r)); }
    Ok(())
}

per_algo! { exp_case: e_ada = Algo::Ada; e_adav = Algo::AdaV; }
per_algo! { perfect_case: p_ada = Algo::Ada; p_adav = Algo::AdaV; p_mada = Algo::Mada; }
per_algo! { long_case: l_ada = Algo::Ada; l_adav = Algo::AdaV; l_mada = Algo::Mada; }

/// Trained on features with real trees, then the vote is checked on the training rows.
fn ada_trees(cx: &mut Cx) -> Res {
    let n = crate::data::gen_n(&mut cx.rng, 2, 60);
    let d = cx.rng.int(1, 3);
    let data = crate::data::gen_binary(&mut cx.rng, n, d, &[0, 1, 3, 6, 8]);
    let sample = data.dense()?;
    let algo = if cx.rng.bool(0.5) { Algo::Ada } else { Algo::AdaV };
    let depth = cx.rng.int(1, 2);
    let wl = lib("DecisionTreeBuilder", || DecisionTreeBuilder::new(&sample).max_depth(depth).criterion(Criterion::Edge).build())?;
    let strat: Strategy = Box::new(|t, dist| { let h = wl.produce(&sample, dist); (t, Arc::new((0..n).map(|i| h.confidence(&sample, i)).collect())) });
    let p = Params { tol: 0.05, quit: Some(cx.rng.int(1, 25)), ..Params::default() };
    let spy = Spy::new(&sample, 60, strat).min_edge(1e-9);
    let r = run(algo, &p, &sample, &spy, false)?;
    let c = Case { algo, p, sample: data.dense()?, y: data.y.clone(), pool: vec![], strat_kind: 9 };
    describe(cx, &c, &r);
    exp_law(cx, &c, &r)?;
    if r.rounds.len() >= 2 { cx.seen(fp_run(algo, &r)); }
    Ok(())
}
fn h_ada(cx: &mut Cx) -> Res { crate::data::huge(cx, e_ada) }
fn h_adav(cx: &mut Cx) -> Res { crate::data::huge(cx, e_adav) }
fn h_mada(cx: &mut Cx) -> Res { crate::data::huge(cx, mada_case) }
fn ada_trees6(cx: &mut Cx) -> Res { ada_trees(cx) }

pub fn p06() -> Check {
    Check {
        id: "P06",
        rule: "a run counts when it has at least one reweighting (or ends on a perfect hypothesis); distinct = distinct histories",
        assumptions: &["hypothesis values in [-1,1], edges positive", "rounds with edge within 1e-9 of 1 that are not perfect are not judged (the update is ill-conditioned)"],
        families: vec![fam("laws", 700, 12000, e_ada), fam("perfect", 150, 2000, p_ada), fam("long", 100, 1500, l_ada), fam("huge", 1, 12, h_ada), fam("trees", 120, 2000, ada_trees6)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
pub fn p07() -> Check {
    Check {
        id: "P07",
        rule: "a run counts when it has at least one reweighting (or ends on a perfect hypothesis); distinct = distinct histories",
        assumptions: &["hypothesis values in [-1,1], edges positive, tolerance in (0,1)", "rounds with edge within 1e-9 of 1 that are not perfect are not judged"],
        families: vec![fam("laws", 700, 12000, e_adav), fam("perfect", 150, 2000, p_adav), fam("long", 100, 1500, l_adav), fam("huge", 1, 12, h_adav), fam("trees", 120, 2000, ada_trees)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
pub fn p08() -> Check {
    Check {
        id: "P08",
        rule: "a run counts when it has at least one reweighting (or ends on a perfect hypothesis); distinct = distinct histories",
        assumptions: &["hypothesis values in [-1,1], edges positive, a new hypothesis each round (so that vote entries identify rounds)",
            "the absolute scale of the coefficients is read off the second weighting, since the vote is normalised"],
        families: vec![fam("laws", 800, 12000, mada_case), fam("perfect", 150, 2000, p_mada), fam("long", 100, 1500, l_mada), fam("huge", 1, 12, h_mada)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

// ---------------------------------------------------------------- P09 SmoothBoost

fn smooth_case(cx: &mut Cx) -> Res {
    let (lo, hi) = if cx.rng.bool(0.04) { (61, 600) } else { (2, 60) };
    let (sample, y) = toy_sample(&mut cx.rng, lo, hi)?;
    let n = y.len();
    let mut rng = cx.rng.fork();
    let (kappa, gamma) = if rng.bool(0.3) { (rng.range(0.03, 0.97), rng.range(0.05, 0.495)) } else { (*rng.pick(&[0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9]), *rng.pick(&[0.05, 0.1, 0.2, 0.3, 0.4, 0.45, 0.49])) };
    let p = Params { kappa, gamma, ..Params::default() };
    let (g, k, theta) = (p.gamma, p.kappa, p.gamma / (2.0 + p.gamma));
    // advantage g on the assumed scale: edge >= 2g
    let kind = rng.below(3);
    let strat: Strategy = if rng.bool(0.7) {
        let hi = (2.0 * g + rng.range(0.0, 0.3)).min(1.0);
        fresh_response(y.clone(), (2.0 * g).min(1.0), hi, kind, rng.fork())
    } else {
        // just about the assumed advantage, always spending the slack on the same examples
        let y2 = y.clone();
        Box::new(move |t, d| {
            let mut m = vec![1.0; n]; let mut e = 1.0;
            for i in 0..n { if e - 2.0 * d[i] >= 2.0 * g { e -= 2.0 * d[i]; m[i] = -1.0; } }
            (1000 + t, Arc::new(m.iter().zip(&y2).map(|(a, b)| a * b).collect()))
        })
    };
    let spy = Spy::new(&sample, 3000, strat);
    let step = rng.bool(0.2) && g >= 0.2;
    let r = run(Algo::Smooth, &p, &sample, &spy, step)?;
    let c = Case { algo: Algo::Smooth, p, sample, y: y.clone(), pool: vec![], strat_kind: 2 };
    describe(cx, &c, &r);
    let mut big_n = vec![0.0f64; n];
    let mut advantage = true;
    for (t, x) in r.rounds.iter().enumerate() {
        let raw: Vec<f64> = big_n.iter().map(|&v| if v <= 0.0 { 1.0 } else { (1.0 - g).powf(v / 2.0) }).collect();
        let s: f64 = raw.iter().sum();
        ensure!(s >= n as f64 * k * (1.0 - 1e-9), "late-stop", "round {}: total raw weight {s} is below kappa*n = {}, yet the learner was called", t + 1, n as f64 * k);
        for i in 0..n {
            ensure!((x.dist[i] - raw[i] / s).abs() <= 1e-9, "weights", "round {}: weight of example {i} is {}, the law gives {} (N={}, gamma={g}, theta={theta})", t + 1, x.dist[i], raw[i] / s, big_n[i]);
            ensure!(x.dist[i] <= 1.0 / (k * n as f64) + 1e-9, "smooth", "round {}: weight {} of example {i} exceeds 1/(kappa n) = {}", t + 1, x.dist[i], 1.0 / (k * n as f64));
            cx.max("largest weight * kappa*n", x.dist[i] * k * n as f64);
        }
        if x.edge < 2.0 * g - 1e-9 { advantage = false; }
        for i in 0..n { big_n[i] += x.margins[i] - theta; }
        cx.count("weightings", 1);
    }
    if !r.done() { return inconclusive("run cut"); }
    let t = r.rounds.len();
    let budget = budget(Algo::Smooth, n, &c.p).unwrap();
    let raw: f64 = big_n.iter().map(|&v| if v <= 0.0 { 1.0 } else { (1.0 - g).powf(v / 2.0) }).sum();
    if t < budget { ensure!(raw < n as f64 * k * (1.0 + 1e-9), "early-stop", "stopped after {t} rounds (budget {budget}) with total raw weight {raw} >= kappa*n = {}", n as f64 * k); }
    if advantage { ensure!(raw < n as f64 * k * (1.0 + 1e-9), "convergence", "advantage {g} in every round, but after {t} rounds the total raw weight is {raw} >= kappa*n = {}", n as f64 * k); }
    // uniform vote over everything collected
    for x in &r.rounds {
        let w = r.vote_of(x.id);
        ensure!((w - 1.0 / t as f64).abs() <= 1e-9, "uniform-vote", "{t} rounds on {n} examples: hypothesis of round {} has vote weight {w}, not 1/{t} (vote has {} members)", x.id - 1000, r.vote.len());
    }
    let mut low = 0;
    for i in 0..n {
        let m = r.conf[i] * y[i];
        let want: f64 = r.rounds.iter().map(|x| x.margins[i]).sum::<f64>() / t as f64;
        ensure!((m - want).abs() <= 1e-9, "vote-value", "margin of example {i} in the returned vote is {m}, the uniform vote gives {want}");
        if m < theta - 1e-9 { low += 1; }
    }
    if advantage {
        ensure!((low as f64) < k * n as f64, "margin", "{low} of {n} examples have margin below theta = {theta}, kappa*n = {}", k * n as f64);
        cx.count("guarantee checked", 1);
        if t > n { cx.count("runs with more rounds than examples", 1); }
        cx.max("share of low margins / kappa", low as f64 / (k * n as f64));
    }
    if t >= 2 { cx.seen(fp_run(Algo::Smooth, &r)); }
    Ok(())
}
fn smooth_huge(cx: &mut Cx) -> Res { if cx.index % 5 == 0 { smooth_marathon(cx) } else { crate::data::huge(cx, smooth_case) } }

/// More rounds than 16 bits can count: a learner that never gets its advantage keeps the run on to its bound.
fn smooth_marathon(cx: &mut Cx) -> Res {
    let (sample, y) = toy_sample(&mut cx.rng, 4, 8)?;
    let n = y.len();
    let mut rng = cx.rng.fork();
    let p = Params { kappa: 0.1, gamma: rng.range(0.0145, 0.0165), ..Params::default() };
    let (g, theta) = (p.gamma, p.gamma / (2.0 + p.gamma));
    let b = budget(Algo::Smooth, n, &p).unwrap();
    // (margins below theta: no weight ever falls)
    let y2 = y.clone();
    let strat: Strategy = Box::new(move |t, _| (1000 + t, Arc::new(y2.iter().map(|v| v * 1e-3 * (1 + t % 3) as f64).collect())));
    let spy = Spy::new(&sample, b + 1, strat);
    let r = run(Algo::Smooth, &p, &sample, &spy, false)?;
    if !r.done() { return inconclusive("run cut"); }
    let t = r.rounds.len();
    let mut big_n = vec![0.0f64; n];
    for x in &r.rounds { for i in 0..n { big_n[i] += x.margins[i] - theta; } }
    let raw: f64 = big_n.iter().map(|&v| if v <= 0.0 { 1.0 } else { (1.0 - g).powf(v / 2.0) }).sum();
    if t < b { ensure!(raw < n as f64 * p.kappa * (1.0 + 1e-6), "early-stop", "stopped after {t} rounds (budget {b}) with total raw weight {raw} >= kappa*n = {}", n as f64 * p.kappa); }
    ensure!(r.vote.len() == t && r.vote.iter().all(|v| (v.1 - 1.0 / t as f64).abs() <= 1e-12), "uniform-vote", "{t} rounds, but a vote of {} members", r.vote.len());
    cx.max("rounds of a run", t as f64);
    cx.seen(fp_run(Algo::Smooth, &r));
    Ok(())
}
pub fn p09() -> Check {
    Check {
        id: "P09",
        rule: "a run counts when it terminated by itself after at least two rounds; distinct = distinct histories",
        assumptions: &["advantage g means edge >= 2g (SmoothBoost's weighted half error at most 1/2 - g)"],
        families: vec![fam("runs", 500, 8000, smooth_case), fam("huge", 1, 6, smooth_huge)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

// ---------------------------------------------------------------- P14 graph separation

fn graph_case(cx: &mut Cx) -> Res {
    let f = cx.rng.f();
    let (lo, hi) = if f < 0.0002 { (400, 800) } else if f < 0.01 { (31, 130) } else { (2, 30) };
    let (sample, y) = toy_sample(&mut cx.rng, lo, hi)?;
    let n = y.len();
    let mut rng = cx.rng.fork();
    let kind = rng.below(5);
    let p_stall = if rng.bool(0.3) { 0.3 } else { 0.0 };
    let y2 = y.clone();
    let mut r2 = rng.fork();
    let strat: Strategy = Box::new(move |t, d| {
        let v: Vec<f64> = match kind {
            0 => (0..n).map(|_| if r2.bool(0.5) { 1.0 } else { -1.0 }).collect(),
            1 => (0..n).map(|_| *r2.pick(&[-0.7, -0.1, 0.0, 0.2, 1.0])).collect(),
            2 => { let i = (0..n).fold(0, |b, i| if d[i] > d[b] { i } else { b }); (0..n).map(|j| if j == i { y2[j] } else { -y2[i] }).collect() }
            3 => { let c = r2.below(n); (0..n).map(|j| if j <= c { 1.0 } else { -1.0 }).collect() }
            _ => (0..n).map(|j| if r2.bool(0.2) { -y2[j] } else { y2[j] * 0.5 }).collect(),
        };
        if t > 1 && r2.bool(p_stall) { return (t, Arc::new(vec![if r2.bool(0.5) { 0.0 } else { -1.0 }; n])); }
        (t, Arc::new(v))
    });
    let spy = Spy::new(&sample, 2000, strat);
    let mut b = GraphSepBoost::init(&sample);
    // what went before: nothing, or a run (whole or left half way) with other hypotheses
    if rng.bool(0.3) {
        let mut r3 = rng.fork();
        let junk: Strategy = Box::new(move |t, _| (5000 + t, Arc::new((0..n).map(|_| if r3.bool(0.5) { 1.0 } else { -1.0 }).collect())));
        let _ = try_lib(|| b.run(&Spy::new(&sample, if rng.bool(0.5) { 2 } else { 2000 }, junk)));
        cx.count("runs after another one", 1);
    }
    let agg = lib("GraphSepBoost::run", || b.run(&spy))?;
    let rounds = spy.take();
    ensure!(!spy.bad_sample.get(), "sample", "the learner was handed another sample");
    // independent bookkeeping of confused pairs
    let mut conf = vec![vec![false; n]; n];
    let mut left = 0usize;
    for i in 0..n { for j in 0..n { if i != j && y[i] != y[j] { conf[i][j] = true; left += 1; } } }
    let mut stalled = false;
    for (t, x) in rounds.iter().enumerate() {
        ensure!(left > 0, "late-stop", "round {}: no confused pair is left, yet the learner was called", t + 1);
        ensure!(!stalled, "late-stop", "round {}: the previous hypothesis separated nothing, yet the run went on", t + 1);
        ensure!(x.dist.len() == n, "len", "round {}: {} weights for {n} examples", t + 1, x.dist.len());
        let mut s = 0.0;
        for i in 0..n {
            let deg = conf[i].iter().filter(|&&c| c).count();
            let want = deg as f64 / left as f64;
            ensure!((x.dist[i] - want).abs() <= 1e-12, "weights", "round {}: weight of example {i} is {}, it is in {deg} of {left} ordered confused pairs", t + 1, x.dist[i]);
            s += x.dist[i];
        }
        ensure!((s - 1.0).abs() <= 1e-9, "sum", "round {}: weights sum to {s}", t + 1);
        cx.count("weightings", 1);
        let sign: Vec<bool> = (0..n).map(|i| x.margins[i] * y[i] >= 0.0).collect();
        let before = left;
        for i in 0..n { for j in 0..n { if conf[i][j] && sign[i] != sign[j] { conf[i][j] = false; left -= 1; } } }
        stalled = before == left;
        cx.count("pairs separated", ((before - left) / 2) as u64);
    }
    ensure!(left == 0 || stalled, "early-stop", "stopped after {} rounds with {left} confused pairs although the last hypothesis separated some", rounds.len());
    let pred = lib("NaiveAggregation::predict_all", || agg.predict_all(&sample))?;
    if left == 0 {
        for i in 0..n { ensure!(pred[i] as f64 == y[i], "separate", "all pairs are separated after {} rounds, but example {i} with label {} is predicted {}", rounds.len(), y[i], pred[i]); }
        cx.count("separated runs", 1);
    } else { cx.count("stalled runs", 1); }
    // +1 exactly when some positive example has the same sign pattern
    let pat = |i: usize| -> Vec<bool> { rounds.iter().map(|x| x.margins[i] * y[i] >= 0.0).collect() };
    for i in 0..n {
        let want = (0..n).any(|k| y[k] > 0.0 && pat(k) == pat(i));
        ensure!((pred[i] == 1) == want, "aggregation", "example {i}: predicted {}, a positive example with the same pattern exists: {want}", pred[i]);
    }
    let mut h = 3u64; for x in &rounds { h = hash_f64s(h, &x.margins); }
    if !rounds.is_empty() { cx.seen(h); }
    cx.note(format!("n={n} labels {:?} learner kind {kind} rounds {} confused pairs left {}", y, rounds.len(), left / 2));
    Ok(())
}
pub fn p14() -> Check {
    Check {
        id: "P14",
        rule: "a run counts when the learner was called at least once; distinct = distinct (label, hypothesis) histories",
        assumptions: &["labels are -1/+1; a confidence of zero is a positive prediction, as Classifier::predict documents"],
        families: vec![fam("runs", 1500, 20000, graph_case)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

// ---------------------------------------------------------------- P24 budgets and votes

fn vote_case(cx: &mut Cx, algo: Algo) -> Res {
    let mut c = gen_case(cx, algo)?;
    let mut rng = cx.rng.fork();
    // tolerances that keep the documented budget observable
    c.p.tol = if algo.solver() { *rng.pick(&[0.5, 0.4, 0.3, 0.2]) } else { *rng.pick(&[0.5, 0.4, 0.3, 0.2, 0.1]) };
    if algo.quits() { c.p.quit = if rng.bool(0.5) { Some(rng.int(1, 30)) } else { None }; }
    if algo == Algo::Smooth { c.p.gamma = *rng.pick(&[0.1, 0.2, 0.3, 0.45]); c.p.kappa = *rng.pick(&[0.1, 0.3, 0.5]); }
    if algo == Algo::Mada && c.p.quit.is_none() { c.p.tol = *rng.pick(&[0.9, 0.5]); }
    if rng.bool(0.15) && !matches!(algo, Algo::Smooth) { c.p.tol = *rng.pick(&[0.9, 0.99]); }
    let n = c.y.len();
    let b = budget(algo, n, &c.p);
    let hi = if matches!(algo, Algo::Lp | Algo::Soft | Algo::Total | Algo::Erlp | Algo::Mlp(_)) { c.strat_kind = rng.below(2); 0.9 } else { 0.9 };
    if algo == Algo::Lp { c.strat_kind = 0; }
    let strat = gen_strategy(&c, &mut rng, 0.02, hi);
    let cap = match b { Some(b) => b.min(6000) + 1, None => c.pool.len() + 3 };
    let spy = Spy::new(&c.sample, cap, strat).min_edge(1e-9);
    let step = rng.bool(0.6);
    let r = run(algo, &c.p, &c.sample, &spy, step)?;
    describe(cx, &c, &r);
    let a = algo.name();
    ensure!(r.max_calls_per_step <= 1, format!("calls:{a}"), "{a} called the learner {} times in one round", r.max_calls_per_step);
    match b {
        Some(b) => {
            ensure!(r.rounds.len() <= b, format!("budget:{a}"), "{a} called the learner {} times; the documented bound is {b} ({:?}, n={n})", r.rounds.len(), c.p);
            cx.max("rounds / budget", r.rounds.len() as f64 / b as f64);
            if r.rounds.len() == b { cx.count("runs that used the whole budget", 1); }
        }
        None => ensure!(r.rounds.len() <= c.pool.len() + 2, format!("budget:{a}"), "{a} is still running after {} rounds on a pool of {} hypotheses (tolerance {})", r.rounds.len(), c.pool.len(), c.p.tol),
    }
    if !r.done() {
        // the guard ends runs in which the learner cannot keep its promise
        if r.rounds.last().map_or(true, |x| x.edge <= 1e-9) { cx.count("cut: learner out of promises", 1); return Ok(()); }
        return inconclusive("run cut by the round guard");
    }
    ensure!(!r.vote.is_empty(), format!("vote:{a}"), "{a} returned an empty vote after {} rounds", r.rounds.len());
    let s: f64 = r.vote.iter().map(|v| v.1).sum();
    ensure!((s - 1.0).abs() <= 1e-9, format!("vote-sum:{a}"), "{a}: vote weights sum to {s}");
    let mut by_id: std::collections::HashMap<usize, &crate::learn::Round> = Default::default();
    for x in &r.rounds { by_id.entry(x.id).or_insert(x); }
    for (k, (id, w)) in r.vote.iter().enumerate() {
        ensure!(*w > 0.0 && w.is_finite(), format!("vote-positive:{a}"), "{a}: vote weight {w}");
        let src = by_id.get(id);
        ensure!(src.is_some(), format!("vote-member:{a}"), "{a}: vote member {id} was never returned by the learner in this run");
        let m = margins_of(&r.vote_vals[k], &c.y);
        ensure!(m == src.unwrap().margins, format!("vote-member:{a}"), "{a}: vote member {id} differs from what the learner returned");
    }
    for cur in &r.currents {
        let s: f64 = cur.iter().map(|v| v.1).sum();
        ensure!((s - 1.0).abs() <= 1e-6 && cur.iter().all(|v| v.1 > 0.0), format!("current:{a}"), "{a}: current hypothesis during the run has weights {:?}", cur);
        cx.count("intermediate votes", 1);
    }
    cx.count("finished runs", 1);
    if r.rounds.len() >= 2 { cx.seen(fp_run(algo, &r)); }
    Ok(())
}
/// Runs of more rounds than 16 bits can count.
fn marathon(cx: &mut Cx) -> Res {
    let algo = [Algo::Ada, Algo::AdaV, Algo::Mada][cx.index % 3];
    let (sample, y) = toy_sample(&mut cx.rng, 4, 8)?;
    let n = y.len();
    let mut rng = cx.rng.fork();
    let mut p = Params { tol: 0.003, kappa: 0.1, gamma: 0.016, ..Params::default() };
    let by_limit = algo.quits() && rng.bool(0.7);
    if by_limit { p.quit = Some(rng.int(65_537, 68_000)); p.tol = 0.001; }
    else { p.tol = match algo { Algo::Ada => ((n as f64).ln() / 66_000.0).sqrt(), Algo::AdaV => (2.0 * (n as f64).ln() / 66_000.0).sqrt(), _ => ((n as f64 - 1.0) / 66_000.0).sqrt() }; }
    let b = budget(algo, n, &p).unwrap();
    let strat = fresh_response(y.clone(), 0.02, 0.5, 1, rng.fork());
    let spy = Spy::new(&sample, b + 1, strat).min_edge(1e-9);
    let r = run(algo, &p, &sample, &spy, false)?;
    let c = Case { algo, p, sample, y, pool: vec![], strat_kind: 2 };
    describe(cx, &c, &r);
    let a = algo.name();
    ensure!(r.rounds.len() <= b, format!("budget:{a}"), "{a} called the learner {} times; the documented bound is {b} ({:?}, n={n})", r.rounds.len(), c.p);
    if !r.done() { return inconclusive("run cut"); }
    if by_limit && !r.rounds.last().map_or(true, |x| x.edge > 1.0 - 1e-9) { ensure!(r.rounds.len() == b, format!("forced-limit:{a}"), "{a} made {} rounds with a forced limit of {b}", r.rounds.len()); }
    cx.max("rounds of a run", r.rounds.len() as f64);
    let s: f64 = r.vote.iter().map(|v| v.1).sum();
    ensure!((s - 1.0).abs() <= 1e-9, format!("vote-sum:{a}"), "{a}: vote weights sum to {s}");
    ensure!(r.vote.len() == r.rounds.len(), format!("vote-size:{a}"), "{a}: the vote has {} members after {} rounds", r.vote.len(), r.rounds.len());
    let ids: std::collections::HashSet<usize> = r.rounds.iter().map(|x| x.id).collect();
    for (id, w) in &r.vote { ensure!(*w > 0.0 && ids.contains(id), format!("vote-member:{a}"), "{a}: vote weight {w} on {id}"); }
    if algo == Algo::Ada || algo == Algo::AdaV { exp_law(cx, &c, &r)?; }
    cx.seen(fp_run(algo, &r));
    Ok(())
}
per_algo! { vote_case:
    v_ada = Algo::Ada; v_adav = Algo::AdaV; v_mada = Algo::Mada; v_smooth = Algo::Smooth; v_lp = Algo::Lp; v_erlp = Algo::Erlp;
    v_soft = Algo::Soft; v_total = Algo::Total;
    v_c0 = Algo::Cerlp(0); v_c1 = Algo::Cerlp(1); v_c2 = Algo::Cerlp(2); v_c3 = Algo::Cerlp(3);
    v_m0 = Algo::Mlp(0); v_m1 = Algo::Mlp(1); v_m2 = Algo::Mlp(2); v_m3 = Algo::Mlp(3);
}
pub fn p24() -> Check {
    Check {
        id: "P24",
        rule: "a run counts when it finished after at least two rounds; distinct = distinct histories",
        assumptions: &["budgets are the documented round bounds; LPBoost has none and must end within one round per pool member",
            "hypotheses have positive edge; runs in which the pool has none left are judged up to that point"],
        families: vec![
            fam("adaboost", 100, 1200, v_ada), fam("adaboostv", 100, 1200, v_adav), fam("madaboost", 100, 1200, v_mada), fam("smoothboost", 60, 800, v_smooth),
            fam("marathon", 1, 8, marathon), fam("lpboost", 80, 1000, v_lp), fam("erlpboost", 60, 800, v_erlp), fam("softboost", 60, 800, v_soft), fam("totalboost", 60, 800, v_total),
            fam("cerlp-classic", 50, 600, v_c0), fam("cerlp-short", 50, 600, v_c1), fam("cerlp-line", 50, 600, v_c2), fam("cerlp-bp", 50, 600, v_c3),
            fam("mlp-classic", 50, 600, v_m0), fam("mlp-short", 50, 600, v_m1), fam("mlp-line", 50, 600, v_m2), fam("mlp-bp", 50, 600, v_m3),
        ],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
