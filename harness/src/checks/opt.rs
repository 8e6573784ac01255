//! Optimality monitors: P11, P12, P27, P31, P32.
use crate::booster::*;
use crate::checks::boost::Case;
use crate::ctx::*;
use crate::learn::*;
use crate::refopt::*;
use crate::rng::{hash_f64s, hash_str};

fn gen(cx: &mut Cx, algo: Algo, hi: usize) -> Res<Case> {
    let big = cx.rng.bool(0.03);
    let (sample, y) = toy_sample(&mut cx.rng, if big { hi } else { 2 }, if big { 3 * hi } else { hi })?;
    let n = y.len();
    let r = &mut cx.rng;
    let tol = if r.bool(0.3) { r.range(0.04, 0.6) } else { *r.pick(&[0.4, 0.3, 0.2, 0.1, 0.05]) };
    let p = Params { nu: if matches!(algo, Algo::AdaV | Algo::Total) { 1.0 } else { gen_nu(r, n) }, tol, quit: None, ..Params::default() };
    let kind = r.int(1, 3);
    let k = if big { r.int(20, 80) } else { r.int(3, 30) };
    let pool = gen_pool(r, &y, k, kind);
    Ok(Case { algo, p, sample, y, pool, strat_kind: 0 })
}

fn margins_final(r: &Run, y: &[f64]) -> Vec<f64> {
    let n = y.len();
    let s: f64 = r.vote.iter().map(|v| v.1).sum();
    (0..n).map(|i| r.vote.iter().zip(&r.vote_vals).map(|(v, h)| v.1 * h[i] * y[i]).sum::<f64>() / s).collect()
}

fn note(cx: &mut Cx, c: &Case, r: &Run, extra: String) {
    let e: Vec<String> = r.rounds.iter().take(6).map(|x| format!("{:.4}", x.edge)).collect();
    cx.note(format!("{} n={} pool={} nu={} tol={} rounds={} edges [{}..] {extra}", c.algo.name(), c.y.len(), c.pool.len(), c.p.nu, c.p.tol, r.rounds.len(), e.join(", ")));
}

fn optimal_case(cx: &mut Cx, algo: Algo, slack: f64) -> Res {
    let c = gen(cx, algo, if cx.thorough { 32 } else { 20 })?;
    let spy = Spy::new(&c.sample, 30_000, best_response(c.pool.clone(), &c.y));
    let ms: Vec<Vec<f64>> = c.pool.iter().map(|h| margins_of(h, &c.y)).collect();
    let Some((_, lo, hi)) = best_soft(&ms, c.p.nu) else { return inconclusive("reference LP failed") };
    if matches!(algo, Algo::AdaV | Algo::Total) && lo <= 1e-3 { cx.count("pools without a positive margin (not judged)", 1); return Ok(()); }
    let r = run(algo, &c.p, &c.sample, &spy, false)?;
    if !r.done() { return inconclusive(format!("{}: {}", algo.name(), match &r.ended { Ended::Cut(s) => s.as_str(), _ => "" })); }
    let got = soft_margin(&margins_final(&r, &c.y), c.p.nu);
    if cx.verbose { for x in &r.rounds { eprintln!("{:?} {:?}", x.dist, x.margins); } }
    note(cx, &c, &r, format!("objective {got:.6}, best in [{lo:.6}, {hi:.6}]"));
    ensure!(!r.vote.is_empty() && got.is_finite(), format!("empty:{}", algo.name()), "{} returned no usable vote ({:?}, n={}): {:?}", algo.name(), c.p, c.y.len(), r.vote);
    ensure!(got >= lo - c.p.tol - slack, format!("suboptimal:{}", algo.name()),
        "{} stopped after {} rounds at objective {got}, but a combination of the pool reaches {lo}: gap {} > tolerance {} (nu={}, n={}, pool of {})",
        algo.name(), r.rounds.len(), lo - got, c.p.tol, c.p.nu, c.y.len(), c.pool.len());
    cx.max("gap / tolerance", (lo - got) / c.p.tol);
    cx.max("reference duality gap", hi - lo);
    cx.count("optimality gaps checked", 1);
    cx.count("rounds", r.rounds.len() as u64);
    if r.rounds.len() >= 3 { cx.seen(hash_f64s(hash_str(&algo.name()), &r.rounds.last().unwrap().dist) ^ r.rounds.len() as u64); }
    Ok(())
}
/// After every round MLPBoost's combination is, up to its regularisation (log(n/nu)/eta) and the perturbation of its
/// linear program (/eta), no worse than the best over the hypotheses received so far.
/// Bound on the perturbation log(log(1/u)) of the linear program.
const SHORT: f64 = 6.0;
fn secondary(cx: &mut Cx) -> Res {
    let algo = Algo::Mlp(cx.rng.below(4) as u8);
    let mut c = gen(cx, algo, 32)?;
    c.p.tol = *cx.rng.pick(&[0.02, 0.04, 0.08]);
    c.p.nu = cx.rng.range(1.0, (c.y.len() as f64 * 0.6).max(1.5));
    c.strat_kind = cx.rng.below(3);
    let mut rng = cx.rng.fork();
    let strat = crate::checks::boost::gen_strategy(&c, &mut rng, 0.02, 0.8);
    let spy = Spy::new(&c.sample, 25, strat).min_edge(1e-9);
    let r = run(algo, &c.p, &c.sample, &spy, true)?;
    note(cx, &c, &r, String::new());
    let (n, eta) = (c.y.len(), eta_of(&c));
    if eta <= 0.0 { return Ok(()); }
    let vals: std::collections::HashMap<usize, Vec<f64>> = r.rounds.iter().map(|x| (x.id, x.margins.clone())).collect();
    for t in 1..=r.currents.len() {
        let cur = &r.currents[t - 1];
        let past: Vec<Vec<f64>> = r.rounds[..t].iter().map(|x| x.margins.clone()).collect();
        let Some((_, lo, _)) = best_soft(&past, c.p.nu) else { continue };
        let s: f64 = cur.iter().map(|x| x.1).sum();
        let m: Vec<f64> = (0..n).map(|i| cur.iter().map(|(id, w)| w * vals[id][i]).sum::<f64>() / s).collect();
        let got = soft_margin(&m, c.p.nu);
        let short = (lo - got) * eta - (n as f64 / c.p.nu).ln();
        cx.max("shortfall of MLPBoost's combination times eta", short);
        ensure!(short <= SHORT, "corrective:MlpBoost", "MlpBoost after round {t}: its combination has objective {got}, the best over the {t} hypotheses so far {lo}; the regularisation accounts for {} only (eta={eta}, nu={}, n={n})", ((n as f64 / c.p.nu).ln() + SHORT) / eta, c.p.nu);
        cx.count("combinations compared with the LP over the hypotheses so far", 1);
        if t >= 3 { cx.seen(hash_f64s(t as u64, &m)); }
    }
    Ok(())
}
macro_rules! per_algo { ($f:ident, $s:expr; $($name:ident = $a:expr;)*) => { $(fn $name(cx: &mut Cx) -> Res { $f(cx, $a, $s) })* } }
per_algo! { optimal_case, 1e-6;
    o_lp = Algo::Lp; o_erlp = Algo::Erlp; o_soft = Algo::Soft;
    o_c0 = Algo::Cerlp(0); o_c1 = Algo::Cerlp(1); o_c2 = Algo::Cerlp(2); o_c3 = Algo::Cerlp(3);
    o_m0 = Algo::Mlp(0); o_m1 = Algo::Mlp(1); o_m2 = Algo::Mlp(2); o_m3 = Algo::Mlp(3);
    o_adav = Algo::AdaV; o_total = Algo::Total;
}
pub fn p11() -> Check {
    Check {
        id: "P11",
        rule: "a run counts when it took at least three rounds; distinct = distinct final weightings per algorithm",
        assumptions: &["the learner is an exact best response over the pool", "the reference is a convex combination re-evaluated exactly, so it is a certified lower bound on the optimum; slack 1e-6 for the library's solver",
            "runs over 30000 rounds are not judged"],
        families: vec![
            fam("lpboost", 100, 1500, o_lp), fam("erlpboost", 100, 1500, o_erlp), fam("softboost", 100, 1500, o_soft),
            fam("cerlp-classic", 40, 600, o_c0), fam("cerlp-short", 40, 600, o_c1), fam("cerlp-line", 40, 600, o_c2), fam("cerlp-bp", 40, 600, o_c3),
            fam("mlp-classic", 40, 600, o_m0), fam("mlp-short", 40, 600, o_m1), fam("mlp-line", 40, 600, o_m2), fam("mlp-bp", 40, 600, o_m3), fam("mlp-corrective", 300, 4000, secondary),
        ],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
pub fn p12() -> Check {
    Check {
        id: "P12",
        rule: "a run counts when it took at least three rounds; distinct = distinct final weightings per algorithm",
        assumptions: &["the learner is an exact best response over the pool", "only pools with a positive best margin are judged"],
        families: vec![fam("adaboostv", 200, 3000, o_adav), fam("totalboost", 200, 3000, o_total)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

// ---------------------------------------------------------------- P27

fn eta_of(c: &Case) -> f64 {
    let l = (c.y.len() as f64 / c.p.nu).ln() / (c.p.tol / 2.0);
    if c.algo == Algo::Erlp { l.max(0.5) } else { l }
}

fn dist_case(cx: &mut Cx, algo: Algo, _s: f64) -> Res {
    let mut c = gen(cx, algo, 16)?;
    c.strat_kind = cx.rng.below(3);
    if matches!(algo, Algo::Soft | Algo::Erlp | Algo::Cerlp(_) | Algo::Mlp(_)) && cx.rng.bool(0.7) { c.p.nu = cx.rng.range(1.0, (c.y.len() as f64 * 0.6).max(1.5)); }
    let mut rng = cx.rng.fork();
    let strat = crate::checks::boost::gen_strategy(&c, &mut rng, 0.02, 0.8);
    let spy = Spy::new(&c.sample, 40, strat).min_edge(1e-9);
    let r = run(algo, &c.p, &c.sample, &spy, true)?;
    note(cx, &c, &r, String::new());
    let a = algo.name();
    let (n, eta) = (c.y.len(), eta_of(&c));
    let vals: std::collections::HashMap<usize, Vec<f64>> = r.rounds.iter().map(|x| (x.id, x.margins.clone())).collect();
    let mut ghat = 1.0f64;
    for t in 1..r.rounds.len() {
        let d = &r.rounds[t].dist;
        let past: Vec<Vec<f64>> = r.rounds[..t].iter().map(|x| x.margins.clone()).collect();
        ghat = ghat.min(r.rounds[t - 1].edge);
        match algo {
            Algo::Cerlp(_) | Algo::Mlp(_) => {
                let Some(cur) = r.currents.get(t - 1) else { break };
                let mut m = vec![0.0; n];
                for (id, w) in cur { for i in 0..n { m[i] += w * vals[id][i]; } }
                let want = capped_exp(&m, c.p.nu, eta);
                for i in 0..n {
                    ensure!((d[i] - want[i]).abs() <= 1e-7, format!("weights:{a}"), "{a} round {}: weight of example {i} is {}, the capped exponential weighting of the current combination gives {} (eta={eta}, nu={}, margins {m:?})", t + 1, d[i], want[i], c.p.nu);
                }
                if let Some((id, _)) = cur.first() { let _ = id; }
                cx.count("exponential weightings", 1);
            }
            Algo::Erlp => {
                let val = |d: &[f64]| past.iter().map(|m| dot(m, d)).fold(f64::NEG_INFINITY, f64::max) + rel_entropy(d) / eta;
                let Some(rf) = entropic(&past, c.p.nu, eta, None) else { cx.count("reference failed", 1); continue };
                let (g, w) = (val(d), val(&rf));
                cx.max("objective excess", g - w);
                ensure!(g <= w + 2e-3, "erlp-optimum", "{a} round {}: objective of its weighting is {g}, a feasible weighting reaches {w} (eta={eta}, nu={}, n={n}, {t} hypotheses)", t + 1, c.p.nu);
                cx.count("entropic optima", 1);
            }
            _ => {
                let rhs = ghat - c.p.tol;
                let worst = past.iter().map(|m| dot(m, d)).fold(f64::NEG_INFINITY, f64::max);
                // the smallest achievable largest edge; if it is within 1e-3 of the bound the feasible set is nearly empty
                match best_soft(&past, c.p.nu) { Some((_, lo, _)) if rhs - lo > 1e-3 => {} _ => { cx.count("nearly empty feasible set (not judged)", 1); continue; } }
                ensure!(worst <= rhs + 1e-5, format!("constraint:{a}"), "{a} round {}: a past hypothesis has edge {worst} under the weighting, the bound is {rhs} (smallest edge {ghat}, tolerance {})", t + 1, c.p.tol);
                let Some(rf) = entropic(&past, c.p.nu, 1.0, Some(rhs)) else { cx.count("reference failed", 1); continue };
                let wr = past.iter().map(|m| dot(m, &rf)).fold(f64::NEG_INFINITY, f64::max);
                if wr > rhs + 1e-7 { cx.count("reference failed", 1); continue; }
                let (g, w) = (rel_entropy(d), rel_entropy(&rf));
                cx.max("entropy excess", g - w);
                ensure!(g <= w + 1e-2, format!("entropy:{a}"), "{a} round {}: relative entropy of its weighting is {g}, a weighting meeting all constraints has {w} (nu={}, n={n}, {t} hypotheses)", t + 1, c.p.nu);
                cx.count("entropic projections", 1);
            }
        }
        cx.seen(hash_f64s(hash_str(&a), d));
    }
    Ok(())
}
per_algo! { dist_case, 0.0;
    d_erlp = Algo::Erlp; d_soft = Algo::Soft; d_total = Algo::Total;
    d_c0 = Algo::Cerlp(0); d_c1 = Algo::Cerlp(1); d_c2 = Algo::Cerlp(2); d_c3 = Algo::Cerlp(3);
    d_m0 = Algo::Mlp(0); d_m1 = Algo::Mlp(1); d_m2 = Algo::Mlp(2); d_m3 = Algo::Mlp(3);
}
pub fn p27() -> Check {
    Check {
        id: "P27",
        rule: "a weighting counts from the second round on, compared with its reference; distinct = distinct weightings per algorithm",
        assumptions: &["references are made exactly feasible before comparison"],
        families: vec![
            fam("erlpboost", 120, 1500, d_erlp), fam("softboost", 120, 1500, d_soft), fam("totalboost", 120, 1500, d_total),
            fam("cerlp-classic", 60, 800, d_c0), fam("cerlp-short", 60, 800, d_c1), fam("cerlp-line", 60, 800, d_c2), fam("cerlp-bp", 60, 800, d_c3),
            fam("mlp-classic", 60, 800, d_m0), fam("mlp-short", 60, 800, d_m1), fam("mlp-line", 60, 800, d_m2), fam("mlp-bp", 60, 800, d_m3),
        ],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

// ---------------------------------------------------------------- P31

/// One combination, and the direction a step may take from it.
struct Step<'a> { c: &'a Case, eta: f64, base: Vec<f64>, dir: Vec<f64>, max: f64 }
impl Step<'_> {
    fn at(&self, s: f64) -> Vec<f64> { self.base.iter().zip(&self.dir).map(|(b, d)| b + s * d).collect() }
    /// slope of the smoothed objective along the direction (it falls as the step grows)
    fn slope(&self, s: f64) -> f64 { dot(&capped_exp(&self.at(s), self.c.p.nu, self.eta), &self.dir) }
    fn value(&self, s: f64) -> f64 { smoothed(&self.at(s), self.c.p.nu, self.eta) }
    /// best step up to `max`
    fn best(&self) -> f64 {
        if self.slope(self.max) >= 0.0 { return self.max; }
        let (mut lo, mut hi) = (0.0, self.max);
        for _ in 0..60 { let s = (lo + hi) / 2.0; if self.slope(s) > 0.0 { lo = s } else { hi = s } }
        (lo + hi) / 2.0
    }
    /// is `s` within 1e-6 of a step at which the slope vanishes, or of the end it points to?
    fn is_best(&self, s: f64) -> bool {
        let t = 1e-6;
        s >= -1e-9 && s <= self.max + 1e-9 && (s <= t || self.slope(s - t) >= -1e-9) && (s >= self.max - t || self.slope(s + t) <= 1e-9)
    }
}
/// min over weightings capped at 1/nu of (weighted average of m) + relative entropy / eta
fn smoothed(m: &[f64], nu: f64, eta: f64) -> f64 { let d = capped_exp(m, nu, eta); dot(&d, m) + rel_entropy(&d) / eta }

type Weights = std::collections::BTreeMap<usize, f64>;
fn get(w: &Weights, id: usize) -> f64 { w.get(&id).copied().unwrap_or(0.0) }
/// The length of the move from `w` to `v` if it goes along `dir`.
fn along(w: &Weights, v: &Weights, dir: &Weights) -> Option<f64> {
    let ids: std::collections::BTreeSet<usize> = w.keys().chain(v.keys()).chain(dir.keys()).copied().collect();
    let dd: f64 = dir.values().map(|x| x * x).sum();
    if dd < 1e-18 { return if ids.iter().all(|&i| (get(w, i) - get(v, i)).abs() <= 1e-8) { Some(0.0) } else { None }; }
    let s = ids.iter().map(|&i| (get(v, i) - get(w, i)) * get(dir, i)).sum::<f64>() / dd;
    if ids.iter().all(|&i| (get(w, i) + s * get(dir, i) - get(v, i)).abs() <= 1e-8) { Some(s) } else { None }
}

/// The second hypothesis is such that the slope of the smoothed objective nearly vanishes where it takes all the weight.
fn brink<'a>(c: &Case, mut rng: crate::rng::Rng) -> Strategy<'a> {
    let (n, nu, eta, y) = (c.y.len(), c.p.nu, eta_of(c), c.y.clone());
    let mut base: Vec<f64> = vec![];
    Box::new(move |t, d| {
        if t != 2 {
            base = (0..n).map(|_| rng.range(-0.7, 0.7)).collect();
            if dot(&base, d) < 0.0 { for b in base.iter_mut() { *b = -*b; } }
        } else {
            let mut u: Vec<f64> = (0..n).map(|_| rng.range(-0.3, 0.3)).collect();
            if dot(&u, d) < 0.0 { for b in u.iter_mut() { *b = -*b; } }
            let goal = *rng.pick(&[-1.0, -1.0, 1.0]) * 10f64.powf(rng.range(-6.0, -2.0));
            let slope = |l: f64| { let m: Vec<f64> = base.iter().zip(&u).map(|(b, u)| b + l * u).collect(); l * dot(&capped_exp(&m, nu, eta), &u) };
            let (mut lo, mut hi) = (0.05, 1.0);
            for _ in 0..50 { let l = (lo + hi) / 2.0; if slope(l) > goal { lo = l } else { hi = l } }
            for (b, u) in base.iter_mut().zip(&u) { *b += lo * u; }
        }
        (1000 + t, std::sync::Arc::new(base.iter().zip(&y).map(|(m, y)| m * y).collect()))
    })
}

fn step_case(cx: &mut Cx, algo: Algo, _s: f64) -> Res {
    let mut c = gen(cx, algo, 24)?;
    c.strat_kind = cx.rng.below(3);
    let nf = c.y.len() as f64;
    match cx.rng.below(5) { 0 | 1 => c.p.nu = cx.rng.range(1.0, (nf * 0.6).max(1.5)), 2 => c.p.nu = cx.rng.range((nf * 0.5).max(1.0), nf * 0.98), 3 => c.p.nu = nf * (1.0 - 10f64.powf(cx.rng.range(-2.5, -0.7))), _ => {} }
    c.p.tol = if cx.rng.bool(0.5) { 10f64.powf(cx.rng.range(-2.0, -0.5)) } else { c.p.tol };
    let mut rng = cx.rng.fork();
    let strat = if rng.bool(0.15) { brink(&c, rng.fork()) } else if rng.bool(0.5) { best_response(c.pool.clone(), &c.y) } else { crate::checks::boost::gen_strategy(&c, &mut rng, 0.02, 0.8) };
    let spy = Spy::new(&c.sample, 40, strat).min_edge(1e-9);
    let r = run(algo, &c.p, &c.sample, &spy, true)?;
    note(cx, &c, &r, String::new());
    let a = algo.name();
    let (k, mlp) = match algo { Algo::Cerlp(k) => (k, false), Algo::Mlp(k) => (k, true), _ => unreachable!() };
    let (n, eta) = (c.y.len(), eta_of(&c));
    if eta < 1e-3 { cx.count("runs without regularisation (not judged)", 1); return Ok(()); }
    let vals: std::collections::HashMap<usize, Vec<f64>> = r.rounds.iter().map(|x| (x.id, x.margins.clone())).collect();
    let margins = |w: &Weights| -> Vec<f64> { let mut m = vec![0.0; n]; for (id, x) in w { for i in 0..n { m[i] += x * vals[id][i]; } } m };
    let mut w = Weights::new();
    let mut h = hash_str(&a);
    for (t, cur) in r.currents.iter().enumerate() {
        let mut v = Weights::new();
        for (id, x) in cur { *v.entry(*id).or_insert(0.0) += x; }
        let (lo, tot) = (v.values().cloned().fold(0.0, f64::min), v.values().sum::<f64>());
        ensure!(lo >= -1e-8 && (tot - 1.0).abs() <= 1e-7, format!("simplex:{a}"), "{a} after round {}: the weights of the combination are {v:?} (sum {tot})", t + 1);
        let x = &r.rounds[t];
        if t == 0 {
            ensure!((get(&v, x.id) - 1.0).abs() <= 1e-9, format!("first:{a}"), "{a} after round 1: the only hypothesis has weight {}", get(&v, x.id));
            w = v;
            continue;
        }
        let base = margins(&w);
        let mut toward: Weights = w.iter().map(|(id, x)| (*id, -x)).collect();
        *toward.entry(x.id).or_insert(0.0) += 1.0;
        let fwd = Step { c: &c, eta, dir: x.margins.iter().zip(&base).map(|(m, b)| m - b).collect(), base: base.clone(), max: 1.0 };
        let was = smoothed(&base, c.p.nu, eta);
        // the steps the strategy allows: (name, direction, geometry, exact step or None for "the best one")
        let mut allowed: Vec<(&str, Weights, Step, Option<f64>)> = vec![];
        match k {
            0 => allowed.push(("classic", toward, fwd, Some(2.0 / (t as f64 + 2.0)))),
            1 => {
                let num = dot(&x.dist, &fwd.dir);
                let den = fwd.dir.iter().fold(0.0f64, |m, d| m.max(d.abs()));
                if den < 1e-9 { w = v; continue; }
                allowed.push(("short", toward, fwd, Some((num / (eta * den * den)).clamp(0.0, 1.0))));
            }
            2 => allowed.push(("line", toward, fwd, None)),
            _ => {
                let act: Vec<(usize, f64)> = w.iter().filter(|x| *x.1 > 0.0).map(|(id, _)| (*id, dot(&vals[id], &x.dist))).collect();
                let (best, worst) = act.iter().fold((f64::NEG_INFINITY, f64::INFINITY), |(b, l), e| (b.max(e.1), l.min(e.1)));
                let (pair, ahead) = (best - worst, x.edge - dot(&base, &x.dist));
                let tie = 1e-9;
                if pair <= ahead + tie { allowed.push(("line", toward, fwd, None)); }
                if pair >= ahead - tie {
                    for p in act.iter().filter(|e| e.1 >= best - tie) { for q in act.iter().filter(|e| e.1 <= worst + tie) {
                        let mut d = Weights::new();
                        *d.entry(p.0).or_insert(0.0) += 1.0;
                        *d.entry(q.0).or_insert(0.0) -= 1.0;
                        let dir = vals[&p.0].iter().zip(&vals[&q.0]).map(|(a, b)| a - b).collect();
                        allowed.push(("pairwise", d, Step { c: &c, eta, base: base.clone(), dir, max: get(&w, q.0) }, None));
                    } }
                }
            }
        }
        let now = smoothed(&margins(&v), c.p.nu, eta);
        if !mlp {
            let mut ok = None;
            let mut tried = vec![];
            for (name, d, st, want) in &allowed {
                let Some(s) = along(&w, &v, d) else { tried.push(format!("{name}: another direction")); continue };
                if match want { Some(e) => (s - e).abs() <= 1e-6, None => st.is_best(s) } { ok = Some((*name, s)); break; }
                tried.push(format!("{name}: step {s}, expected {}", want.unwrap_or_else(|| st.best())));
            }
            let Some((name, s)) = ok else {
                return viol(format!("step:{a}"), format!("{a} round {} (n={n}, nu={}, eta={eta}): the combination moved from {w:?} to {v:?} when hypothesis {} of edge {} arrived; {}", t + 1, c.p.nu, x.id, x.edge, tried.join("; ")));
            };
            if k != 0 { ensure!(now >= was - 1e-8, format!("worse:{a}"), "{a} round {}: the smoothed objective fell from {was} to {now}", t + 1); }
            cx.count(&format!("{name} steps"), 1);
            if s > 1e-6 && s < 1.0 - 1e-6 { cx.count("steps that stop inside", 1); }
            h = hash_f64s(h, &[s]);
        } else {
            let want = allowed.iter().map(|(_, _, st, e)| st.value(e.unwrap_or_else(|| st.best()))).fold(f64::INFINITY, f64::min);
            ensure!(now >= want - 1e-6, format!("primary:{a}"), "{a} round {} (n={n}, nu={}, eta={eta}): the new combination has smoothed objective {now}, the Frank-Wolfe step alone would reach {want}", t + 1, c.p.nu);
            if now <= want + 1e-9 { cx.count("rounds in which the Frank-Wolfe step won", 1); } else { cx.count("rounds in which the linear program won", 1); }
            h = hash_f64s(h, &[now]);
        }
        w = v;
    }
    if r.currents.len() >= 3 { cx.seen(h); }
    Ok(())
}
per_algo! { step_case, 0.0;
    f_c0 = Algo::Cerlp(0); f_c1 = Algo::Cerlp(1); f_c2 = Algo::Cerlp(2); f_c3 = Algo::Cerlp(3);
    f_m0 = Algo::Mlp(0); f_m1 = Algo::Mlp(1); f_m2 = Algo::Mlp(2); f_m3 = Algo::Mlp(3);
}
pub fn p31() -> Check {
    Check {
        id: "P31",
        rule: "a run counts when it took at least three rounds; distinct = distinct sequences of steps per algorithm",
        assumptions: &["two gaps, or two edges, closer than 1e-9 count as equal: either choice is accepted", "a line search may be off by 1e-6"],
        families: vec![
            fam("cerlp-classic", 100, 1500, f_c0), fam("cerlp-short", 150, 2000, f_c1), fam("cerlp-line", 200, 3000, f_c2), fam("cerlp-bp", 800, 9000, f_c3),
            fam("mlp-classic", 60, 800, f_m0), fam("mlp-short", 60, 800, f_m1), fam("mlp-line", 60, 800, f_m2), fam("mlp-bp", 60, 800, f_m3),
        ],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

// ---------------------------------------------------------------- P32

/// Largest and smallest value of the gap at which the run should (not) stop, in the rounds judged.
fn stop_case(cx: &mut Cx, algo: Algo, _s: f64) -> Res {
    let mut c = gen(cx, algo, 24)?;
    c.strat_kind = cx.rng.below(3);
    let nf = c.y.len() as f64;
    if algo != Algo::Total && cx.rng.bool(0.6) { c.p.nu = cx.rng.range(1.0, (nf * 0.7).max(1.5)); }
    if cx.rng.bool(0.5) { c.p.tol = 10f64.powf(cx.rng.range(-1.7, -0.05)); }
    let mut rng = cx.rng.fork();
    let strat = if rng.bool(0.6) { best_response(c.pool.clone(), &c.y) } else { crate::checks::boost::gen_strategy(&c, &mut rng, 0.02, 0.8) };
    let spy = Spy::new(&c.sample, 45, strat).min_edge(1e-9);
    let r = run(algo, &c.p, &c.sample, &spy, true)?;
    note(cx, &c, &r, String::new());
    let a = algo.name();
    let (n, nu, tol, eta) = (c.y.len(), c.p.nu, c.p.tol, eta_of(&c));
    let bound = budget(algo, n, &c.p).unwrap_or(usize::MAX);
    let vals: std::collections::HashMap<usize, Vec<f64>> = r.rounds.iter().map(|x| (x.id, x.margins.clone())).collect();
    let margins = |w: &[(usize, f64)]| -> Vec<f64> { let mut m = vec![0.0; n]; let s: f64 = w.iter().map(|x| x.1).sum(); for (id, x) in w { for i in 0..n { m[i] += x / s * vals[id][i]; } } m };
    let mut least = f64::INFINITY;
    let mut h = hash_str(&a);
    for t in 1..=r.rounds.len() {
        let last = t == r.rounds.len();
        let x = &r.rounds[t - 1];
        let past: Vec<Vec<f64>> = r.rounds[..t].iter().map(|x| x.margins.clone()).collect();
        // (gap, limit, precision with which the library can know the gap)
        let (gap, limit, tie) = match algo {
            Algo::Lp | Algo::Soft | Algo::Total => {
                least = least.min(x.edge);
                let Some((_, lo, hi)) = best_soft(&past, nu) else { return inconclusive("reference LP failed") };
                if hi - lo > 1e-6 { return inconclusive("reference LP imprecise"); }
                // the combination after this round
                let cur = if last && r.done() { Some(&r.vote) } else { r.currents.get(t - 1) };
                if let Some(cur) = cur {
                    let got = soft_margin(&margins(cur), nu);
                    cx.max("combination: shortfall from the LP", lo - got);
                    ensure!(got >= lo - 1e-6, format!("combination:{a}"), "{a} after round {t}: its combination has objective {got}, one of the {t} hypotheses so far reaches {lo} (nu={nu}, n={n})");
                    cx.count("combinations compared with the optimum", 1);
                }
                if algo == Algo::Lp { if let Some(nx) = r.rounds.get(t) {
                    let worst = past.iter().map(|m| dot(m, &nx.dist)).fold(f64::NEG_INFINITY, f64::max);
                    cx.max("weighting: excess over the LP", worst - hi);
                    ensure!(worst <= hi + 1e-6, format!("weighting:{a}"), "{a} round {}: under its weighting a past hypothesis has edge {worst}, a capped weighting keeps all of them to {hi} (nu={nu}, n={n}, {t} hypotheses)", t + 1);
                    cx.count("weightings compared with the optimum", 1);
                } }
                (least - lo, tol, if algo == Algo::Lp { 1e-6 } else { 1e-5 })
            }
            Algo::Erlp => {
                let reg = rel_entropy(&x.dist) / eta;
                least = least.min(x.edge + reg);
                if t >= 2 {
                    let Some((_, lo, _)) = best_soft(&past[..t - 1], nu) else { return inconclusive("reference LP failed") };
                    let got = soft_margin(&margins(&r.currents[t - 2]), nu);
                    let short = lo - got - (nf / nu).ln() / eta;
                    cx.max("combination: shortfall from the LP beyond the regularisation", short);
                    ensure!(short <= 2e-3, format!("combination:{a}"), "{a} after round {}: its combination has objective {got}, one of the hypotheses so far reaches {lo}; the regularisation accounts for {} (nu={nu}, n={n})", t - 1, (nf / nu).ln() / eta);
                    cx.count("combinations compared with the optimum", 1);
                }
                let star = if t == 1 { -1.0 } else { past[..t - 1].iter().map(|m| dot(m, &x.dist)).fold(f64::NEG_INFINITY, f64::max) + reg };
                (least - star, tol / 2.0, 1e-9)
            }
            Algo::Cerlp(_) => {
                if t == 1 { (f64::INFINITY, tol / 2.0, 1e-9) } else { (x.edge - r.currents[t - 2].iter().map(|(id, w)| w * dot(&vals[id], &x.dist)).sum::<f64>(), tol / 2.0, 1e-9) }
            }
            _ => {
                least = least.min(x.edge);
                if eta < 1e-3 { return Ok(()); }
                if t == 1 { (f64::INFINITY, tol / 2.0, 1e-9) } else { (least - smoothed(&margins(&r.currents[t - 2]), nu, eta), tol / 2.0, 1e-9) }
            }
        };
        h = hash_f64s(h, &[x.edge]);
        if !last {
            ensure!(gap >= limit - tie, format!("late:{a}"), "{a} went on after round {t} although its gap {gap} was within the {limit} at which it is to stop (tolerance {tol}, nu={nu}, n={n})");
            cx.count("rounds that had to go on", 1);
            cx.max("smallest excess of the gap over its limit (-log10)", -(gap - limit).max(1e-12).log10());
        } else if r.done() && t < bound {
            ensure!(gap <= limit + tie, format!("early:{a}"), "{a} stopped in round {t} of at most {bound} although its gap {gap} exceeds {limit} (tolerance {tol}, nu={nu}, n={n}, edges {:?})", r.rounds.iter().map(|x| x.edge).collect::<Vec<_>>());
            cx.count("stops that were due", 1);
        }
    }
    if r.rounds.len() >= 2 { cx.seen(h); }
    Ok(())
}
per_algo! { stop_case, 0.0;
    s_lp = Algo::Lp; s_erlp = Algo::Erlp; s_soft = Algo::Soft; s_total = Algo::Total;
    s_c0 = Algo::Cerlp(0); s_c1 = Algo::Cerlp(1); s_c2 = Algo::Cerlp(2); s_c3 = Algo::Cerlp(3);
    s_m0 = Algo::Mlp(0); s_m1 = Algo::Mlp(1); s_m2 = Algo::Mlp(2); s_m3 = Algo::Mlp(3);
}
pub fn p32() -> Check {
    Check {
        id: "P32",
        rule: "a run counts from the second round on; distinct = distinct sequences of edges per algorithm",
        assumptions: &["gaps within 1e-6 (SoftBoost, TotalBoost: 1e-5) of the limit may go either way", "runs are watched for 45 rounds"],
        families: vec![
            fam("lpboost", 200, 3000, s_lp), fam("erlpboost", 100, 1500, s_erlp), fam("softboost", 150, 2000, s_soft), fam("totalboost", 150, 2000, s_total),
            fam("cerlp-classic", 40, 600, s_c0), fam("cerlp-short", 40, 600, s_c1), fam("cerlp-line", 40, 600, s_c2), fam("cerlp-bp", 40, 600, s_c3),
            fam("mlp-classic", 40, 600, s_m0), fam("mlp-short", 40, 600, s_m1), fam("mlp-line", 40, 600, s_m2), fam("mlp-bp", 40, 600, s_m3),
        ],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
