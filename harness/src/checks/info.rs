//! P30: what boosters and weak learners say about themselves (`name`, `info`, `max_loop`, `terminated`).
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ops::ControlFlow;
use miniboosts::prelude::GBMLoss;
use miniboosts::research::ObjectiveFunction;
use miniboosts::prelude::LossFunction;
use miniboosts::*;
use crate::booster::*;
use crate::checks::tree::CRIT;
use crate::ctx::*;
use crate::data::*;
use crate::learn::*;
use crate::rng::hash_str;

type Info = BTreeMap<String, String>;
fn entries(i: Option<Vec<(&str, String)>>) -> Info { i.unwrap_or_default().into_iter().map(|(k, v)| (k.to_string(), v)).collect() }

struct Says { who: String, info: Info, when: &'static str }
impl Says {
    fn text(&self, key: &str) -> Res<&str> { match self.info.get(key) { Some(v) => Ok(v), None => viol("missing", format!("{} {} does not state {key:?} (it states {:?})", self.who, self.when, self.info)) } }
    fn is(&self, key: &str, want: &str) -> Res {
        let v = self.text(key)?;
        ensure!(v == want, format!("wrong:{key}"), "{} {} states {key}: {v}, set is {want}", self.who, self.when);
        Ok(())
    }
    fn num(&self, key: &str, want: f64) -> Res {
        let v = self.text(key)?;
        let ok = v.trim().parse::<f64>().is_ok_and(|x| (x - want).abs() <= 1e-9 * want.abs());
        ensure!(ok, format!("wrong:{key}"), "{} {} states {key}: {v}, it is {want}", self.who, self.when);
        Ok(())
    }
    fn count(&self, key: &str, lo: usize, hi: usize) -> Res {
        let v = self.text(key)?;
        let ok = v.trim().parse::<usize>().is_ok_and(|x| lo <= x && x <= hi);
        ensure!(ok, format!("wrong:{key}"), "{} {} states {key}: {v}, it is {lo}{}", self.who, self.when, if hi > lo { format!(" (or {hi})") } else { String::new() });
        Ok(())
    }
    /// "3.5 (  7.000 %)": the bound on the weights in units of 1/n, and in percent of the examples
    fn capping(&self, nu: f64, n: usize) -> Res {
        let v = self.text("Capping (outliers)")?;
        let part = v.split_once('(').and_then(|(a, b)| Some((a.trim(), b.trim().strip_suffix(')')?.trim().strip_suffix('%')?.trim())));
        let Some((a, b)) = part else { return viol("wrong:Capping (outliers)", format!("{} {} states the capping as {v:?}", self.who, self.when)) };
        let (num, unit) = match a.chars().last() { Some('K') => (&a[..a.len() - 1], 1e3), Some('M') => (&a[..a.len() - 1], 1e6), Some('G') => (&a[..a.len() - 1], 1e9), _ => (a, 1.0) };
        // (one decimal of a unit that fits: "0.3K" says too little)
        let slack = if unit > 1.0 { 0.0501 * nu.min(unit) } else { 1e-9 * nu };
        let ok = num.parse::<f64>().is_ok_and(|x| (x * unit - nu).abs() <= slack);
        ensure!(ok, "wrong:Capping (outliers)", "{} {} states the capping as {v:?}, nu is {nu}", self.who, self.when);
        let p = 100.0 * nu / n as f64;
        ensure!(b.parse::<f64>().is_ok_and(|x| (x - p).abs() <= 5.1e-4), "wrong:Capping (outliers)", "{} {} states the capping as {v:?}, nu = {nu} of {n} examples are {p} percent", self.who, self.when);
        Ok(())
    }
}

/// `after`: the run has begun, so that the iteration bound is known.
fn booster_says(s: &Says, a: Algo, p: &Params, n: usize, d: usize, after: bool) -> Res {
    s.count("# of examples", n, n)?;
    s.count("# of features", d, d)?;
    let free = Params { quit: None, ..p.clone() };
    let b = budget(a, n, &free);
    match a {
        Algo::Ada | Algo::AdaV | Algo::Mada => {
            s.num("Tolerance", p.tol)?;
            s.is("Force quit", &p.quit.map(|q| format!("At round {q}")).unwrap_or("-".into()))?;
            let b = b.unwrap();
            s.count("Max iteration", b - 1, b)?;
        }
        Algo::Smooth => {
            s.num("Tolerance (Kappa)", p.kappa)?;
            s.num("Gamma (WL guarantee)", p.gamma)?;
            if after { s.num("Theta", p.gamma / (2.0 + p.gamma))?; }
        }
        Algo::Lp => { s.num("Tolerance", p.tol)?; s.is("Max iteration", "-")?; s.capping(p.nu, n)?; }
        Algo::Erlp | Algo::Cerlp(_) | Algo::Mlp(_) | Algo::Soft => { s.num("Tolerance", p.tol)?; s.capping(p.nu, n)?; }
        Algo::Total => { s.num("Tolerance", p.tol)?; s.capping(1.0, n)?; }
    }
    if let Algo::Cerlp(k) = a { s.is("Frank-Wolfe", fw_text(k))?; }
    if let Algo::Mlp(k) = a { s.is("Primary", fw_text(k))?; s.is("Secondary", "LPBoost")?; }
    if after {
        if matches!(a, Algo::Soft | Algo::Total) { s.num("Tolerance (sub-problem)", p.tol / 10.0)?; }
        if !a.quits() { if let Some(b) = b { s.count("Max iteration", b.saturating_sub(1).max(1), b + 1)?; } }
    }
    Ok(())
}
fn fw_text(k: u8) -> &'static str { ["Classic FW", "Short-step FW", "Line-search FW", "Blended Pairwise (BP) FW"][k as usize % 4] }

/// The counters a kind of booster offers.
trait Counters { fn loops(&mut self) -> Option<usize> { None } fn ended(&self) -> Option<usize> { None } }
impl<F> Counters for AdaBoost<'_, F> { fn loops(&mut self) -> Option<usize> { Some(self.max_loop()) } }
impl<F> Counters for AdaBoostV<'_, F> { fn loops(&mut self) -> Option<usize> { Some(self.max_loop()) } }
impl<F> Counters for MadaBoost<'_, F> { fn loops(&mut self) -> Option<usize> { Some(self.max_loop()) } }
impl<F> Counters for SmoothBoost<'_, F> {}
impl<F> Counters for TotalBoost<'_, F> {}
impl<F> Counters for GraphSepBoost<'_, F> {}
impl<F: Classifier> Counters for SoftBoost<'_, F> { fn loops(&mut self) -> Option<usize> { Some(self.max_loop()) } }
impl<F: Classifier> Counters for CERLPBoost<'_, F> { fn loops(&mut self) -> Option<usize> { Some(self.max_loop()) } }
impl<F: Classifier> Counters for MLPBoost<'_, F> { fn loops(&mut self) -> Option<usize> { Some(self.max_loop()) } fn ended(&self) -> Option<usize> { Some(self.terminated()) } }
impl<F: Classifier> Counters for ERLPBoost<'_, F> { fn ended(&self) -> Option<usize> { Some(self.terminated()) } }
impl<F: Classifier> Counters for LPBoost<'_, F> { fn ended(&self) -> Option<usize> { Some(self.terminated()) } }

fn judge<B>(cx: &mut Cx, a: Algo, p: &Params, s: &Sample, spy: &Spy, mut b: B, names: (&str, bool)) -> Res
where B: Booster<TableH, Output = WeightedMajority<TableH>> + Counters {
    let (n, d) = s.shape();
    let who = a.name();
    macro_rules! says { ($when:expr, $after:expr) => {{ let x = Says { who: who.clone(), info: entries(lib("info", || b.info())?), when: $when }; booster_says(&x, a, p, n, d, $after)?; cx.count("descriptions compared", 1); x }}; }
    ensure!(b.name() == names.0, "name", "{who} is named {:?}", b.name());
    says!("before the run", false);
    let free = Params { quit: None, ..p.clone() };
    let bound = budget(a, n, &free);
    let check_loops = |b: &mut B, when: &str| -> Res {
        if let Some(l) = lib("max_loop", || b.loops())? {
            // rounding of the last digit, up or down
            let want = bound.unwrap();
            ensure!(l <= want + 1 && l + 1 >= want, "max-loop", "{who} {when}: max_loop() is {l}, the bound for n = {n}, {p:?} is {want}");
        }
        Ok(())
    };
    if !names.1 { check_loops(&mut b, "before the run")?; }
    if let Some(t) = b.ended() {
        let want = if a == Algo::Lp { usize::MAX } else { 0 };
        ensure!(t == want, "terminated-before", "{who}: terminated() is {t} before the run, documented {want}");
    }
    let whole = cx.rng.bool(0.5);
    let broke = Cell::new(None);
    let out = try_lib(|| {
        if whole { return b.run(spy); }
        b.preprocess(spy);
        for it in 1.. { if let ControlFlow::Break(k) = b.boost(spy, it) { broke.set(Some(k)); break; } }
        b.postprocess(spy)
    });
    let rounds = spy.take().len();
    match out { Ok(_) => {}, Err(LibErr::RoundCap(_)) => return inconclusive("the learner gave up"), Err(LibErr::Panic(_)) => return inconclusive("the run panicked (judged by other properties)") }
    let x = says!("after the run", true);
    check_loops(&mut b, "after the run")?;
    if let Some(v) = x.info.get("Max iteration").and_then(|v| v.trim().parse::<usize>().ok()) {
        let most = if a.quits() { p.quit.unwrap_or(v) } else { v };
        ensure!(rounds <= most, "more-rounds", "{who} states at most {most} iterations and made {rounds}");
    }
    if let Some(t) = b.ended() { ensure!(t == rounds, "terminated", "{who}: terminated() is {t} after a run of {rounds} rounds"); cx.count("terminated() compared", 1); }
    if let Some(k) = broke.get() { ensure!(k == rounds || k == rounds + 1, "break", "{who}: boost() breaks with {k} after {rounds} rounds"); cx.count("values of Break compared", 1); }
    // information given for the second run is that of the second run
    if cx.rng.bool(0.2) {
        let again = try_lib(|| b.run(spy));
        let rounds = spy.take().len();
        if again.is_ok() { if let Some(t) = b.ended() { ensure!(t == rounds, "terminated", "{who}: terminated() is {t} after a second run, of {rounds} rounds"); } }
        says!("after a second run", true);
    }
    cx.seen(hash_str(&format!("{who}{p:?}{n} {d}")));
    Ok(())
}

/// Setters in any order, some of them more than once: the last value counts.
macro_rules! setters {
    ($rng:expr, $b:expr, $($set:ident = $v:expr, $junk:expr);+) => {{
        let mut b = $b;
        let mut todo: Vec<(usize, bool)> = vec![];
        let mut k = 0usize;
        $( let _ = stringify!($set); if $rng.bool(0.25) { todo.push((k, true)); } k += 1; )+
        $rng.shuffle(&mut todo);
        let mut last: Vec<(usize, bool)> = (0..k).map(|i| (i, false)).collect();
        $rng.shuffle(&mut last);
        todo.extend(last);
        for (i, junk) in todo { let mut j = 0usize; $( if i == j { b = b.$set(if junk { $junk } else { $v }); } j += 1; )+ let _ = j; }
        b
    }};
}

fn booster_case(cx: &mut Cx) -> Res {
    let a = *cx.rng.pick(&Algo::all());
    let n = match cx.rng.below(12) { 0 => cx.rng.int(2, 4), 1 if !a.solver() => cx.rng.int(200, 3000), _ => gen_n(&mut cx.rng, 2, if a.solver() { 24 } else { 60 }) };
    let d = gen_d(&mut cx.rng, 5, 40);
    let data = gen_binary(&mut cx.rng, n, d, ALL_KINDS);
    let sparse = cx.rng.bool(0.2);
    let mut data = data;
    if sparse { data.no_zero_cols(&mut cx.rng); }
    let s = if sparse { data.sparse(cx)? } else { data.dense()? };
    let r = &mut cx.rng;
    let tol = if r.bool(0.5) { *r.pick(&[0.01, 0.05, 0.1, 0.25, 0.5, 0.9]) } else { r.range(0.03, 0.9) };
    let kappa = if r.bool(0.5) { *r.pick(&[0.1, 0.2, 0.5]) } else { r.range(0.05, 0.9) };
    let gamma = if r.bool(0.5) { *r.pick(&[0.1, 0.25, 0.4]) } else { r.range(0.05, 0.45) };
    let quit = if a.quits() && r.bool(0.7) { Some(r.int(1, 40)) } else { None };
    let p = Params { nu: gen_nu(r, n), tol, kappa, gamma, quit };
    cx.note(format!("{a:?} {p:?} n={n} d={d}"));
    let pool = gen_pool(&mut cx.rng, &data.y, 6, 1);
    let spy = Spy::new(&s, 150, best_response(pool, &data.y)).min_edge(1e-6);
    let q = quit.unwrap_or(7);
    let r = &mut cx.rng.fork();
    macro_rules! quits { ($b:expr) => { if quit.is_some() { setters!(r, $b, tolerance = p.tol, 0.3; force_quit_at = q, 3) } else { setters!(r, $b, tolerance = p.tol, 0.3) } }; }
    match a {
        Algo::Ada => { let b = quits!(AdaBoost::init(&s)); judge(cx, a, &p, &s, &spy, b, ("AdaBoost", false)) }
        Algo::AdaV => { let b = quits!(AdaBoostV::init(&s)); judge(cx, a, &p, &s, &spy, b, ("AdaBoostV", false)) }
        Algo::Mada => { let b = quits!(MadaBoost::init(&s)); judge(cx, a, &p, &s, &spy, b, ("MadaBoost", false)) }
        Algo::Smooth => { let b = setters!(r, SmoothBoost::init(&s), tolerance = p.kappa, 0.3; gamma = p.gamma, 0.2); judge(cx, a, &p, &s, &spy, b, ("SmoothBoost", true)) }
        Algo::Lp => { let b = setters!(r, LPBoost::init(&s), tolerance = p.tol, 0.3; nu = p.nu, 1.5); judge(cx, a, &p, &s, &spy, b, ("LPBoost", true)) }
        Algo::Erlp => { let b = setters!(r, ERLPBoost::init(&s), tolerance = p.tol, 0.3; nu = p.nu, 1.5); judge(cx, a, &p, &s, &spy, b, ("ERLPBoost", true)) }
        Algo::Cerlp(k) => { let b = setters!(r, CERLPBoost::init(&s), tolerance = p.tol, 0.3; nu = p.nu, 1.5; fw_type = fw(k), fw(k + 1)); judge(cx, a, &p, &s, &spy, b, ("Corrective ERLPBoost", false)) }
        Algo::Mlp(k) => { let b = setters!(r, MLPBoost::init(&s), tolerance = p.tol, 0.3; nu = p.nu, 1.5; frank_wolfe = fw(k), fw(k + 1)); judge(cx, a, &p, &s, &spy, b, ("MLPBoost", false)) }
        Algo::Soft => { let b = setters!(r, SoftBoost::init(&s), tolerance = p.tol, 0.3; nu = p.nu, 1.5); judge(cx, a, &p, &s, &spy, b, ("SoftBoost", false)) }
        Algo::Total => { let b = setters!(r, TotalBoost::init(&s), tolerance = p.tol, 0.3); judge(cx, a, &p, &s, &spy, b, ("TotalBoost", true)) }
    }
}

/// GBM and graph separation.
fn other_case(cx: &mut Cx) -> Res {
    let n = gen_n_wide(&mut cx.rng, 2, 40, 300);
    let d = gen_d(&mut cx.rng, 5, 40);
    let data = gen_binary(&mut cx.rng, n, d, &[0, 1, 3, 4]);
    let s = data.dense()?;
    if cx.rng.bool(0.3) {
        let b: GraphSepBoost<'_, TableH> = GraphSepBoost::init(&s);
        ensure!(b.name() == "Graph Separation Boosting", "name", "GraphSepBoost is named {:?}", b.name());
        let x = Says { who: "GraphSepBoost".into(), info: entries(b.info()), when: "before the run" };
        x.count("# of examples", n, n)?; x.count("# of features", d, d)?;
        cx.count("descriptions compared", 1);
        return Ok(());
    }
    let l = *cx.rng.pick(&[GBMLoss::L1, GBMLoss::L2]);
    let tol = if cx.rng.bool(0.5) { 0.1 } else { cx.rng.range(1e-3, 0.9) };
    let mut b = if cx.rng.bool(0.5) { GBM::init_with_loss(&s, l).tolerance(tol) } else { GBM::init_with_loss(&s, if cx.rng.bool(0.5) { GBMLoss::L1 } else { GBMLoss::L2 }).tolerance(0.7).loss(l).tolerance(tol) };
    cx.note(format!("GBM {} tolerance {tol} n={n} d={d}", l.name()));
    struct Tenth<'a> { calls: Cell<usize>, y: &'a [f64] }
    impl WeakLearner for Tenth<'_> {
        type Hypothesis = TableR;
        fn produce(&self, _: &Sample, p: &[f64]) -> TableR {
            let k = self.calls.get();
            self.calls.set(k + 1);
            if k >= 400 { std::panic::panic_any(RoundCap(400)); }
            // always a part of what is missing, of one example more than the others
            TableR { id: k, vals: std::sync::Arc::new((0..p.len()).map(|i| (self.y[i] - p[i]) * if i == k % p.len() { 0.5 } else { 0.1 }).collect()) }
        }
    }
    let w = Tenth { calls: Cell::new(0), y: &data.y };
    for when in ["before the run", "after the run"] {
        let x = Says { who: "GBM".into(), info: entries(lib("info", || b.info())?), when };
        x.count("# of examples", n, n)?; x.count("# of features", d, d)?; x.num("Tolerance", tol)?; x.is("Loss", if matches!(l, GBMLoss::L1) { "L1 loss" } else { "L2 loss" })?; x.count("Max iteration", 100, 100)?;
        let m = lib("GBM::max_loop", || b.max_loop())?;
        ensure!(m == 100, "max-loop", "GBM {when}: max_loop() is {m} (n = {n}, tolerance {tol}), documented and stated is 100");
        cx.count("descriptions compared", 1);
        if when == "before the run" {
            match try_lib(|| b.run(&w)) { Ok(_) => {}, Err(_) => return inconclusive("the run of GBM panicked or did not end (judged by other properties)") }
            let k = w.calls.get();
            ensure!(k <= 100, "more-rounds", "GBM states at most 100 iterations and made {k}");
        }
    }
    cx.seen(hash_str(&format!("GBM{tol}{n} {d}")));
    Ok(())
}

fn learner_case(cx: &mut Cx) -> Res {
    let n = gen_n_wide(&mut cx.rng, 2, 60, 600);
    let d = gen_d(&mut cx.rng, 6, 50);
    let r = &mut cx.rng;
    let mut data = gen_binary(r, n, d, &[0]);
    data.names = gen_names(r, d);
    let s = data.dense()?;
    let r = &mut cx.rng;
    match r.below(4) {
        0 | 1 => {
            let reg = r.bool(0.5);
            let depth = if r.bool(0.2) { None } else { Some(r.int(1, 40)) };
            let crit = if r.bool(0.2) { None } else { Some(*r.pick(&CRIT)) };
            let lam = if r.bool(0.2) { None } else { Some(*r.pick(&[0.0, 1e-3, 0.5, 12.0])) };
            let l = *r.pick(&[GBMLoss::L1, GBMLoss::L2]);
            let nb: Vec<Option<usize>> = (0..d).map(|_| if r.bool(0.4) { Some(r.int(1, 300)) } else { None }).collect();
            let most = nb.iter().zip(&data.cols).map(|(k, c)| k.unwrap_or_else(|| { let mut v = c.clone(); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v.dedup(); v.len().min(255) })).max().unwrap();
            cx.note(format!("depth {depth:?} {crit:?} lambda {lam:?} bins {nb:?} n={n} d={d}"));
            let bins: Vec<usize> = nb.iter().zip(&data.cols).map(|(k, c)| k.unwrap_or_else(|| { let mut v = c.clone(); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v.dedup(); v.len().min(255) })).collect();
            let (name, info, shown) = lib("building a tree learner", || if reg {
                let mut b = RegressionTreeBuilder::new(&s).loss(l);
                if let Some(k) = depth { b = b.max_depth(k); }
                if let Some(k) = lam { b = b.lambda_l2(k); }
                for (n, k) in data.names.iter().zip(&nb) { if let Some(k) = k { b.set_nbins(n, *k); } }
                let t = b.build();
                (t.name().to_string(), entries(t.info()), t.to_string())
            } else {
                let mut b = DecisionTreeBuilder::new(&s);
                if let Some(k) = depth { b = b.max_depth(k); }
                if let Some(c) = crit { b = b.criterion(c); }
                for (n, k) in data.names.iter().zip(&nb) { if let Some(k) = k { b.set_nbins(n, *k); } }
                let t = b.build();
                (t.name().to_string(), entries(t.info()), t.to_string())
            })?;
            ensure!(name == if reg { "Regression Tree" } else { "Decision Tree" }, "name", "a tree learner is named {name:?}");
            let x = Says { who: name.clone(), info, when: "" };
            x.count("Max depth", depth.unwrap_or(2), depth.unwrap_or(2))?;
            x.count("# of bins (max)", most, most)?;
            if reg { x.is("Split criterion", l.name())?; x.num("Regularization param.", lam.unwrap_or(0.01))?; } else { x.is("Split criterion", match crit { Some(Criterion::Edge) => "Edge (Weighted accuracy)", Some(Criterion::Gini) => "Gini index", Some(Criterion::Twoing) => "Twoing Rule", _ => "Entropy" })?; }
            // the same, as it is printed
            let value = |k: &str| shown.lines().find_map(|l| l.strip_prefix(k)).map(|v| v.trim().to_string());
            let want = depth.unwrap_or(2);
            ensure!(value("- Max depth:").is_some_and(|v| v.parse() == Ok(want)), "shown-depth", "{name} of depth {want} is printed as:\n{shown}");
            let rule = if reg { "- Loss function:" } else { "- Splitting criterion:" };
            let stated = x.text("Split criterion")?;
            ensure!(value(rule).as_deref() == Some(stated), "shown-criterion", "{name} with {stated} is printed as:\n{shown}");
            let listed: Vec<&str> = shown.lines().filter_map(|l| l.trim_start().strip_prefix("* [")).collect();
            ensure!(listed.len() == d, "shown-features", "{name} on {d} features prints {} of them:\n{shown}", listed.len());
            for (f, k) in data.names.iter().zip(&bins) {
                let mut of = listed.iter().filter_map(|l| l.strip_prefix(f.as_str())?.trim_start().strip_prefix("| ")?.trim_start().split_once(" bins]"));
                ensure!(of.any(|(c, _)| c.parse() == Ok(*k)), "shown-bins", "{name} cuts {f:?} into {k} bins and prints:\n{shown}");
            }
            cx.seen(hash_str(&format!("{reg}{depth:?}{crit:?}{lam:?}{nb:?}")));
        }
        2 => {
            let mut nn = NeuralNetwork::init(&s);
            let mut batch = 128; while batch > n { batch /= 2; }
            let (mut epochs, mut rounds) = (100, 200);
            let mut layers = 0;
            for _ in 0..r.int(0, 9) {
                nn = match r.below(4) {
                    0 => { epochs = r.int(1, 50); nn.n_epoch(epochs) }
                    1 => { rounds = r.int(1, 50); nn.n_iter(rounds) }
                    2 => { batch = r.int(1, n); nn.minibatch_size(batch) }
                    _ => { layers += 1; nn.append(r.int(1, 9), Activation::Sigmoid(1.0)) }
                };
            }
            ensure!(nn.name() == "Neural Network", "name", "a neural network is named {:?}", nn.name());
            let x = Says { who: "Neural network".into(), info: entries(lib("info", || nn.info())?), when: "" };
            x.is("Task", "Binary C.")?; x.count("Mini-batch size", batch, batch)?; x.count("Rounds per epoch", rounds, rounds)?; x.num("Learning rate", 1e-3)?; x.count("# of epochs", epochs, epochs)?; x.count("# of layers", layers, layers)?;
            cx.seen(hash_str(&format!("{:?}", x.info)));
        }
        _ => {
            let g = GaussianNB::init();
            ensure!(g.name() == "Gaussian Naive Bayes", "name", "naive Bayes is named {:?}", g.name());
            let o = [("Soft-margin objective", ObjectiveFunction::<WeightedMajority<TableH>>::name(&SoftMarginObjective::new(1.0)).to_string()), ("Hard-margin objective", ObjectiveFunction::<WeightedMajority<TableH>>::name(&HardMarginObjective::new()).to_string()), ("Exponential Loss", ObjectiveFunction::<WeightedMajority<TableH>>::name(&ExponentialLoss::new()).to_string())];
            for (want, got) in o { ensure!(want == got, "name", "the {want} is named {got:?}"); }
        }
    }
    cx.count("descriptions compared", 1);
    Ok(())
}

/// Boosters and learners as they come: the documented defaults.
fn default_case(cx: &mut Cx) -> Res {
    let n = gen_n_wide(&mut cx.rng, 2, 60, 2000);
    let data = gen_binary(&mut cx.rng, n, 2, &[0]);
    let s = data.dense()?;
    let pool = gen_pool(&mut cx.rng, &data.y, 2, 0);
    let spy = Spy::new(&s, 1, best_response(pool, &data.y));
    macro_rules! look { ($t:ident) => {{ let b: $t<'_, TableH> = $t::init(&s); let _ = &spy; (stringify!($t), entries(b.info())) }}; }
    let uni = 1.0 / n as f64;
    let (who, info) = match cx.rng.below(10) { 0 => look!(AdaBoost), 1 => look!(AdaBoostV), 2 => look!(MadaBoost), 3 => look!(LPBoost), 4 => look!(ERLPBoost), 5 => look!(CERLPBoost), 6 => look!(MLPBoost), 7 => look!(SoftBoost), 8 => look!(TotalBoost), _ => look!(GraphSepBoost) };
    let x = Says { who: who.into(), info, when: "as it comes" };
    x.count("# of examples", n, n)?;
    match who {
        "AdaBoost" | "AdaBoostV" | "MadaBoost" => x.is("Force quit", "-")?,
        "LPBoost" | "SoftBoost" | "TotalBoost" => { x.num("Tolerance", uni)?; x.capping(1.0, n)?; }
        "ERLPBoost" | "CERLPBoost" | "MLPBoost" => { x.num("Tolerance", 0.01)?; x.capping(1.0, n)?; }
        _ => {}
    }
    if who == "CERLPBoost" { x.is("Frank-Wolfe", "Short-step FW")?; }
    if who == "MLPBoost" { x.is("Primary", "Short-step FW")?; }
    cx.count("descriptions compared", 1);
    cx.seen(hash_str(&format!("{who}{n}")));
    Ok(())
}

/// Samples of up to millions of examples, of which only the numbers matter.
fn large_case(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let n = (10f64.powf(if r.bool(0.3) { r.range(5.9, 6.4) } else { r.range(2.0, 5.8) })) as usize;
    let nu = match r.below(4) { 0 => 1.0, 1 => n as f64, 2 => *r.pick(&[999.0, 1000.0, 1001.0, 999_999.0, 1e6]), _ => (n as f64).powf(r.range(0.0, 1.0)) }.clamp(1.0, n as f64);
    let tol = r.range(0.05, 0.5);
    let s = Sample::dummy(n);
    macro_rules! look { ($t:ident, $a:expr) => {{ let b: $t<'_, TableH> = $t::init(&s).tolerance(tol).nu(nu); ($a, entries(lib("info", || b.info())?)) }}; }
    let (a, info) = match r.below(5) { 0 => look!(LPBoost, Algo::Lp), 1 => look!(ERLPBoost, Algo::Erlp), 2 => look!(CERLPBoost, Algo::Cerlp(1)), 3 => look!(MLPBoost, Algo::Mlp(1)), _ => look!(SoftBoost, Algo::Soft) };
    cx.note(format!("{} on {n} examples, nu {nu}", a.name()));
    let x = Says { who: a.name(), info, when: "before the run" };
    x.count("# of examples", n, n)?;
    x.num("Tolerance", tol)?;
    x.capping(nu, n)?;
    cx.count("descriptions compared", 1);
    cx.seen(hash_str(&format!("{}{n} {nu}", a.name())));
    Ok(())
}

pub fn p30() -> Check {
    Check {
        id: "P30",
        rule: "a description counts when the parameters it states were set or derived; distinct = distinct kinds with distinct parameters",
        assumptions: &["the documented bound on the number of rounds may be rounded up or down", "runs in which the learner gives up are not judged"],
        families: vec![fam("booster", 1200, 20000, booster_case), fam("gbm-graph", 300, 5000, other_case), fam("learner", 800, 12000, learner_case), fam("defaults", 300, 5000, default_case), fam("large", 40, 400, large_case)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
