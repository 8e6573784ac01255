//! Runs any vote-producing booster against a recording learner and returns what was observed.
use std::ops::ControlFlow;
use miniboosts::research::Research;
use miniboosts::*;
use crate::ctx::*;
use crate::data::Data;
use crate::learn::*;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Algo { Ada, AdaV, Mada, Smooth, Lp, Erlp, Cerlp(u8), Mlp(u8), Soft, Total }
impl Algo {
    pub fn name(self) -> String {
        match self { Algo::Cerlp(k) => format!("C-ERLPBoost/{}", fw_name(k)), Algo::Mlp(k) => format!("MLPBoost/{}", fw_name(k)), a => format!("{a:?}Boost") }
    }
    pub fn solver(self) -> bool { matches!(self, Algo::Lp | Algo::Erlp | Algo::Mlp(_) | Algo::Soft | Algo::Total) }
    pub fn capped(self) -> bool { matches!(self, Algo::Lp | Algo::Erlp | Algo::Cerlp(_) | Algo::Mlp(_) | Algo::Soft) }
    pub fn quits(self) -> bool { matches!(self, Algo::Ada | Algo::AdaV | Algo::Mada) }
    /// does it decide to stop by itself against a best-response learner before the budget
    pub fn all() -> Vec<Algo> {
        let mut v = vec![Algo::Ada, Algo::AdaV, Algo::Mada, Algo::Smooth, Algo::Lp, Algo::Erlp, Algo::Soft, Algo::Total];
        for k in 0..4 { v.push(Algo::Cerlp(k)); v.push(Algo::Mlp(k)); }
        v
    }
}
pub fn fw_name(k: u8) -> &'static str { ["Classic", "ShortStep", "LineSearch", "BlendedPairwise"][k as usize % 4] }
pub fn fw(k: u8) -> FWType { match k % 4 { 0 => FWType::Classic, 1 => FWType::ShortStep, 2 => FWType::LineSearch, _ => FWType::BlendedPairwise } }

#[derive(Clone, Debug)]
pub struct Params { pub nu: f64, pub tol: f64, pub kappa: f64, pub gamma: f64, pub quit: Option<usize> }
impl Default for Params { fn default() -> Self { Params { nu: 1.0, tol: 0.1, kappa: 0.2, gamma: 0.1, quit: None } } }

/// Documented bound on the number of rounds (None: no bound is documented).
pub fn budget(a: Algo, n: usize, p: &Params) -> Option<usize> {
    let nf = n as f64;
    if a.quits() { if let Some(q) = p.quit { return Some(q); } }
    let h = p.tol / 2.0;
    let b = match a {
        Algo::Ada => nf.ln() / p.tol.powi(2),
        Algo::AdaV => 2.0 * nf.ln() / p.tol.powi(2),
        Algo::Mada => (nf - 1.0) / p.tol.powi(2),
        Algo::Smooth => 2.0 / (p.kappa * p.gamma.powi(2) * (1.0 - p.gamma).sqrt()),
        Algo::Lp => return None,
        Algo::Erlp => (4.0 / h).max(8.0 * (nf / p.nu).ln() / (h * h)),
        Algo::Cerlp(_) | Algo::Mlp(_) => 8.0 * (nf / p.nu).ln() / (h * h),
        Algo::Soft => 2.0 * (nf / p.nu).ln() / p.tol.powi(2),
        Algo::Total => 2.0 * nf.ln() / p.tol.powi(2),
    };
    Some((b.ceil() as usize).max(1))
}

/// Evaluates an expression with `$b` bound to a constructor of boosters of the given kind.
#[macro_export]
macro_rules! with_booster {
    ($a:expr, $p:expr, $sample:expr, |$b:ident| $body:expr) => {{
        use miniboosts::*;
        use $crate::booster::{fw, Algo};
        let (p, sample) = ($p, $sample);
        let q = p.quit.unwrap_or(usize::MAX);
        // setters in one order or the other
        let o = (p.tol.to_bits() ^ p.nu.to_bits() ^ p.kappa.to_bits() ^ p.gamma.to_bits() ^ q as u64).count_ones() % 2 == 0;
        match $a {
            Algo::Ada => { let $b = || if o { AdaBoost::init(sample).tolerance(p.tol).force_quit_at(q) } else { AdaBoost::init(sample).force_quit_at(q).tolerance(p.tol) }; $body }
            Algo::AdaV => { let $b = || if o { AdaBoostV::init(sample).tolerance(p.tol).force_quit_at(q) } else { AdaBoostV::init(sample).force_quit_at(q).tolerance(p.tol) }; $body }
            Algo::Mada => { let $b = || if o { MadaBoost::init(sample).tolerance(p.tol).force_quit_at(q) } else { MadaBoost::init(sample).force_quit_at(q).tolerance(p.tol) }; $body }
            Algo::Smooth => { let $b = || if o { SmoothBoost::init(sample).tolerance(p.kappa).gamma(p.gamma) } else { SmoothBoost::init(sample).gamma(p.gamma).tolerance(p.kappa) }; $body }
            Algo::Lp => { let $b = || if o { LPBoost::init(sample).tolerance(p.tol).nu(p.nu) } else { LPBoost::init(sample).nu(p.nu).tolerance(p.tol) }; $body }
            Algo::Erlp => { let $b = || if o { ERLPBoost::init(sample).tolerance(p.tol).nu(p.nu) } else { ERLPBoost::init(sample).nu(p.nu).tolerance(p.tol) }; $body }
            Algo::Cerlp(k) => { let $b = || if o { CERLPBoost::init(sample).fw_type(fw(k)).tolerance(p.tol).nu(p.nu) } else { CERLPBoost::init(sample).nu(p.nu).tolerance(p.tol).fw_type(fw(k)) }; $body }
            Algo::Mlp(k) => { let $b = || if o { MLPBoost::init(sample).frank_wolfe(fw(k)).tolerance(p.tol).nu(p.nu) } else { MLPBoost::init(sample).nu(p.nu).tolerance(p.tol).frank_wolfe(fw(k)) }; $body }
            Algo::Soft => { let $b = || if o { SoftBoost::init(sample).tolerance(p.tol).nu(p.nu) } else { SoftBoost::init(sample).nu(p.nu).tolerance(p.tol) }; $body }
            Algo::Total => { let $b = || TotalBoost::init(sample).tolerance(p.tol); $body }
        }
    }};
}

pub enum Ended { Done, Cut(String) }

pub struct Run {
    pub rounds: Vec<Round>,
    pub ended: Ended,
    /// (hypothesis id, weight) of the returned vote
    pub vote: Vec<(usize, f64)>,
    pub vote_vals: Vec<std::sync::Arc<Vec<f64>>>,
    pub conf: Vec<f64>,
    pub pred: Vec<i64>,
    /// current_hypothesis() after every completed round that went on (stepwise mode only)
    pub currents: Vec<Vec<(usize, f64)>>,
    pub max_calls_per_step: usize,
    pub bad_sample: bool,
    pub bad_len: bool,
}
impl Run {
    pub fn done(&self) -> bool { matches!(self.ended, Ended::Done) }
    pub fn vote_of(&self, id: usize) -> f64 { self.vote.iter().filter(|v| v.0 == id).map(|v| v.1).sum() }
}

fn drive<B>(b: &mut B, spy: &Spy, step: bool, run: &mut Run, sample: &Sample) -> Result<(), LibErr>
where B: Booster<TableH, Output = WeightedMajority<TableH>> + Research<Output = WeightedMajority<TableH>> {
    let out = try_lib(|| {
        if !step { return b.run(spy); }
        b.preprocess(spy);
        for it in 1.. {
            let before = spy.rounds.borrow().len();
            let r = b.boost(spy, it);
            let calls = spy.rounds.borrow().len() - before;
            run.max_calls_per_step = run.max_calls_per_step.max(calls);
            if let ControlFlow::Break(_) = r { break; }
            let c = b.current_hypothesis();
            run.currents.push(c.hypotheses.iter().map(|h| h.id).zip(c.weights.iter().copied()).collect());
        }
        b.postprocess(spy)
    })?;
    run.vote = out.hypotheses.iter().map(|h| h.id).zip(out.weights.iter().copied()).collect();
    if out.hypotheses.len() != out.weights.len() { run.vote.clear(); }
    run.vote_vals = out.hypotheses.iter().map(|h| h.vals.clone()).collect();
    run.conf = try_lib(|| out.confidence_all(sample))?;
    run.pred = try_lib(|| out.predict_all(sample))?;
    Ok(())
}

/// Runs `a`. A library panic is a violation; leaving through the learner's guard rails is not.
pub fn run(a: Algo, p: &Params, sample: &Sample, spy: &Spy, step: bool) -> Res<Run> {
    let mut r = Run { rounds: vec![], ended: Ended::Done, vote: vec![], vote_vals: vec![], conf: vec![], pred: vec![], currents: vec![], max_calls_per_step: 0, bad_sample: false, bad_len: false };
    macro_rules! quit { ($b:expr) => {{ let mut b = $b; if let Some(q) = p.quit { b = b.force_quit_at(q); } b }}; }
    // parameter setters are called in either order: the result must not depend on it
    let flip = (p.nu.to_bits() ^ p.tol.to_bits()).count_ones() % 2 == 0;
    macro_rules! nutol { ($b:expr) => {{ let b = $b; if flip { b.nu(p.nu).tolerance(p.tol) } else { b.tolerance(p.tol).nu(p.nu) } }}; }
    let e = match a {
        Algo::Ada => drive(&mut quit!(AdaBoost::init(sample).tolerance(p.tol)), spy, step, &mut r, sample),
        Algo::AdaV => drive(&mut quit!(AdaBoostV::init(sample).tolerance(p.tol)), spy, step, &mut r, sample),
        Algo::Mada => drive(&mut quit!(MadaBoost::init(sample).tolerance(p.tol)), spy, step, &mut r, sample),
        Algo::Smooth => drive(&mut SmoothBoost::init(sample).tolerance(p.kappa).gamma(p.gamma), spy, step, &mut r, sample),
        Algo::Lp => drive(&mut nutol!(LPBoost::init(sample)), spy, step, &mut r, sample),
        Algo::Erlp => drive(&mut nutol!(ERLPBoost::init(sample)), spy, step, &mut r, sample),
        // (C-ERLPBoost has two names for the strategy's setter)
        Algo::Cerlp(k) => drive(&mut nutol!(if flip { CERLPBoost::init(sample).fw_type(fw(k)) } else { CERLPBoost::init(sample).fw_type(fw(k + 1)).variant(fw(k)) }), spy, step, &mut r, sample),
        Algo::Mlp(k) => drive(&mut nutol!(MLPBoost::init(sample).frank_wolfe(fw(k))), spy, step, &mut r, sample),
        Algo::Soft => drive(&mut nutol!(SoftBoost::init(sample)), spy, step, &mut r, sample),
        Algo::Total => drive(&mut TotalBoost::init(sample).tolerance(p.tol), spy, step, &mut r, sample),
    };
    r.rounds = spy.take();
    r.bad_sample = spy.bad_sample.get();
    r.bad_len = spy.bad_len.get();
    match e {
        Ok(()) => {}
        Err(LibErr::RoundCap(n)) => r.ended = Ended::Cut(format!("learner guard ({n})")),
        Err(LibErr::Panic(m)) => {
            if !r.bad_len {
                return viol(format!("panic:{}", a.name()), format!("{} panicked in round {} on valid input ({p:?}, n={}, edges so far {:?}): {m}", a.name(), r.rounds.len(), sample.shape().0, r.rounds.iter().map(|x| x.edge).take(12).collect::<Vec<_>>()));
            }
            r.ended = Ended::Cut("panic after a malformed weighting".into());
        }
    }
    Ok(r)
}

/// A small valid training sample: labels matter, features do not.
pub fn toy_sample(rng: &mut Rng, lo: usize, hi: usize) -> Res<(Sample, Vec<f64>)> {
    let n = crate::data::gen_n(rng, lo, hi);
    let col: Vec<f64> = (0..n).map(|i| i as f64).collect();
    let y = crate::data::gen_labels(rng, &[col.clone()], n);
    let d = Data { cols: vec![col], y: y.clone(), names: vec!["x".into()] };
    Ok((d.dense()?, y))
}

pub fn gen_nu(rng: &mut Rng, n: usize) -> f64 {
    let nf = n as f64;
    match rng.below(8) { 0 => 1.0, 1 => nf, 2 => rng.int(1, n) as f64, 3 => (0.1 * nf).max(1.0), 4 => rng.range(1.0, 2.0_f64.min(nf)), 5 => nf - 0.5f64.min(nf - 1.0), _ => rng.range(1.0, nf) }
}
