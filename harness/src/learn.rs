//! Recording weak learners and table-driven hypotheses. Events are recorded at the
//! boundary between booster and weak learner: (weights handed out, hypothesis returned).
use std::cell::{Cell, RefCell};
use std::sync::Arc;
use miniboosts::{Classifier, Regressor, Sample, WeakLearner};
use serde::{Deserialize, Serialize};
use crate::ctx::RoundCap;
use crate::rng::Rng;

/// A hypothesis given by its value on every row.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TableH { pub id: usize, pub vals: Arc<Vec<f64>> }
impl PartialEq for TableH { fn eq(&self, o: &Self) -> bool { self.id == o.id } }
impl Classifier for TableH { fn confidence(&self, _: &Sample, row: usize) -> f64 { self.vals[row] } }

/// Same, as a regressor.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TableR { pub id: usize, pub vals: Arc<Vec<f64>> }
impl Regressor for TableR { fn predict(&self, _: &Sample, row: usize) -> f64 { self.vals[row] } }

#[derive(Clone, Debug)]
pub struct Round { pub dist: Vec<f64>, pub margins: Vec<f64>, pub edge: f64, pub id: usize }

/// Chooses a hypothesis (id, values) for the given weights; `round` counts from 1.
pub type Strategy<'a> = Box<dyn FnMut(usize, &[f64]) -> (usize, Arc<Vec<f64>>) + 'a>;

pub struct Spy<'a> {
    pub y: Vec<f64>,
    pub sample_ptr: *const Sample,
    pub cap: usize,
    pub rounds: RefCell<Vec<Round>>,
    pub bad_sample: Cell<bool>,
    pub bad_len: Cell<bool>,
    /// leave the run when no hypothesis with edge above this exists
    pub min_edge: f64,
    strat: RefCell<Strategy<'a>>,
}
impl<'a> Spy<'a> {
    pub fn new(sample: &Sample, cap: usize, strat: Strategy<'a>) -> Self {
        Self { y: sample.target().to_vec(), sample_ptr: sample, cap, rounds: RefCell::new(vec![]), bad_sample: Cell::new(false), bad_len: Cell::new(false), min_edge: f64::NEG_INFINITY, strat: RefCell::new(strat) }
    }
    pub fn min_edge(mut self, e: f64) -> Self { self.min_edge = e; self }
    pub fn take(&self) -> Vec<Round> { self.rounds.take() }
}
impl WeakLearner for Spy<'_> {
    type Hypothesis = TableH;
    fn name(&self) -> &str { "recording pool learner" }
    fn produce(&self, sample: &Sample, dist: &[f64]) -> TableH {
        if !std::ptr::eq(sample, self.sample_ptr) { self.bad_sample.set(true); }
        let t = self.rounds.borrow().len() + 1;
        if t > self.cap { std::panic::panic_any(RoundCap(self.cap)); }
        let n = self.y.len();
        if dist.len() != n { self.bad_len.set(true); }
        let mut d = dist.to_vec();
        d.resize(n, 0.0);
        let (id, vals) = (self.strat.borrow_mut())(t, &d);
        let margins: Vec<f64> = vals.iter().zip(&self.y).map(|(h, y)| h * y).collect();
        let edge = dot(&margins, &d);
        self.rounds.borrow_mut().push(Round { dist: dist.to_vec(), margins, edge, id });
        if edge <= self.min_edge || edge.is_nan() { std::panic::panic_any(RoundCap(0)); }
        TableH { id, vals }
    }
}

/// Wraps a real learner and records what it saw and returned.
pub struct Rec<'w, W: WeakLearner> {
    pub inner: &'w W, pub cap: usize,
    pub rounds: RefCell<Vec<Round>>,
    pub hyps: RefCell<Vec<W::Hypothesis>>,
    pub bad_sample: Cell<bool>,
    pub sample_ptr: *const Sample,
}
impl<'w, W: WeakLearner> Rec<'w, W> {
    pub fn new(sample: &Sample, inner: &'w W, cap: usize) -> Self {
        Self { inner, cap, rounds: Default::default(), hyps: Default::default(), bad_sample: Cell::new(false), sample_ptr: sample }
    }
}
impl<W> WeakLearner for Rec<'_, W> where W: WeakLearner, W::Hypothesis: Classifier + Clone {
    type Hypothesis = W::Hypothesis;
    fn name(&self) -> &str { self.inner.name() }
    fn info(&self) -> Option<Vec<(&str, String)>> { self.inner.info() }
    fn produce(&self, sample: &Sample, dist: &[f64]) -> W::Hypothesis {
        if !std::ptr::eq(sample, self.sample_ptr) { self.bad_sample.set(true); }
        let t = self.rounds.borrow().len();
        if t >= self.cap { std::panic::panic_any(RoundCap(self.cap)); }
        let h = self.inner.produce(sample, dist);
        let margins: Vec<f64> = sample.target().iter().enumerate().map(|(i, y)| y * h.confidence(sample, i)).collect();
        let edge = dot(&margins, dist);
        self.rounds.borrow_mut().push(Round { dist: dist.to_vec(), margins, edge, id: t });
        self.hyps.borrow_mut().push(h.clone());
        h
    }
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| x * y).sum() }

pub type Pool = Vec<Arc<Vec<f64>>>;

pub fn margins_of(vals: &[f64], y: &[f64]) -> Vec<f64> { vals.iter().zip(y).map(|(h, y)| h * y).collect() }

/// Random pool of `k` hypotheses over labels `y`. `kind`: 0 noisy copies of the label, 1 random signs closed under
/// negation, 2 confidence-rated, 3 stump-like thresholds of random scores (closed under negation).
pub fn gen_pool(rng: &mut Rng, y: &[f64], k: usize, kind: usize) -> Pool {
    let n = y.len();
    let mut pool: Pool = vec![];
    match kind {
        0 => for _ in 0..k { let p = rng.range(0.05, 0.45); pool.push(Arc::new(y.iter().map(|&v| if rng.bool(p) { -v } else { v }).collect())); },
        1 => while pool.len() < k {
            let h: Vec<f64> = (0..n).map(|_| if rng.bool(0.5) { 1.0 } else { -1.0 }).collect();
            pool.push(Arc::new(h.iter().map(|v| -v).collect())); pool.push(Arc::new(h));
        },
        2 => while pool.len() < k {
            let b = rng.range(-0.3, 0.6);
            let h: Vec<f64> = y.iter().map(|&v| { let r = (rng.range(-1.0, 1.0) + b * v).clamp(-1.0, 1.0); if rng.bool(0.1) { 0.0 } else { r } }).collect();
            pool.push(Arc::new(h.iter().map(|v| -v).collect())); pool.push(Arc::new(h));
        },
        _ => {
            let nf = rng.int(1, 4);
            let feats: Vec<Vec<f64>> = (0..nf).map(|_| y.iter().map(|&v| rng.gauss() + 0.7 * v).collect()).collect();
            while pool.len() < k {
                let f = rng.pick(&feats).clone(); let t = f[rng.below(n)];
                let h: Vec<f64> = f.iter().map(|&v| if v >= t { 1.0 } else { -1.0 }).collect();
                pool.push(Arc::new(h.iter().map(|v| -v).collect())); pool.push(Arc::new(h));
            }
        }
    }
    pool
}

pub fn best_in_pool(margins: &[Vec<f64>], d: &[f64]) -> (usize, f64) {
    let mut b = (0, f64::NEG_INFINITY);
    for (j, m) in margins.iter().enumerate() { let e = dot(m, d); if e > b.1 { b = (j, e); } }
    b
}

/// Best response over a pool.
pub fn best_response<'a>(pool: Pool, y: &[f64]) -> Strategy<'a> {
    let ms: Vec<Vec<f64>> = pool.iter().map(|h| margins_of(h, y)).collect();
    Box::new(move |_, d| { let (j, _) = best_in_pool(&ms, d); (j, pool[j].clone()) })
}

/// Always some pool member with edge > `min_edge`; which one varies by `mode`
/// (0 random, 1 least positive, 2 stick with the last while it qualifies, 3 best). Falls back to the best.
pub fn positive_response<'a>(pool: Pool, y: &[f64], min_edge: f64, mode: usize, mut rng: Rng) -> Strategy<'a> {
    let ms: Vec<Vec<f64>> = pool.iter().map(|h| margins_of(h, y)).collect();
    let mut last: Option<usize> = None;
    Box::new(move |_, d| {
        let es: Vec<f64> = ms.iter().map(|m| dot(m, d)).collect();
        let ok: Vec<usize> = (0..es.len()).filter(|&j| es[j] > min_edge).collect();
        let best = (0..es.len()).fold(0, |b, j| if es[j] > es[b] { j } else { b });
        let j = if ok.is_empty() { best } else {
            match mode {
                0 => *rng.pick(&ok),
                1 => *ok.iter().min_by(|a, b| es[**a].partial_cmp(&es[**b]).unwrap()).unwrap(),
                2 => match last { Some(l) if es[l] > min_edge => l, _ => *rng.pick(&ok) },
                _ => best,
            }
        };
        last = Some(j);
        (j, pool[j].clone())
    })
}

/// A fresh hypothesis every round with edge in [lo, hi] under the current weights.
/// kind 0: +-1 valued; 1: confidence-rated; 2: with abstentions (0).
pub fn fresh_response<'a>(y: Vec<f64>, lo: f64, hi: f64, kind: usize, mut rng: Rng) -> Strategy<'a> {
    Box::new(move |t, d| {
        let n = y.len();
        let target = rng.range(lo, hi);
        let mut m: Vec<f64> = vec![0.0; n];
        for _ in 0..8 {
            for v in m.iter_mut() {
                *v = match kind { 0 => if rng.bool(0.5) { 1.0 } else { -1.0 }, 1 => rng.range(-1.0, 1.0), _ => *rng.pick(&[-1.0, 0.0, 1.0]) };
            }
            // move margins towards +1 in random order until the edge is reached
            let mut ix: Vec<usize> = (0..n).collect(); rng.shuffle(&mut ix);
            let mut e = dot(&m, d);
            for &i in &ix { if e >= target { break; } let new = if kind == 1 { m[i].abs().max(0.3) } else { 1.0 }; e += d[i] * (new - m[i]); m[i] = new; }
            // and down if far above
            let mut ix: Vec<usize> = (0..n).collect(); rng.shuffle(&mut ix);
            for &i in &ix { if m[i] > 0.0 { let new = if kind == 2 { 0.0 } else { -m[i] }; let e2 = e + d[i] * (new - m[i]); if e2 >= target { e = e2; m[i] = new; } } }
            if dot(&m, d) > 0.0 { break; }
        }
        (1000 + t, Arc::new(m.iter().zip(&y).map(|(a, b)| a * b).collect()))
    })
}

/// Some examples are classified correctly in every round; the others alternate such that the edge stays in [lo, hi]
/// as far as possible. The weights of the loyal examples fall without bound.
pub fn loyal_response<'a>(y: Vec<f64>, lo: f64, hi: f64, mut rng: Rng) -> Strategy<'a> {
    let n = y.len();
    let mut ix: Vec<usize> = (0..n).collect(); rng.shuffle(&mut ix);
    let k = rng.int(1, (n / 2).max(1));
    let loyal: Vec<bool> = (0..n).map(|i| ix[..k].contains(&i)).collect();
    Box::new(move |t, d| {
        let target = rng.range(lo, hi);
        let mut m = vec![1.0; n];
        let mut e: f64 = d.iter().sum();
        let mut ix: Vec<usize> = (0..n).filter(|&i| !loyal[i]).collect(); rng.shuffle(&mut ix);
        for &i in &ix { if e - 2.0 * d[i] >= target { e -= 2.0 * d[i]; m[i] = -1.0; } }
        // never a perfect hypothesis: a partial confidence on the first of the others
        if m.iter().all(|&v| v == 1.0) { m[ix[0]] = 1.0 - ((1.0 - target) / d[ix[0]].max(1e-9)).min(1.5); }
        (1000 + t, Arc::new(m.iter().zip(&y).map(|(a, b)| a * b).collect()))
    })
}

/// Wrong on one example each round, the lightest of a group taking turns: edges within 2^-k of 1, and the
/// weights of the other examples halve every round.
pub fn turns_response<'a>(y: Vec<f64>, group: usize) -> Strategy<'a> {
    Box::new(move |t, d| {
        let w = (0..group).fold(0, |a, i| if d[i] < d[a] { i } else { a });
        (1000 + t, Arc::new((0..y.len()).map(|i| if i == w { -y[i] } else { y[i] }).collect()))
    })
}
