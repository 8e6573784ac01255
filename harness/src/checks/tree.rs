//! Tree monitors: P15 (decision trees), P16 (regression trees).
//! The trees are read through their serialised form and judged node by node
//! against every split available at the bin boundaries.
use miniboosts::*;
use miniboosts::prelude::{Criterion, GBMLoss, LossFunction};
use serde_json::Value;
use crate::ctx::*;
use crate::data::*;
use crate::rng::{hash_f64s, Rng};

pub(crate) enum T { B { feat: String, thr: f64, l: Box<T>, r: Box<T> }, L(f64) }

fn parse(v: &Value, leaf: &str) -> Res<T> {
    let bad = || -> Res<T> { inconclusive(format!("serialised tree has an unexpected form: {v}")) };
    if let Some(b) = v.get("Branch") {
        let (Some(f), Some(t), Some(l), Some(r)) = (b["rule"]["feature"].as_str(), b["rule"]["threshold"].as_f64(), b.get("left"), b.get("right")) else { return bad() };
        return Ok(T::B { feat: f.to_string(), thr: t, l: Box::new(parse(l, leaf)?), r: Box::new(parse(r, leaf)?) });
    }
    match v.get("Leaf").and_then(|l| l.get(leaf)).and_then(|x| x.as_f64()) { Some(x) => Ok(T::L(x)), None => bad() }
}
pub(crate) fn read_tree<S: serde::Serialize>(h: &S, leaf: &str) -> Res<T> {
    let s = serde_json::to_string(h).expect("harness: serialise");
    let v: Value = serde_json::from_str(&s).expect("harness: parse");
    parse(&v["root"], leaf)
}
impl T {
    pub(crate) fn at(&self, d: &Data, i: usize) -> f64 {
        match self {
            T::L(x) => *x,
            T::B { feat, thr, l, r } => { let c = d.names.iter().position(|n| n == feat).expect("harness: feature of the tree"); if d.cols[c][i] < *thr { l.at(d, i) } else { r.at(d, i) } }
        }
    }
    fn names_in(&self, d: &Data) -> bool {
        match self { T::L(_) => true, T::B { feat, l, r, .. } => d.names.contains(feat) && l.names_in(d) && r.names_in(d) }
    }
}

/// Bin edges of a column as documented: equal width between the smallest and the largest value.
struct Edges { e: Vec<f64>, tol: f64 }
fn edges(c: &[f64], nb: usize) -> Edges {
    let (lo, hi) = c.iter().fold((f64::MAX, f64::MIN), |(a, b), &v| (a.min(v), b.max(v)));
    let w = (hi - lo) / nb as f64;
    Edges { e: if hi > lo { (1..nb).map(|k| lo + w * k as f64).collect() } else { vec![] }, tol: 1e-9 * (hi - lo) + 8.0 * f64::EPSILON * lo.abs().max(hi.abs()) }
}
fn distinct(c: &[f64]) -> usize { let mut v = c.to_vec(); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v.dedup(); v.len() }

/// What a kind of tree optimises. Scores are maximised.
trait Judge {
    /// score of the split (left, right), in units in which 1 is large
    fn split(&self, l: &[usize], r: &[usize]) -> f64;
    /// score of not splitting
    fn whole(&self, all: &[usize]) -> f64;
    /// slack for comparing scores within the node
    fn slack(&self, all: &[usize]) -> f64;
    fn leaf(&self, all: &[usize]) -> (f64, f64);
    fn name(&self) -> String;
}

#[derive(Default)]
struct Seen { splits: u64, leaves: u64, candidates: u64, unique: bool, above: u64 }

fn judge(j: &dyn Judge, t: &T, d: &Data, ed: &[Edges], idx: &[usize], depth: usize, path: &str, s: &mut Seen) -> Res {
    let mut best: Option<(f64, usize, f64)> = None;
    let tol = j.slack(idx);
    let mut cands: Vec<(f64, Vec<bool>)> = vec![];
    if depth > 0 {
        for (c, e) in ed.iter().enumerate() {
            let mut last = 0;
            for &x in &e.e {
                let left = idx.iter().filter(|&&i| d.cols[c][i] < x).count();
                if left == last || left == idx.len() { continue; }
                if idx.iter().any(|&i| (d.cols[c][i] - x).abs() <= e.tol) { continue; }
                last = left;
                let (l, r): (Vec<usize>, Vec<usize>) = idx.iter().partition(|&&i| d.cols[c][i] < x);
                let sc = j.split(&l, &r);
                s.candidates += 1;
                if best.map(|b| sc > b.0).unwrap_or(true) { best = Some((sc, c, x)); }
                cands.push((sc, idx.iter().map(|&i| d.cols[c][i] < x).collect()));
            }
        }
    }
    match t {
        T::L(v) => {
            let (want, lt) = j.leaf(idx);
            ensure!((v - want).abs() <= lt, "leaf", "{} leaf {path} with {} examples holds {v}, expected {want}", j.name(), idx.len());
            if let Some((b, c, x)) = best {
                let w = j.whole(idx);
                ensure!(b <= w + tol, "missed-split", "{} leaf {path} above the depth limit ({depth} more levels allowed): splitting feature {c} at {x} improves {w} to {b} ({} examples)", j.name(), idx.len());
                s.above += 1;
                if cands.iter().any(|q| q.0 >= w - 100.0 * tol) { s.unique = false; }
            }
            s.leaves += 1;
        }
        T::B { feat, thr, l, r } => {
            ensure!(depth > 0, "depth", "{} tree splits at {path}, below the depth limit", j.name());
            let c = match d.names.iter().position(|n| n == feat) { Some(c) => c, None => return viol("feature", format!("split on unknown feature {feat:?}")) };
            let (li, ri): (Vec<usize>, Vec<usize>) = idx.iter().partition(|&&i| d.cols[c][i] < *thr);
            ensure!(!li.is_empty() && !ri.is_empty(), "empty-side", "{} split {path} on {feat} < {thr} sends all {} examples to one side", j.name(), idx.len());
            let sc = j.split(&li, &ri);
            if let Some((b, bc, bx)) = best {
                ensure!(sc >= b - tol, "suboptimal", "{} split {path} on {feat} < {thr} scores {sc}, but {:?} < {bx} scores {b} ({} examples)", j.name(), d.names[bc], idx.len());
            }
            let on_edge = ed[c].e.iter().any(|&x| idx.iter().all(|&i| { let v = d.cols[c][i]; (v - x).abs() <= ed[c].tol || (v < x) == (v < *thr) }));
            ensure!(on_edge, "inside-bin", "{} split {path} on {feat} < {thr} separates examples of one bin", j.name());
            let me: Vec<bool> = idx.iter().map(|&i| d.cols[c][i] < *thr).collect();
            if cands.iter().any(|q| q.0 >= sc - 100.0 * tol && q.1 != me) || !cands.iter().any(|q| q.1 == me) || j.whole(idx) >= sc - 100.0 * tol { s.unique = false; }
            s.splits += 1;
            judge(j, l, d, ed, &li, depth - 1, &format!("{path}L"), s)?;
            judge(j, r, d, ed, &ri, depth - 1, &format!("{path}R"), s)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------ decision trees

struct ByLabel<'a> { y: &'a [f64], w: &'a [f64], crit: Criterion }
impl ByLabel<'_> {
    fn sums(&self, ix: &[usize]) -> (f64, f64) { ix.iter().fold((0.0, 0.0), |(p, n), &i| if self.y[i] > 0.0 { (p + self.w[i], n) } else { (p, n + self.w[i]) }) }
    fn impurity(&self, ix: &[usize]) -> f64 {
        let (p, n) = self.sums(ix);
        let (p, n) = (p / (p + n), n / (p + n));
        match self.crit {
            Criterion::Entropy => { let h = |r: f64| if r > 0.0 { -r * r.ln() } else { 0.0 }; h(p) + h(n) }
            _ => 2.0 * p * n,
        }
    }
}
impl Judge for ByLabel<'_> {
    fn split(&self, l: &[usize], r: &[usize]) -> f64 {
        let ((lp, ln), (rp, rn)) = (self.sums(l), self.sums(r));
        let (wl, wr) = (lp + ln, rp + rn);
        let t = wl + wr;
        match self.crit {
            Criterion::Edge => ((lp - ln) - (rp - rn)).abs() / t,
            Criterion::Twoing => wl / t * (wr / t) * ((lp / wl - rp / wr).abs() + (ln / wl - rn / wr).abs()).powi(2) / 4.0,
            _ => -(wl / t * self.impurity(l) + wr / t * self.impurity(r)),
        }
    }
    fn whole(&self, all: &[usize]) -> f64 {
        let (p, n) = self.sums(all);
        match self.crit { Criterion::Edge => (p - n).abs() / (p + n), Criterion::Twoing => 0.0, _ => -self.impurity(all) }
    }
    fn slack(&self, _: &[usize]) -> f64 { 1e-9 }
    fn leaf(&self, all: &[usize]) -> (f64, f64) { let (p, n) = self.sums(all); ((p - n) / (p + n), 1e-9) }
    fn name(&self) -> String { format!("{}", self.crit) }
}

pub(crate) const CRIT: [Criterion; 4] = [Criterion::Entropy, Criterion::Edge, Criterion::Gini, Criterion::Twoing];

/// Columns beyond the ordinary ones: tiny and huge ranges, large offsets, ties.
fn gen_tree_col(r: &mut Rng, n: usize) -> Vec<f64> {
    match r.below(15) {
        k @ 0..=8 => gen_col(r, n, k),
        9 => { let o: f64 = *r.pick(&[1e6, -1e9, 1e12]); (0..n).map(|_| o + r.below(40) as f64 * 0.01 * o.abs() * 1e-4).collect() }
        10 => { let s = 10f64.powi(r.int(0, 300) as i32 - 150); (0..n).map(|_| s * r.gauss()).collect() }
        11 => vec![*r.pick(&[0.0, 1e17, -1e17, 1e-12, 1e300, -5.0]); n],
        12 => { let a = r.gauss() * 1e-10; (0..n).map(|_| if r.bool(0.5) { 1.0 } else { 1.0 + a }).collect() }
        13 => (0..n).map(|i| { let x = i as f64; x * x * x }).collect(),
        _ => { let mut v: Vec<f64> = (0..n).map(|_| r.gauss()).collect(); let i = r.below(n); v[i] = *r.pick(&[1e6, -1e8, 1e10, 1e13]); v }
    }
}
fn gen_tree_data(r: &mut Rng, n: usize, d: usize) -> Data {
    let cols: Vec<Vec<f64>> = (0..d).map(|_| gen_tree_col(r, n)).collect();
    let y = gen_labels(r, &cols, n);
    Data { cols, y, names: gen_names(r, d) }
}

fn pick_bins(r: &mut Rng, d: &Data, p: f64) -> Vec<Option<usize>> {
    d.cols.iter().map(|_| if r.bool(p) { Some(*r.pick(&[1, 2, 3, 7, 16, 100, 255, 1000])) } else { None }).collect()
}
fn all_edges(d: &Data, nb: &[Option<usize>]) -> Vec<Edges> {
    d.cols.iter().zip(nb).map(|(c, b)| edges(c, b.unwrap_or(distinct(c).min(255)))).collect()
}

fn grow(s: &Sample, d: &Data, nb: &[Option<usize>], depth: usize, crit: Criterion, w: &[f64]) -> Res<DecisionTreeClassifier> {
    lib("DecisionTree::produce", || {
        let mut b = DecisionTreeBuilder::new(s).max_depth(depth).criterion(crit);
        for (n, k) in d.names.iter().zip(nb) { if let Some(k) = k { b.set_nbins(n, *k); } }
        b.build().produce(s, w)
    })
}

/// One tree, judged; its predictions on the training rows.
fn one(cx: &mut Cx, s: &Sample, d: &Data, nb: &[Option<usize>], depth: usize, crit: Criterion, w: &[f64]) -> Res<(Vec<f64>, bool, DecisionTreeClassifier, T)> {
    let h = grow(s, d, nb, depth, crit, w)?;
    let t = read_tree(&h, "confidence")?;
    let idx: Vec<usize> = (0..d.n()).filter(|&i| w[i] > 0.0).collect();
    let mut sn = Seen { unique: true, ..Default::default() };
    judge(&ByLabel { y: &d.y, w, crit }, &t, d, &all_edges(d, nb), &idx, depth, "/", &mut sn)?;
    let conf = lib("confidence_all", || h.confidence_all(s))?;
    for i in 0..d.n() {
        let want = t.at(d, i);
        ensure!(conf[i] == want, "routing", "row {i} gets confidence {}, the leaf it belongs to holds {want}", conf[i]);
        let p = lib("predict", || h.predict(s, i))?;
        ensure!(p as f64 * want >= 0.0 && p.abs() == 1, "predict", "row {i}: predicts {p} with confidence {want}");
    }
    cx.count("splits judged", sn.splits); cx.count("leaves judged", sn.leaves); cx.count("candidate splits scored", sn.candidates); cx.count("leaves above the depth limit", sn.above);
    cx.max("splits in one tree", sn.splits as f64);
    if sn.splits > 0 { let mut h = hash_f64s(depth as u64, &conf); h ^= crate::rng::hash_str(&format!("{crit:?}")); cx.seen(h); }
    Ok((conf, sn.unique, h, t))
}

fn same(cx: &mut Cx, what: &str, a: &[f64], b: &[f64], w: &[f64], tol: f64) -> Res {
    for i in 0..a.len() { if w[i] > 0.0 { ensure!((a[i] - b[i]).abs() <= tol, what, "confidence of row {i} is {} and {}", a[i], b[i]); } }
    cx.count(what, 1);
    Ok(())
}

fn greedy(cx: &mut Cx) -> Res {
    let n = gen_n(&mut cx.rng, 1, 70);
    let dd = gen_d(&mut cx.rng, 5, 60);
    greedy_on(cx, n, dd)
}
fn large(cx: &mut Cx) -> Res {
    let n = cx.rng.int(200, 900);
    let dd = cx.rng.int(1, 4);
    greedy_on(cx, n, dd)
}
fn huge_dt(cx: &mut Cx) -> Res { huge(cx, greedy) }
fn greedy_on(cx: &mut Cx, n: usize, dd: usize) -> Res {
    let r = &mut cx.rng;
    let d = gen_tree_data(r, n, dd);
    let crit = *r.pick(&CRIT);
    let depth = gen_d(r, 6, 60);
    let nb = pick_bins(r, &d, 0.25);
    let mut w = r.simplex(n);
    if r.bool(0.1) { let s = 2f64.powi(r.int(0, 400) as i32 - 200); for x in w.iter_mut() { *x *= s; } }
    cx.note(format!("{crit} depth={depth} bins={nb:?} {} w={:?}", d.brief(), &w[..n.min(12)]));
    let s = d.dense()?;
    let (conf, unique, h, t) = one(cx, &s, &d, &nb, depth, crit, &w)?;
    // weights in another unit
    let k = 2f64.powi(cx.rng.int(0, 60) as i32 - 30);
    let w2: Vec<f64> = w.iter().map(|x| x * k).collect();
    let (conf2, u2, _, _) = one(cx, &s, &d, &nb, depth, crit, &w2)?;
    if unique && u2 { same(cx, "scaled-weights", &conf, &conf2, &w, 1e-9)?; }
    // the labels of examples without weight
    if w.iter().any(|&x| x == 0.0) {
        let mut d2 = d.clone();
        for i in 0..n { if w[i] == 0.0 { d2.y[i] = -d2.y[i]; } }
        let (conf3, u3, _, _) = one(cx, &d2.dense()?, &d2, &nb, depth, crit, &w)?;
        if unique && u3 { same(cx, "zero-weight-labels", &conf, &conf3, &w, 1e-9)?; }
    }
    // other data: new rows, columns permuted, further columns
    let m = cx.rng.int(1, 20);
    let mut e = Data { cols: d.cols.iter().map(|c| (0..m).map(|_| match cx.rng.below(4) { 0 => c[cx.rng.below(n)], 1 => { let i = cx.rng.below(n); let j = cx.rng.below(n); c[i] / 2.0 + c[j] / 2.0 } 2 => 0.0, _ => *cx.rng.pick(&[1e200, -1e200, 1e-200]) }).collect()).collect(), y: vec![1.0; m], names: d.names.clone() };
    let mut perm: Vec<usize> = (0..dd).collect();
    cx.rng.shuffle(&mut perm);
    e = Data { cols: perm.iter().map(|&j| e.cols[j].clone()).collect(), names: perm.iter().map(|&j| e.names[j].clone()).collect(), y: e.y };
    if cx.rng.bool(0.5) { e.cols.insert(0, vec![0.5; m]); e.names.insert(0, "an extra column".into()); }
    let es = e.dense()?;
    let got = lib("confidence_all", || h.confidence_all(&es))?;
    if t.names_in(&e) { for i in 0..m { ensure!(got[i] == t.at(&e, i), "routing-new", "new row {i} gets confidence {}, its leaf holds {}", got[i], t.at(&e, i)); } }
    cx.count("new rows routed", m as u64);
    Ok(())
}

fn sparse_dt(cx: &mut Cx) -> Res {
    let n = gen_n_wide(&mut cx.rng, 1, 60, 400);
    let dd = gen_d(&mut cx.rng, 5, 40);
    let mut r = cx.rng.fork();
    let mut d = gen_tree_data(&mut r, n, dd);
    for c in d.cols.iter_mut() { if r.bool(0.6) { for v in c.iter_mut() { if r.bool(0.5) { *v = 0.0; } } } }
    d.no_zero_cols(&mut r); d.svm_names();
    let crit = *r.pick(&CRIT);
    let depth = r.int(1, 5);
    let nb = pick_bins(&mut r, &d, 0.2);
    let w = r.simplex(n);
    cx.note(format!("sparse {crit} depth={depth} bins={nb:?} {} w={:?}", d.brief(), &w[..n.min(12)]));
    let (ds, ss) = (d.dense()?, d.sparse(cx)?);
    let (a, ua, _, _) = one(cx, &ds, &d, &nb, depth, crit, &w)?;
    let (b, ub, _, _) = one(cx, &ss, &d, &nb, depth, crit, &w)?;
    if ua && ub { same(cx, "dense-sparse", &a, &b, &w, 1e-9)?; }
    Ok(())
}

pub fn p15() -> Check {
    Check {
        id: "P15",
        rule: "a tree counts when it has at least one split; distinct = distinct confidence vectors per depth and criterion",
        assumptions: &["feature ranges that overflow f64 are not generated", "score slack 1e-9; boundaries closer than 1e-9 of the range to a value are not required"],
        families: vec![fam("greedy", 12000, 200000, greedy), fam("sparse", 5000, 60000, sparse_dt), fam("large", 40, 1500, large), fam("huge", 1, 8, huge_dt)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

// ------------------------------------------------------------ regression trees

struct ByGradient<'a> { g: &'a [f64], h: &'a [f64], lam: f64, unit: f64, what: &'a str }
impl ByGradient<'_> {
    fn sums(&self, ix: &[usize]) -> (f64, f64) { ix.iter().fold((0.0, 0.0), |(a, b), &i| (a + self.g[i], b + self.h[i])) }
}
impl Judge for ByGradient<'_> {
    fn split(&self, l: &[usize], r: &[usize]) -> f64 { self.whole(l) + self.whole(r) }
    fn whole(&self, all: &[usize]) -> f64 { let (g, h) = self.sums(all); g * g / (h + self.lam) }
    fn slack(&self, all: &[usize]) -> f64 {
        let g: f64 = all.iter().map(|&i| self.g[i].abs()).sum();
        let h = all.iter().map(|&i| self.h[i]).fold(f64::MAX, f64::min);
        1e-9 * g * g / (h + self.lam) + 1e-18 * self.unit * self.unit
    }
    fn leaf(&self, all: &[usize]) -> (f64, f64) {
        let (g, h) = self.sums(all);
        let m: f64 = all.iter().map(|&i| self.g[i].abs()).sum();
        (-g / (h + self.lam), 1e-9 * m / (h + self.lam))
    }
    fn name(&self) -> String { self.what.to_string() }
}

/// A weighted squared loss: Hessians that are not all alike, nor whole numbers.
#[derive(Clone)]
struct Weighted { w: Vec<f64> }
impl LossFunction for Weighted {
    fn name(&self) -> &str { "weighted squares" }
    fn eval_at_point(&self, p: f64, y: f64) -> f64 { (p - y) * (p - y) }
    fn gradient(&self, p: &[f64], y: &[f64]) -> Vec<f64> { (0..p.len()).map(|i| self.w[i] * (p[i] - y[i])).collect() }
    fn hessian(&self, p: &[f64], _: &[f64]) -> Vec<f64> { (0..p.len()).map(|i| self.w[i]).collect() }
    fn best_coefficient(&self, _: &[f64], _: &[f64]) -> f64 { 1.0 }
}

fn reg_one<L: LossFunction + Clone>(cx: &mut Cx, what: &str, s: &Sample, d: &Data, nb: &[Option<usize>], depth: usize, lam: f64, loss: &L, p: &[f64]) -> Res<(Vec<f64>, bool, RegressionTreeRegressor, T)> {
    let h = lib("RegressionTree::produce", || {
        let mut b = RegressionTreeBuilder::new(s).max_depth(depth).lambda_l2(lam).loss(loss.clone());
        for (n, k) in d.names.iter().zip(nb) { if let Some(k) = k { b.set_nbins(n, *k); } }
        b.build().produce(s, p)
    })?;
    let t = read_tree(&h, "prediction")?;
    let (g, he) = (loss.gradient(p, &d.y), loss.hessian(p, &d.y));
    let idx: Vec<usize> = (0..d.n()).collect();
    let mut sn = Seen { unique: true, ..Default::default() };
    let unit = g.iter().map(|v| v.abs()).fold(0.0, f64::max);
    judge(&ByGradient { g: &g, h: &he, lam, unit, what }, &t, d, &all_edges(d, nb), &idx, depth - 1, "/", &mut sn)?;
    let got = lib("predict_all", || h.predict_all(s))?;
    for i in 0..d.n() { ensure!(got[i] == t.at(d, i), "routing", "{what}: row {i} is predicted {}, its leaf holds {}", got[i], t.at(d, i)); }
    cx.count("splits judged", sn.splits); cx.count("leaves judged", sn.leaves); cx.count("candidate splits scored", sn.candidates); cx.count("leaves above the depth limit", sn.above);
    if sn.splits > 0 { cx.seen(hash_f64s(depth as u64, &got)); }
    Ok((got, sn.unique, h, t))
}

fn gen_reg_tree(cx: &mut Cx, n: usize, dd: usize) -> (Data, Vec<f64>) {
    let r = &mut cx.rng;
    let cols: Vec<Vec<f64>> = (0..dd).map(|_| gen_tree_col(r, n)).collect();
    let names = gen_names(r, dd);
    let mut y = gen_regression(r, n, 1, &[0]).y;
    match r.below(6) { 0 => { for i in 0..n { y[i] = if i % 2 == 0 { 1.0 } else { -1.0 }; } } 1 => { let m = y.iter().sum::<f64>() / n as f64; for v in y.iter_mut() { *v -= m; } } _ => {} }
    let p: Vec<f64> = match r.below(4) {
        0 => vec![0.0; n],
        1 => { let m = y.iter().sum::<f64>() / n as f64; vec![m; n] }
        2 => y.iter().map(|v| if r.bool(0.3) { *v } else { v + r.gauss() }).collect(),
        _ => (0..n).map(|_| r.gauss()).collect(),
    };
    (Data { cols, y, names }, p)
}

fn reg_case(cx: &mut Cx, kind: usize) -> Res {
    let n = if cx.rng.bool(0.03) && !is_huge() { cx.rng.int(200, 600) } else { gen_n(&mut cx.rng, 1, 60) };
    let dd = gen_d(&mut cx.rng, 4, 30);
    let (mut d, p) = gen_reg_tree(cx, n, dd);
    let depth = gen_d(&mut cx.rng, 6, 60);
    let lam = *cx.rng.pick(if kind == 1 { &[1e-3, 0.01, 1.0, 10.0][..] } else { &[0.0, 1e-3, 0.01, 1.0, 10.0][..] });
    let mut r = cx.rng.fork();
    let nb = pick_bins(&mut r, &d, 0.2);
    let both = r.bool(0.35);
    if both {
        for c in d.cols.iter_mut() { if r.bool(0.6) { for v in c.iter_mut() { if r.bool(0.5) { *v = 0.0; } } } }
        d.no_zero_cols(&mut r); d.svm_names();
    }
    let what = ["L2 tree", "L1 tree", "weighted-squares tree"][kind];
    cx.note(format!("{what} depth={depth} lambda={lam} bins={nb:?} {} current={:?}", d.brief(), &p[..n.min(12)]));
    let s = d.dense()?;
    let run = |cx: &mut Cx, s: &Sample, w: &Weighted| match kind {
        0 => reg_one(cx, what, s, &d, &nb, depth, lam, &GBMLoss::L2, &p),
        1 => reg_one(cx, what, s, &d, &nb, depth, lam, &GBMLoss::L1, &p),
        _ => reg_one(cx, what, s, &d, &nb, depth, lam, w, &p),
    };
    let w = Weighted { w: (0..n).map(|_| if r.bool(0.2) { 0.5 } else { r.f() + 0.01 }).collect() };
    if kind < 2 {
        let l = if kind == 0 { GBMLoss::L2 } else { GBMLoss::L1 };
        let (g, h) = (lib("gradient", || l.gradient(&p, &d.y))?, lib("hessian", || l.hessian(&p, &d.y))?);
        for i in 0..n {
            let e = p[i] - d.y[i];
            let ok = if kind == 0 { h[i] > 0.0 && (g[i] - h[i] * e).abs() <= 1e-12 * g[i].abs() } else { h[i] == 0.0 && (e == 0.0 && g[i].abs() <= 1.0 || g[i] == e.signum()) };
            ensure!(ok, "gradient", "{}: prediction {} for target {} has gradient {} and Hessian {}", l.name(), p[i], d.y[i], g[i], h[i]);
        }
    }
    let (a, ua, h, t) = run(cx, &s, &w)?;
    if both {
        let ss = d.sparse(cx)?;
        let (b, ub, _, _) = run(cx, &ss, &w)?;
        if ua && ub {
            let m = a.iter().chain(&d.y).chain(&p).map(|v| v.abs()).fold(0.0, f64::max);
            for i in 0..n { ensure!((a[i] - b[i]).abs() <= 1e-9 * m, "dense-sparse", "{what}: row {i} is predicted {} from dense and {} from sparse data", a[i], b[i]); }
            cx.count("dense-sparse", 1);
        }
    }
    let m = r.int(1, 15);
    let e = Data { cols: d.cols.iter().map(|c| (0..m).map(|_| match r.below(3) { 0 => c[r.below(n)], 1 => { let i = r.below(n); let j = r.below(n); c[i] / 2.0 + c[j] / 2.0 } _ => 0.0 }).collect()).collect(), y: vec![0.0; m], names: d.names.clone() };
    let es = e.dense()?;
    let got = lib("predict_all", || h.predict_all(&es))?;
    for i in 0..m { ensure!(got[i] == t.at(&e, i), "routing-new", "{what}: new row {i} is predicted {}, its leaf holds {}", got[i], t.at(&e, i)); }
    Ok(())
}
fn l2(cx: &mut Cx) -> Res { reg_case(cx, 0) }
fn huge_rt(cx: &mut Cx) -> Res { huge(cx, l2) }
fn l1(cx: &mut Cx) -> Res { reg_case(cx, 1) }
fn weighted(cx: &mut Cx) -> Res { reg_case(cx, 2) }

pub fn p16() -> Check {
    Check {
        id: "P16",
        rule: "a tree counts when it has at least one split; distinct = distinct prediction vectors",
        assumptions: &["feature ranges that overflow f64 are not generated", "L1 with zero regularisation (zero Hessians) is out of contract", "score slack 1e-9 relative"],
        families: vec![fam("l2", 10000, 120000, l2), fam("huge", 1, 8, huge_rt), fam("l1", 6000, 80000, l1), fam("custom-loss", 6000, 60000, weighted)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
