//! P18: neural networks. Training steps are compared with numerical gradients of an
//! independently written network; needs cfg(vp_hooks).
use miniboosts::*;
use crate::ctx::*;
use crate::data::*;
use crate::rng::{hash_f64s, Rng};

type Params = Vec<(Vec<Vec<f64>>, Vec<f64>)>;

fn act(a: &Activation, u: &[f64]) -> Vec<f64> {
    match a {
        Activation::Id => u.to_vec(),
        Activation::ReLu(t) => u.iter().map(|&v| if v <= *t { 0.0 } else { v }).collect(),
        Activation::Sigmoid(e) => u.iter().map(|&v| 1.0 / (1.0 + (-e * v).exp())).collect(),
        Activation::SoftMax(e) => {
            let m = u.iter().map(|v| e * v).fold(f64::MIN, f64::max);
            let x: Vec<f64> = u.iter().map(|v| (e * v - m).exp()).collect();
            let s: f64 = x.iter().sum();
            x.iter().map(|v| v / s).collect()
        }
    }
}
fn affine(p: &(Vec<Vec<f64>>, Vec<f64>), x: &[f64]) -> Vec<f64> { p.0.iter().zip(&p.1).map(|(w, b)| w.iter().zip(x).map(|(a, c)| a * c).sum::<f64>() + b).collect() }
/// Output and pre-activations of every layer.
fn forward(p: &Params, acts: &[Activation], x: &[f64]) -> (Vec<f64>, Vec<Vec<f64>>) {
    let mut z = x.to_vec();
    let mut us = vec![];
    for (l, a) in p.iter().zip(acts) { let u = affine(l, &z); z = act(a, &u); us.push(u); }
    (z, us)
}
fn log_sigmoid(v: f64) -> f64 { if v > 0.0 { -(-v).exp().ln_1p() } else { v - v.exp().ln_1p() } }
/// Loss of one example, from the pre-activations of the last layer.
fn loss_one(u: &[f64], last: &Activation, t: &[f64]) -> f64 {
    match last {
        Activation::Id => u.iter().zip(t).map(|(a, b)| 0.5 * (a - b) * (a - b)).sum(),
        Activation::Sigmoid(e) => u.iter().zip(t).map(|(v, y)| -(y * log_sigmoid(e * v) + (1.0 - y) * log_sigmoid(-e * v))).sum(),
        Activation::SoftMax(e) => {
            let m = u.iter().map(|v| e * v).fold(f64::MIN, f64::max);
            let s = u.iter().map(|v| (e * v - m).exp()).sum::<f64>().ln() + m;
            u.iter().zip(t).map(|(v, y)| y * (s - e * v)).sum()
        }
        Activation::ReLu(_) => unreachable!(),
    }
}
fn slope(a: &Activation) -> f64 { match a { Activation::Sigmoid(e) | Activation::SoftMax(e) => *e, _ => 1.0 } }

fn gen_params(r: &mut Rng, dims: &[usize], s: f64) -> Params {
    (1..dims.len()).map(|l| ((0..dims[l]).map(|_| (0..dims[l - 1]).map(|_| s * r.gauss()).collect()).collect(), (0..dims[l]).map(|_| s * r.gauss()).collect())).collect()
}
fn gen_act(r: &mut Rng) -> Activation {
    match r.below(4) { 0 => Activation::Id, 1 => Activation::ReLu(*r.pick(&[0.0, 0.0, 1.0, -0.5])), _ => Activation::Sigmoid(*r.pick(&[0.3, 1.0, 1.0, 2.0])) }
}
fn flat(p: &Params) -> Vec<f64> { p.iter().flat_map(|(w, b)| w.iter().flatten().chain(b).copied().collect::<Vec<_>>()).collect() }

#[cfg(vp_hooks)]
fn gradient(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let wide = r.bool(0.02);
    let n = r.int(1, 12);
    let d = if wide { r.int(5, 25) } else { r.int(1, 5) };
    let kind = r.below(4); // 0 two outputs, 1 one output, 2 several classes, 3 regression
    let k = match kind { 0 => 2, 1 | 3 => 1, _ => r.int(3, 5) };
    let n_class = match kind { 0 | 1 => 2, 2 => k, _ => 0 };
    let hidden = r.below(4);
    let mut dims = vec![d];
    let mut acts = vec![];
    for _ in 0..hidden { dims.push(if wide { r.int(5, 12) } else { r.int(1, 6) }); acts.push(gen_act(r)); }
    dims.push(k);
    let e = *r.pick(&[1.0, 1.0, 1.0, 0.5, 2.0]);
    acts.push(match kind { 0 | 2 => if r.bool(0.7) { Activation::SoftMax(e) } else { Activation::Sigmoid(e) }, 1 => Activation::Sigmoid(e), _ => Activation::Id });
    let last = acts[acts.len() - 1];
    let loss = if kind == 3 { NNLoss::L2 } else { NNLoss::CrossEntropy };
    let cols = gen_features(r, n, d, &[0, 1, 3, 4]);
    let y: Vec<f64> = (0..n).map(|_| match kind { 0 | 1 => if r.bool(0.5) { 1.0 } else { -1.0 }, 2 => r.below(k) as f64, _ => r.gauss() }).collect();
    let target = |y: f64| -> Vec<f64> { match kind {
        1 => vec![if y > 0.0 { 1.0 } else { 0.0 }], 3 => vec![y],
        0 => if y > 0.0 { vec![0.0, 1.0] } else { vec![1.0, 0.0] },
        _ => (0..k).map(|c| if c as f64 == y { 1.0 } else { 0.0 }).collect() } };
    let data = Data { cols, y, names: gen_names(r, d) };
    let sc = *r.pick(&[0.3, 1.0, 3.0]);
    let p0 = gen_params(r, &dims, sc);
    let m = r.int(1, n);
    let mut idx: Vec<usize> = (0..n).collect(); r.shuffle(&mut idx); idx.truncate(m);
    let rate = *r.pick(&[1.0, 0.1, 1e-3]) / m as f64;
    let sparse = r.bool(0.2);
    let steps = r.int(1, 3);
    let mut data = data;
    if sparse { let mut f = r.fork(); data.no_zero_cols(&mut f); data.svm_names(); }
    cx.note(format!("dims={dims:?} acts={acts:?} loss={loss} n={n} batch={idx:?} rate={rate} steps={steps}"));
    let s = if sparse { data.sparse(cx)? } else { data.dense()? };
    let mut net = lib("NNHypothesis::new", || NNHypothesis::vp_new(n_class, &dims, &acts))?;
    net.vp_set_params(p0.clone());
    let mut p = p0;
    for step in 0..steps {
        // stay away from the jumps of ReLu, and from values too large for numerical differentiation
        let mut um = 1f64;
        for &i in &idx {
            let (_, us) = forward(&p, &acts, &data.row(i));
            um = us.iter().flatten().map(|v| v.abs()).fold(um, f64::max);
            for (u, a) in us.iter().zip(&acts) { if let Activation::ReLu(t) = a { if u.iter().any(|v| (v - t).abs() < 5e-3 * (1.0 + v.abs())) { return inconclusive("next to the jump of a ReLu"); } } }
        }
        if !(um < 200.0) { cx.count("runs left because they diverged", 1); return Ok(()); }
        let total = |p: &Params| -> f64 { idx.iter().map(|&i| { let (_, us) = forward(p, &acts, &data.row(i)); loss_one(us.last().unwrap(), &last, &target(data.y[i])) }).sum() };
        // numerical gradient
        let mut g: Params = p.clone();
        let mut q = p.clone();
        let h = 1e-5;
        for l in 0..p.len() {
            for a in 0..p[l].1.len() {
                for b in 0..=p[l].0[a].len() {
                    let w0 = if b < p[l].0[a].len() { p[l].0[a][b] } else { p[l].1[a] };
                    let mut put = |v: f64| { if b < p[l].0[a].len() { q[l].0[a][b] = v } else { q[l].1[a] = v } };
                    put(w0 + h); let _ = put; let up = total(&q);
                    let mut put = |v: f64| { if b < p[l].0[a].len() { q[l].0[a][b] = v } else { q[l].1[a] = v } };
                    put(w0 - h); let _ = put; let dn = total(&q);
                    if b < p[l].0[a].len() { q[l].0[a][b] = w0 } else { q[l].1[a] = w0 }
                    let v = (up - dn) / (2.0 * h);
                    if b < p[l].0[a].len() { g[l].0[a][b] = v } else { g[l].1[a] = v }
                }
            }
        }
        lib("NNHypothesis::train", || net.vp_train(rate, loss, &s, &idx))?;
        let p1 = net.vp_params();
        ensure!(p1.len() == p.len() && flat(&p1).len() == flat(&p).len(), "shape", "the step changed the shape of the network");
        let (a, b, gg) = (flat(&p), flat(&p1), flat(&g));
        let gm = gg.iter().map(|v| v.abs()).fold(0.0, f64::max);
        let lv = total(&p).abs();
        let tol = 1e-4 * gm + 1e-9 * (1.0 + lv + um);
        let mag = a.iter().map(|v| v.abs()).fold(0.0, f64::max);
        // a slope of the output activation only scales the whole step
        let cs = [1.0, 1.0 / slope(&last)];
        let bad = |c: f64| (0..a.len()).map(|j| (((a[j] - b[j]) / rate - c * gg[j]).abs() - 1e-12 * mag / rate, j)).fold((f64::MIN, 0), |x, y| if y.0 > x.0 || y.0.is_nan() { y } else { x });
        let best = cs.iter().map(|&c| bad(c)).fold((f64::MAX, 0), |x, y| if y.0 < x.0 { y } else { x });
        ensure!(best.0 <= tol * 3.0, "gradient", "step {}: parameter {} of {} moves by {} x rate, the gradient there is {} (largest {gm}); network {dims:?} {acts:?}, {loss}", step + 1, best.1, a.len(), a[best.1] - b[best.1], gg[best.1]);
        cx.count("training steps compared", 1);
        cx.count("partial derivatives compared", a.len() as u64);
        if gm > 1e-3 { cx.max("largest deviation of a partial derivative (relative to the largest)", best.0 / gm); }
        if gm > 1e-6 { cx.seen(hash_f64s(step as u64, &gg)); }
        p = p1;
        if !flat(&p).iter().all(|v| v.abs() < 1e4) { cx.count("runs left because they diverged", 1); return Ok(()); }
    }
    // the network computes its composition
    for i in 0..n {
        let x = data.row(i);
        let (want, _) = forward(&p, &acts, &x);
        let got = lib("NNHypothesis::eval", || net.vp_eval(x.clone()))?;
        ensure!(got.len() == k, "outputs", "{} outputs, expected {k}", got.len());
        check_close(&got, &want, &p, &acts, &x, "output")?;
    }
    // and its classification or prediction
    if kind == 3 {
        let reg = NNRegressor::new(net.clone());
        for i in 0..n { let o = net.vp_eval(data.row(i)); let v = lib("predict", || Regressor::predict(&reg, &s, i))?; ensure!((v - o[0]).abs() <= 1e-12 * o[0].abs(), "prediction", "row {i}: predicts {v}, the output is {}", o[0]); }
    } else {
        let cls = NNClassifier::new(net.clone());
        for i in 0..n {
            let o = net.vp_eval(data.row(i));
            classify(&cls, &s, i, &o, n_class)?;
            cx.count("classifications compared", 1);
        }
    }
    Ok(())
}

#[cfg(vp_hooks)]
fn check_close(got: &[f64], want: &[f64], p: &Params, acts: &[Activation], x: &[f64], what: &str) -> Res {
    // how much rounding can matter: a forward pass of absolute values is enough for these sizes
    let (_, us) = forward(p, acts, x);
    for (u, a) in us.iter().zip(acts) { if let Activation::ReLu(t) = a { if u.iter().any(|v| (v - t).abs() < 1e-9 * (1.0 + v.abs())) { return Ok(()); } } }
    let m = us.iter().flatten().map(|v| v.abs()).fold(1.0, f64::max);
    for j in 0..want.len() { ensure!((got[j] - want[j]).abs() <= 1e-9 * m, what, "{what} {j} is {}, the composition of the layers gives {}", got[j], want[j]); }
    Ok(())
}

/// The class of the largest output, or the side of 1/2 for a single output.
fn classify(cls: &NNClassifier, s: &Sample, i: usize, o: &[f64], n_class: usize) -> Res {
    let c = lib("confidence", || cls.confidence(s, i))?;
    if n_class == 2 {
        let (neg, pos) = if o.len() == 1 { (1.0 - o[0], o[0]) } else { (o[0], o[1]) };
        ensure!((-1.0..=1.0).contains(&c), "confidence-range", "row {i}: confidence {c}");
        if (neg - pos).abs() > 1e-12 {
            let p = lib("predict", || cls.predict(s, i))?;
            ensure!(p == if pos > neg { 1 } else { -1 } && (c == 0.0 || (c > 0.0) == (pos > neg)), "class", "row {i}: outputs {o:?} are classified {p} with confidence {c}");
        }
    } else {
        let m = o.iter().cloned().fold(f64::MIN, f64::max);
        ensure!(c >= 0.0 && c.fract() == 0.0 && (c as usize) < o.len() && o[c as usize] >= m - 1e-12, "class", "row {i}: outputs {o:?} are classified {c}");
    }
    Ok(())
}

/// Networks trained through the public interface: composition, classification, and
/// examples without weight (whose features are not numbers) must not be trained on.
#[cfg(vp_hooks)]
fn produced(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let n = if r.bool(0.03) { r.int(60, 500) } else { r.int(4, 60) };
    let d = gen_d(r, 5, 50);
    let mut data = gen_binary(r, n, d, &[0, 1, 3, 4]);
    let mut w = r.simplex(n);
    let poison = r.bool(0.5);
    let bs = r.int(1, n);
    let mut usable = n;
    if poison {
        // Even weights and small batches: the random choice in the rand crate cannot tell tiny weights from none.
        for i in 0..n { w[i] = if r.bool(0.4) { 0.0 } else { r.range(0.5, 1.0) }; }
        if w.iter().all(|&x| x == 0.0) { w[0] = 1.0; }
        let t: f64 = w.iter().sum();
        for x in w.iter_mut() { *x /= t; }
        usable = w.iter().filter(|&&x| x > 0.0).count();
        for i in 0..n { if w[i] == 0.0 { for c in data.cols.iter_mut() { c[i] = f64::NAN; } } }
    }
    let bs = if poison { bs.min((usable / 2).max(1)) } else { bs };
    let one = r.bool(0.3);
    let hid: Vec<(usize, Activation)> = (0..gen_d(r, 3, 7) - 1).map(|_| (gen_d(r, 6, 50), gen_act(r))).collect();
    // rarely as many epochs and iterations as are the default, or more
    let (ep, it) = match r.below(40) { 0 => (r.int(50, 150), 1), 1 => (1, r.int(100, 300)), _ => (r.int(1, 4), r.int(1, 6)) };
    let last = if one { Activation::Sigmoid(1.0) } else { Activation::SoftMax(1.0) };
    cx.note(format!("produced n={n} d={d} hidden={hid:?} one_output={one} batch={bs} epochs={ep} iterations={it} poison={poison}"));
    let s = data.dense()?;
    let mut acts: Vec<Activation> = hid.iter().map(|x| x.1).collect(); acts.push(last);
    let f = lib("NeuralNetwork::produce", || {
        let mut nn = NeuralNetwork::init(&s);
        for (k, a) in &hid { nn = nn.append(*k, *a); }
        NNHypothesis::vp_record_steps();
        nn.append(if one { 1 } else { 2 }, last).n_epoch(ep).n_iter(it).minibatch_size(bs).produce(&s, &w)
    });
    let steps = NNHypothesis::vp_take_steps();
    if diverged(&steps, &acts, &data) { return inconclusive("gradient descent diverges from these initial values"); }
    let f = f?;
    let net = f.vp_network();
    let p = net.vp_params();
    ensure!(flat(&p).iter().all(|v| v.is_finite()), "poison", "a network trained on {usable} examples with weight (batch {bs}) has parameters that are not numbers: an example without weight was used");
    let mut dims = vec![d]; dims.extend(hid.iter().map(|x| x.0)); dims.push(if one { 1 } else { 2 });
    ensure!(p.len() == acts.len() && (0..p.len()).all(|l| p[l].0.len() == dims[l + 1] && p[l].1.len() == dims[l + 1] && p[l].0.iter().all(|row| row.len() == dims[l])), "shape", "layers have shapes {:?}, asked for {dims:?}", p.iter().map(|l| (l.0.len(), l.0[0].len())).collect::<Vec<_>>());
    // `rand` cannot tell tiny weights from none, and a batch may be larger than there are examples with weight
    schedule(cx, &s, &steps, &p, (&dims, &acts), (ep, it, bs), &if poison { w.clone() } else { vec![1.0; n] })?;
    for i in 0..n {
        let x = data.row(i);
        if x.iter().any(|v| v.is_nan()) { continue; }
        let (want, _) = forward(&p, &acts, &x);
        check_close(&net.vp_eval(x.clone()), &want, &p, &acts, &x, "output")?;
        classify(&f, &s, i, &net.vp_eval(x.clone()), 2)?;
        cx.count("classifications compared", 1);
    }
    if poison && usable < n { cx.count("trainings with poisoned zero-weight examples", 1); }
    cx.seen(hash_f64s(n as u64, &flat(&p)));
    Ok(())
}

/// The values the last steps with finite parameters compute with are so large that what follows may overflow.
#[cfg(vp_hooks)]
fn diverged(steps: &[(f64, Vec<usize>, Params)], acts: &[Activation], data: &Data) -> bool {
    let huge = |v: &f64| !(v.abs() <= 1e9);
    steps.iter().filter(|x| flat(&x.2).iter().all(|v| v.is_finite())).any(|(_, idx, p)| p.len() == acts.len() && (flat(p).iter().any(huge)
        || idx.iter().filter(|&&i| i < data.y.len()).map(|&i| data.row(i)).filter(|x| x.iter().all(|v| v.is_finite())).any(|x| forward(p, acts, &x).1.iter().flatten().any(huge))))
}

/// The training is `ep` epochs of `it` steps on one minibatch of `bs` distinct examples with weight,
/// each with the learning rate over the size of the batch, and each from where the last one ended.
#[cfg(vp_hooks)]
fn schedule(cx: &mut Cx, s: &Sample, steps: &[(f64, Vec<usize>, Params)], last: &Params, (dims, acts): (&[usize], &[Activation]), (ep, it, bs): (usize, usize, usize), w: &[f64]) -> Res {
    ensure!(steps.len() == ep * it, "steps", "{ep} epochs of {it} iterations make {} training steps", steps.len());
    let mut net = lib("NNHypothesis::new", || NNHypothesis::vp_new(2, dims, acts))?;
    if let Some(f) = steps.first() { net.vp_set_params(f.2.clone()); }
    for (t, (rate, idx, before)) in steps.iter().enumerate() {
        let mut u = idx.clone(); u.sort_unstable(); u.dedup();
        ensure!(u.len() == idx.len() && idx.len() == bs, "batch", "step {}: a minibatch of {bs} consists of {} examples, {} of them distinct", t + 1, idx.len(), u.len());
        ensure!(u.last().unwrap() < &w.len() && u.iter().all(|&i| w[i] > 0.0), "batch-weight", "step {}: the minibatch {idx:?} has an example without weight", t + 1);
        let mut v = steps[t / it * it].1.clone(); v.sort_unstable();
        ensure!(u == v, "batch-epoch", "step {}: the minibatch changes within an epoch", t + 1);
        ensure!((rate * bs as f64 - 1e-3).abs() < 1e-12, "rate", "step {}: the step length is {rate} for a minibatch of {bs} and a learning rate of 1e-3", t + 1);
        let (a, b) = (flat(before), flat(&net.vp_params()));
        let far = |x: f64, y: f64| (x - y).abs() > 1e-9 * (1.0 + x.abs().max(y.abs()));
        ensure!(a.len() == b.len() && !(0..a.len()).any(|j| far(a[j], b[j])), "replay", "step {} starts from other parameters than the previous one ends with", t + 1);
        net.vp_set_params(before.clone());
        lib("NNHypothesis::train", || net.vp_train(*rate, NNLoss::CrossEntropy, s, idx))?;
    }
    let (a, b) = (flat(last), flat(&net.vp_params()));
    if !steps.is_empty() { ensure!(!(0..a.len()).any(|j| (a[j] - b[j]).abs() > 1e-9 * (1.0 + a[j].abs())), "replay", "the network has other parameters than the last training step ends with"); }
    cx.count("training steps of a schedule checked", steps.len() as u64);
    Ok(())
}

/// Minibatches are drawn by weight: with batches of one example, the draws follow the weights.
#[cfg(vp_hooks)]
fn draws(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let n = r.int(2, 8);
    let data = gen_binary(r, n, 1, &[1]);
    let mut w: Vec<f64> = (0..n).map(|_| if r.bool(0.2) { 0.0 } else { r.range(0.1, 1.0) }).collect();
    if w.iter().all(|&x| x == 0.0) { w[0] = 1.0; }
    let t: f64 = w.iter().sum();
    for x in w.iter_mut() { *x /= t; }
    let ep = 4000;
    cx.note(format!("draws w={w:?} epochs={ep}"));
    let s = data.dense()?;
    NNHypothesis::vp_record_steps();
    lib("NeuralNetwork::produce", || NeuralNetwork::init(&s).append(2, Activation::SoftMax(1.0)).n_epoch(ep).n_iter(1).minibatch_size(1).produce(&s, &w))?;
    let steps = NNHypothesis::vp_take_steps();
    let mut c = vec![0usize; n];
    for x in &steps { for &i in &x.1 { c[i] += 1; } }
    ensure!(c.iter().sum::<usize>() == ep, "steps", "{ep} epochs draw {c:?}");
    for i in 0..n {
        let sd = (ep as f64 * w[i] * (1.0 - w[i])).sqrt();
        ensure!((c[i] as f64 - ep as f64 * w[i]).abs() <= 7.5 * sd + 1e-6, "draws", "example {i} of weight {} is drawn {} times in {ep}", w[i], c[i]);
    }
    cx.count("draws counted", ep as u64);
    cx.seen(hash_f64s(n as u64, &w));
    Ok(())
}

#[cfg(not(vp_hooks))]
fn draws(_: &mut Cx) -> Res { inconclusive("built without hooks") }
#[cfg(not(vp_hooks))]
fn gradient(_: &mut Cx) -> Res { inconclusive("built without hooks") }
#[cfg(not(vp_hooks))]
fn produced(_: &mut Cx) -> Res { inconclusive("built without hooks") }

pub fn p18() -> Check {
    Check {
        id: "P18",
        rule: "a case counts when a training step had a non-zero gradient or a network was trained; distinct = distinct gradients or parameters",
        assumptions: &["losses go with their output activations: cross entropy with SoftMax or Sigmoid, squares with the identity", "a slope of the output activation may scale the whole step", "hidden SoftMax layers are not element-wise and left out", "inputs next to a jump of ReLu are skipped"],
        families: vec![fam("gradient", 6000, 200000, gradient), fam("produced", 1500, 60000, produced), fam("draws", 150, 6000, draws)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
