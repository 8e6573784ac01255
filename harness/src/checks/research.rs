//! P21 (experiment logger).
use std::cell::{Cell, RefCell};
use std::ops::ControlFlow;
use std::time::{Duration, Instant};
use crate::clock;
use miniboosts::*;
use miniboosts::research::{ObjectiveFunction, Research};
use crate::booster::*;
use crate::checks::vote::StumpH;
use crate::ctx::*;
use crate::data::*;
use crate::learn::dot;
use crate::rng::{hash_f64s, Rng};
use crate::with_booster;

/// From here on, rayon runs the current thread's parallel loops on this thread alone, so that sums come out bit by bit the same.
pub fn sequential() {
    thread_local! { static ONE: Cell<bool> = const { Cell::new(false) }; }
    ONE.with(|o| if !o.replace(true) {
        let p = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build().expect("harness: one-thread pool");
        std::mem::forget(p);
    });
}

/// Stumps closed under negation; always answers with the first best one.
#[derive(Clone)]
pub struct StumpPool { pub hyps: Vec<StumpH>, margins: Vec<Vec<f64>>, pub min_edge: f64 }
impl StumpPool {
    pub fn gen(rng: &mut Rng, d: &Data) -> Self {
        let k = rng.int(3, 12);
        let mut hyps = vec![];
        for _ in 0..k {
            let f = rng.below(d.d());
            let thr = d.cols[f][rng.below(d.n())];
            let v = *rng.pick(&[1.0, 1.0, 0.6]);
            let mut h = StumpH::gen(rng, d.d());
            h.feat = f; h.thr = thr; h.lo = -v; h.hi = v;
            let mut g = h.clone(); g.lo = v; g.hi = -v;
            hyps.push(h); hyps.push(g);
        }
        let margins = hyps.iter().map(|h| (0..d.n()).map(|i| d.y[i] * h.val(&d.row(i))).collect()).collect();
        StumpPool { hyps, margins, min_edge: 1e-7 }
    }
    pub fn answer(&self, dist: &[f64]) -> (usize, f64) {
        let mut b = (0, f64::NEG_INFINITY);
        for (j, m) in self.margins.iter().enumerate() { let e = dot(m, dist); if e > b.1 + 1e-12 { b = (j, e); } }
        b
    }
}

/// The learner given to the logger: answers, counts, and takes its time.
struct Slow<'a> { pool: &'a StumpPool, naps: &'a [Duration], far: bool, calls: &'a Cell<usize>, spent: &'a RefCell<Vec<Duration>>, cap: usize }
impl WeakLearner for Slow<'_> {
    type Hypothesis = StumpH;
    fn name(&self) -> &str { "stumps" }
    fn info(&self) -> Option<Vec<(&str, String)>> { Some(vec![("Stumps in the pool", self.pool.hyps.len().to_string()), ("Naps in turn", self.naps.len().to_string())]) }
    fn produce(&self, _: &Sample, dist: &[f64]) -> StumpH {
        let t0 = Instant::now();
        let k = self.calls.get();
        self.calls.set(k + 1);
        if k >= self.cap { std::panic::panic_any(RoundCap(self.cap)); }
        let (j, e) = self.pool.answer(dist);
        if e.is_nan() || e <= self.pool.min_edge { std::panic::panic_any(RoundCap(0)); }
        let nap = self.naps[k % self.naps.len()];
        if self.far { clock::advance(nap); } else if !nap.is_zero() { std::thread::sleep(nap); }
        let h = self.pool.hyps[j].clone();
        self.spent.borrow_mut().push(t0.elapsed());
        h
    }
}

#[derive(Clone, Copy)]
enum Obj { Soft(f64), Hard, Exp }
struct RecObj<'a> { obj: Obj, calls: &'a RefCell<Vec<*const Sample>>, nap: Duration }
fn objective<H: Classifier>(o: Obj, s: &Sample, h: &H) -> f64 {
    match o { Obj::Soft(nu) => SoftMarginObjective::new(nu).eval(s, h), Obj::Hard => HardMarginObjective::new().eval(s, h), Obj::Exp => ExponentialLoss::new().eval(s, h) }
}
impl<H: Classifier> ObjectiveFunction<H> for RecObj<'_> {
    fn name(&self) -> &str { "recorded" }
    fn eval(&self, s: &Sample, h: &H) -> f64 { self.calls.borrow_mut().push(s); clock::advance(self.nap); objective(self.obj, s, h) }
}
fn loss<H: Classifier>(kind: usize, s: &Sample, h: &H) -> f64 {
    let y = s.target();
    let n = y.len() as f64;
    match kind {
        0 => h.predict_all(s).iter().zip(y).filter(|(p, y)| **p as f64 != **y).count() as f64 / n,
        1 => h.confidence_all(s).iter().zip(y).map(|(c, y)| (c - y).powi(2)).sum::<f64>() / n,
        _ => h.confidence_all(s).iter().zip(y).map(|(c, y)| (1.0 - c * y).max(0.0)).sum::<f64>(),
    }
}

struct Setup { train: Sample, test: Sample, d: Data, pool: StumpPool, obj: Obj, loss: usize, naps: Vec<Duration>, /// whether the naps are taken by moving the clock
 far: bool, /// how long an evaluation takes (by moving the clock)
 eval: Duration, limit: Option<Limit>, print: usize, new: bool, again: bool }
#[derive(Clone, Copy, Debug)]
enum Limit { Millis(u128), Secs(u64), Mins(u64) }
impl Limit { fn millis(self) -> u128 { match self { Limit::Millis(m) => m, Limit::Secs(s) => s as u128 * 1000, Limit::Mins(m) => m as u128 * 60_000 } } }

const CAP: usize = 400;

/// What an unlogged run of the same booster does, round by round.
struct Reference<O> { lines: Vec<(f64, f64, f64)>, out: Option<O>, ended: bool }

fn reference<B, O>(mut b: B, su: &Setup, rounds: usize) -> Result<Reference<O>, LibErr>
where B: Booster<StumpH, Output = O> + Research<Output = O>, O: Classifier {
    let (calls, spent) = (Cell::new(0), RefCell::new(vec![]));
    let l = Slow { pool: &su.pool, naps: &[Duration::ZERO], far: false, calls: &calls, spent: &spent, cap: CAP };
    try_lib(|| {
        let mut lines = vec![];
        let mut ended = false;
        b.preprocess(&l);
        for it in 1..=rounds {
            let f = b.boost(&l, it);
            let c = b.current_hypothesis();
            lines.push((objective(su.obj, &su.train, &c), loss(su.loss, &su.train, &c), loss(su.loss, &su.test, &c)));
            if let ControlFlow::Break(_) = f { ended = true; break; }
        }
        Reference { lines, out: Some(b.postprocess(&l)), ended }
    })
}

fn confs<O: Classifier>(o: &O, su: &Setup) -> Vec<f64> { let mut v = o.confidence_all(&su.train); v.extend(o.confidence_all(&su.test)); v }
fn same(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits()) }

fn judge<B, O>(cx: &mut Cx, name: &str, su: &Setup, make: impl Fn() -> B) -> Res
where B: Booster<StumpH, Output = O> + Research<Output = O>, O: Classifier {
    let (calls, spent) = (Cell::new(0), RefCell::new(vec![]));
    let oc = RefCell::new(vec![]);
    let lc = RefCell::new(vec![]);
    let l = Slow { pool: &su.pool, naps: &su.naps, far: su.far, calls: &calls, spent: &spent, cap: CAP };
    let kind = su.loss;
    let lf = |s: &Sample, h: &O| -> f64 { lc.borrow_mut().push(s as *const Sample); clock::advance(su.eval); loss(kind, s, h) };
    let path = cx.file("csv");
    if cx.rng.bool(0.3) { std::fs::write(&path, "something old that is longer than the header of a log file\n1,2,3,4\n").expect("harness: write"); }
    let obj = RecObj { obj: su.obj, calls: &oc, nap: su.eval };
    let mut logger = if su.new {
        let mut lg = Logger::new(make(), l, obj, lf, &su.train, &su.test).print_every(su.print);
        if let Some(m) = su.limit { lg = match m { Limit::Millis(m) => lg.time_limit_as_millis(m), Limit::Secs(s) => lg.time_limit_as_secs(s), Limit::Mins(m) => lg.time_limit_as_mins(m) }; }
        lg
    } else {
        let mut lg = LoggerBuilder::new().test_sample(&su.test).train_sample(&su.train).weak_learner(l).objective_function(obj).loss_function(lf).booster(make()).print_every(su.print);
        if let Some(m) = su.limit { lg = match m { Limit::Millis(m) => lg.time_limit_as_millis(m), Limit::Secs(s) => lg.time_limit_as_secs(s), Limit::Mins(m) => lg.time_limit_as_mins(m) }; }
        lg.build()
    };
    for again in 0..if su.again { 2 } else { 1 } {
        calls.set(0); spent.borrow_mut().clear(); oc.borrow_mut().clear(); lc.borrow_mut().clear();
        let t0 = Instant::now();
        let out = match try_lib(|| logger.run(&path)) {
            Ok(Ok(o)) => o,
            Ok(Err(e)) => return viol("io", format!("{name}: logging to a writable file fails: {e}")),
            Err(LibErr::RoundCap(_)) => return inconclusive("no edge left"),
            Err(LibErr::Panic(m)) => return viol(format!("panic:{name}"), format!("logged run of {name} panicked: {m}")),
        };
        let wall = t0.elapsed();
        // what the evaluations took does not count
        let evals = su.eval * (oc.borrow().len() + lc.borrow().len()) as u32;
        let real = wall.saturating_sub(evals);
        let text = std::fs::read_to_string(&path).expect("harness: read");
        let mut it = text.lines();
        let head = it.next().unwrap_or("");
        ensure!(head == "ObjectiveValue,TrainLoss,TestLoss,Time", "header", "{name}: log starts with {head:?}");
        let mut lines: Vec<(f64, f64, f64, u128)> = vec![];
        for (k, s) in it.enumerate() {
            let f: Vec<&str> = s.split(',').collect();
            let p = if f.len() == 4 { match (f[0].parse(), f[1].parse(), f[2].parse(), f[3].parse()) { (Ok(a), Ok(b), Ok(c), Ok(d)) => Some((a, b, c, d)), _ => None } } else { None };
            match p { Some(v) => lines.push(v), None => return viol("line", format!("{name}: line {} of the log is {s:?}", k + 1)) }
        }
        ensure!(!lines.is_empty(), "lines", "{name}: the log has no line");
        // the unlogged run
        let r = match reference(make(), su, lines.len()) { Ok(r) => r, Err(LibErr::RoundCap(_)) => return inconclusive("no edge left"), Err(LibErr::Panic(m)) => return viol(format!("panic:{name}"), format!("unlogged run of {name} panicked, the logged one did not: {m}")) };
        ensure!(r.lines.len() == lines.len(), "rounds", "{name}: {} lines are logged, the run has {} rounds", lines.len(), r.lines.len());
        for (t, (a, b)) in lines.iter().zip(&r.lines).enumerate() {
            let at = |w: &str, x: f64, y: f64| -> Res { ensure!(x.to_bits() == y.to_bits() || (x - y).abs() <= 1e-12 * y.abs(), format!("{w}:{name}"), "{name} round {}: {w} is logged as {x}, but is {y} for the vote after that round{}", t + 1, if again == 1 { " (second run of the same logger)" } else { "" }); Ok(()) };
            at("objective", a.0, b.0)?; at("training loss", a.1, b.1)?; at("test loss", a.2, b.2)?;
            cx.count("log lines compared", 1);
        }
        for (k, s) in oc.borrow().iter().enumerate() { ensure!(std::ptr::eq(*s, &su.train), "objective-sample", "{name}: evaluation {} of the objective is not on the training sample", k + 1); }
        for s in lc.borrow().iter() { ensure!(std::ptr::eq(*s, &su.train) || std::ptr::eq(*s, &su.test), "loss-sample", "{name}: the loss is evaluated on a foreign sample"); }
        // time
        let mut low = Duration::ZERO;
        let sp = spent.borrow();
        for t in 0..lines.len() {
            if t < sp.len() { low += sp[t]; }
            ensure!(t == 0 || lines[t].3 >= lines[t - 1].3, "time-decreases", "{name}: the time column goes from {} to {}", lines[t - 1].3, lines[t].3);
            ensure!(lines[t].3 + 1 >= low.as_millis(), "time-short", "{name} round {}: the log gives {} ms, the learner alone has taken {low:?}", t + 1, lines[t].3);
        }
        ensure!(lines.last().unwrap().3 <= real.as_millis() + 1, "time-long", "{name}: the log gives {} ms, the whole call took {wall:?}, evaluations {evals:?} of it", lines.last().unwrap().3);
        cx.max("milliseconds logged", lines.last().unwrap().3 as f64);
        // the end
        let lim = su.limit.map(|l| l.millis()).unwrap_or(u128::MAX);
        for (t, x) in lines.iter().enumerate() { ensure!(t + 1 == lines.len() || x.3 <= lim, "limit-ignored", "{name}: round {} ends after {} ms, beyond the limit of {lim} ms, but the run goes on", t + 1, x.3); }
        let tle = lines.last().unwrap().3 > lim;
        ensure!(tle || r.ended, "stopped", "{name}: the log ends after {} rounds and {} ms (limit {lim} ms), but the booster has not finished", lines.len(), lines.last().unwrap().3);
        if tle { cx.count("runs ended by the time limit", 1); } else { cx.count("runs that finished", 1); }
        let (ca, cb) = (lib("confidence_all", || confs(&out, su))?, confs(r.out.as_ref().unwrap(), su));
        ensure!(same(&ca, &cb), format!("result:{name}"), "{name}: the logged run returns another hypothesis than the unlogged one after {} rounds: confidences {:?} and {:?}", lines.len(), &ca[..ca.len().min(8)], &cb[..cb.len().min(8)]);
        // ... and as one that never looks at intermediate hypotheses
        if !tle {
            let (c2, s2) = (Cell::new(0), RefCell::new(vec![]));
            let l2 = Slow { pool: &su.pool, naps: &[Duration::ZERO], far: false, calls: &c2, spent: &s2, cap: CAP };
            if let Ok(o) = try_lib(|| make().run(&l2)) {
                let cc = confs(&o, su);
                ensure!(same(&ca, &cc), format!("result:{name}"), "{name}: the logged run returns another hypothesis than Booster::run: confidences {:?} and {:?}", &ca[..ca.len().min(8)], &cc[..cc.len().min(8)]);
                cx.count("results compared with Booster::run", 1);
            }
        }
        if lines.len() >= 2 { let v: Vec<f64> = lines.iter().map(|l| l.0).collect(); cx.seen(hash_f64s(crate::rng::hash_str(name), &v)); }
        if again == 0 { cx.note(format!("{name} n={} limit {:?}: {} lines, last {:?}, took {wall:?}", su.d.n(), su.limit, lines.len(), lines.last().unwrap())); }
    }
    let _ = std::fs::remove_file(&path);
    Ok(())
}

fn setup(cx: &mut Cx, hi: usize) -> Res<Setup> {
    let n = gen_n(&mut cx.rng, 2, hi);
    let dd = cx.rng.int(1, 3);
    let d = gen_binary(&mut cx.rng, n, dd, &[0, 1, 3]);
    let m = cx.rng.int(2, 20);
    let mut e = gen_binary(&mut cx.rng, m, dd, &[0, 1, 3]);
    e.names = d.names.clone();
    let pool = StumpPool::gen(&mut cx.rng, &d);
    let obj = match cx.rng.below(4) { 0 => Obj::Hard, 1 => Obj::Exp, _ => Obj::Soft(gen_nu(&mut cx.rng, n)) };
    Ok(Setup { train: d.dense()?, test: e.dense()?, d, pool, obj, loss: cx.rng.below(3), naps: vec![Duration::ZERO], far: false, eval: Duration::ZERO, limit: None,
        print: *cx.rng.pick(&[1, 2, 7, 100, usize::MAX]), new: cx.rng.bool(0.5), again: cx.rng.bool(0.25) })
}
fn params(rng: &mut Rng, a: Algo, n: usize) -> Params {
    Params { nu: gen_nu(rng, n), tol: *rng.pick(&[0.2, 0.1, 0.05]), kappa: *rng.pick(&[0.2, 0.4]), gamma: *rng.pick(&[0.1, 0.2, 0.3]), quit: a.quits().then(|| rng.int(1, 25)) }
}

fn run_one(cx: &mut Cx, su: &Setup) -> Res {
    sequential();
    if cx.rng.bool(0.08) { return judge(cx, "GraphSepBoost", su, || GraphSepBoost::init(&su.train)); }
    let a = *cx.rng.pick(&Algo::all());
    let p = params(&mut cx.rng, a, su.d.n());
    with_booster!(a, &p, &su.train, |mk| judge(cx, &a.name(), su, mk))
}

fn logged_case(cx: &mut Cx) -> Res { let su = setup(cx, 24)?; run_one(cx, &su) }

/// Rounds that take time, and limits on it.
fn timed_case(cx: &mut Cx) -> Res {
    let mut su = setup(cx, 16)?;
    let r = &mut cx.rng;
    // fractions of a millisecond on purpose
    su.naps = (0..r.int(1, 4)).map(|_| Duration::from_micros(match r.below(3) { 0 => r.int(100, 900), 1 => r.int(1000, 2900), _ => 0 } as u64)).collect();
    su.limit = match r.below(4) { 0 => None, 1 => Some(Limit::Millis(0)), 2 => Some(Limit::Millis(r.int(1, 12) as u128)), _ => Some(Limit::Secs(r.int(0, 1) as u64)) };
    su.again = false;
    run_one(cx, &su)
}

/// Seconds, minutes, hours or weeks that pass on a clock moved on by the learner, the objective and the loss.
fn distant_case(cx: &mut Cx) -> Res {
    let Some(_clock) = clock::shifted() else { return Ok(()) };
    let mut su = setup(cx, 10)?;
    let r = &mut cx.rng;
    su.far = true;
    su.naps = (0..r.int(1, 4)).map(|_| span(r)).collect();
    if r.bool(0.6) { su.eval = span(r); }
    su.limit = match r.below(7) {
        0 => None,
        1 | 2 => Some(Limit::Millis(if r.bool(0.5) { span(r).as_millis() } else {
            // (limits that have little to do with their remainder modulo the sizes of machine words)
            (1_u128 << *r.pick(&[31, 32, 32, 53, 63, 64, 64, 100])) * r.int(1, 3) as u128 + r.below(5000) as u128
        })),
        3 | 4 => Some(Limit::Secs(span(r).as_secs())), _ => Some(Limit::Mins(span(r).as_secs() / 60)) };
    cx.count("runs on a moved clock", 1);
    run_one(cx, &su)
}
fn span(r: &mut Rng) -> Duration {
    let top = *r.pick(&[2e3, 2e3, 9e4, 9e4, 4e6, 2e8, 1e10]);
    Duration::from_micros((1e3 * r.range(0.0, top)) as u64)
}

/// Runs of more than a second against limits of one second and one minute.
fn long_case(cx: &mut Cx) -> Res {
    let mut su = setup(cx, 8)?;
    su.naps = vec![Duration::ZERO; 60];
    su.naps[0] = Duration::from_millis(1150);
    su.limit = Some(match cx.index % 3 { 0 => Limit::Secs(1), 1 => Limit::Mins(1), _ => Limit::Millis(1000) });
    su.again = false;
    sequential();
    let p = Params { quit: Some(6), tol: 1e-3, ..Params::default() };
    judge(cx, "MadaBoost", &su, || MadaBoost::init(&su.train).tolerance(p.tol).force_quit_at(6))
}

fn unwritable_case(cx: &mut Cx) -> Res {
    let su = setup(cx, 10)?;
    sequential();
    let (calls, spent) = (Cell::new(0), RefCell::new(vec![]));
    let oc = RefCell::new(vec![]);
    let l = Slow { pool: &su.pool, naps: &su.naps, far: su.far, calls: &calls, spent: &spent, cap: CAP };
    let kind = su.loss;
    let dir = cx.scratch.join("no such directory");
    let mut lg = Logger::new(AdaBoost::init(&su.train).force_quit_at(5), l, RecObj { obj: su.obj, calls: &oc, nap: su.eval }, move |s: &Sample, h: &WeightedMajority<StumpH>| loss(kind, s, h), &su.train, &su.test);
    if cx.index % 2 == 0 {
        let r = lib("Logger::run", || lg.run(dir.join("log.csv")))?;
        ensure!(r.is_err(), "io", "logging to a file in a directory that does not exist succeeds");
        cx.count("unwritable files refused", 1);
    } else {
        // the file takes the header and some lines, then every write fails
        let keep = cx.rng.int(1, 600);
        let pipe = BrokenPipe::new(cx.file("fifo"), keep);
        let path = pipe.path.clone();
        let mut lg = Logger::new(AdaBoost::init(&su.train).tolerance(1e-3).force_quit_at(CAP), Slow { pool: &su.pool, naps: &su.naps, far: su.far, calls: &calls, spent: &spent, cap: CAP }, RecObj { obj: su.obj, calls: &oc, nap: su.eval }, move |s: &Sample, h: &WeightedMajority<StumpH>| loss(kind, s, h), &su.train, &su.test);
        let r = try_lib(|| lg.run(&path));
        pipe.close();
        match r {
            Ok(Err(_)) => cx.count("failing writes reported", 1),
            // (the pipe holds 4096 bytes that nobody reads; a line has at least 8)
            Ok(Ok(_)) => { let k = calls.get(); ensure!(8 * k <= keep + BrokenPipe::CAPACITY, "silent", "a run of {k} rounds logged to a file that takes no more than {} bytes reports success", keep + BrokenPipe::CAPACITY); cx.count("failing writes too late to notice", 1) }
            Err(LibErr::RoundCap(_)) => return inconclusive("no edge left"),
            Err(LibErr::Panic(m)) => return viol("panic:failing write", format!("Logger::run panicked, instead of returning the error, when a write to the log failed: {m}")),
        }
    }
    cx.seen(cx.index as u64);
    Ok(())
}

/// What a console run is: everything follows from one number, so that the child and the parent agree on it.
struct Console { su: Setup, algo: Algo, p: Params, interval: Option<usize> }
fn console(cx: &mut Cx, seed: u64) -> Res<Console> {
    cx.rng = Rng::new(seed);
    let mut su = setup(cx, 16)?;
    let r = &mut cx.rng;
    su.naps = vec![Duration::ZERO; r.int(1, 3)];
    su.limit = match r.below(8) {
        0 => Some(Limit::Millis(r.int(0, 3) as u128)), 1 => Some(Limit::Millis(r.int(900, 1100) as u128)), 2 => Some(Limit::Secs(r.int(5, 300) as u64)),
        3 => Some(Limit::Mins(r.int(1, 130) as u64)), 4 => Some(Limit::Millis(r.int(60_000, 9_000_000) as u128)), _ => None };
    if matches!(su.limit, Some(Limit::Millis(m)) if m <= 3) { su.naps[0] = Duration::from_micros(1500); }
    if r.bool(0.5) { su.far = true; su.naps = (0..su.naps.len()).map(|_| span(r)).collect(); if r.bool(0.3) { su.eval = span(r); } }
    // (the default interval can only be seen in long runs)
    let long = r.bool(0.5);
    let algo = if long { *r.pick(&[Algo::Ada, Algo::AdaV, Algo::Mada]) } else { *r.pick(&Algo::all()) };
    let mut p = params(r, algo, su.d.n());
    if long { p.quit = Some(r.int(95, 320)); p.tol = 1e-3; }
    let interval = if long && r.bool(0.6) { None } else { Some(*r.pick(&[1, 1, 2, 3, 7, 100, usize::MAX])) };
    Ok(Console { su, algo, p, interval })
}

/// `vmon console <seed> <log>`: the child whose standard output is what the logger prints.
pub fn console_child(cx: &mut Cx, seed: u64, path: &str) -> i32 {
    sequential();
    let Ok(c) = console(cx, seed) else { return 7 };
    let _clock = clock::shifted();
    fn go<B, O>(c: &Console, b: B, path: &str) -> i32 where B: Booster<StumpH, Output = O> + Research<Output = O>, O: Classifier {
        let (calls, spent, oc) = (Cell::new(0), RefCell::new(vec![]), RefCell::new(vec![]));
        let su = &c.su;
        let l = Slow { pool: &su.pool, naps: &su.naps, far: su.far, calls: &calls, spent: &spent, cap: CAP };
        let obj = RecObj { obj: su.obj, calls: &oc, nap: su.eval };
        let kind = su.loss;
        let lf = |s: &Sample, h: &O| -> f64 { clock::advance(su.eval); loss(kind, s, h) };
        let mut lg = if su.new {
            let mut lg = Logger::new(b, l, obj, lf, &su.train, &su.test);
            if let Some(k) = c.interval { lg = lg.print_every(k); }
            match su.limit { None => lg, Some(Limit::Millis(m)) => lg.time_limit_as_millis(m), Some(Limit::Secs(s)) => lg.time_limit_as_secs(s), Some(Limit::Mins(m)) => lg.time_limit_as_mins(m) }
        } else {
            let mut lg = LoggerBuilder::new().booster(b).train_sample(&su.train).test_sample(&su.test).weak_learner(l).objective_function(obj).loss_function(lf);
            if let Some(k) = c.interval { lg = lg.print_every(k); }
            match su.limit { None => lg, Some(Limit::Millis(m)) => lg.time_limit_as_millis(m), Some(Limit::Secs(s)) => lg.time_limit_as_secs(s), Some(Limit::Mins(m)) => lg.time_limit_as_mins(m) }.build()
        };
        match try_lib(|| lg.run(path)) { Ok(Ok(_)) => 0, Ok(Err(_)) => 4, Err(LibErr::RoundCap(_)) => 5, Err(LibErr::Panic(m)) => { eprintln!("{m}"); 6 } }
    }
    with_booster!(c.algo, &c.p, &c.su.train, |mk| go(&c, mk(), path))
}

/// The text of a duration as the logger writes it.
fn duration_text(ms: u128) -> String {
    let (s, m, h) = (ms / 1000, ms / 60_000, ms / 3_600_000);
    if s == 0 { format!("0.{ms:03}s") } else if m == 0 { format!("{s:02}.{:03}s", ms % 1000) } else if h == 0 { format!("{m:02}m {:02}s", s % 60) } else { format!("{h:02}h {:02}m", m % 60) }
}

fn named<B: Booster<StumpH>>(b: &B) -> String { b.name().to_string() }

fn console_case(cx: &mut Cx) -> Res {
    let seed = cx.rng.next();
    let path = cx.file("csv");
    let c = console(cx, seed)?;
    let exe = std::env::current_exe().expect("harness: own path");
    let out = std::process::Command::new(exe).args(["console", &seed.to_string(), path.to_str().unwrap()]).env_remove("CLICOLOR_FORCE").output().expect("harness: child");
    let log = std::fs::read_to_string(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    let text = { // without colours
        let raw = String::from_utf8_lossy(&out.stdout).to_string();
        let mut t = String::new();
        let mut it = raw.chars();
        while let Some(ch) = it.next() { if ch == '\u{1b}' { for d in it.by_ref() { if d == 'm' { break; } } } else { t.push(ch); } }
        t
    };
    let (su, who) = (&c.su, format!("{} (interval {:?}, limit {:?})", c.algo.name(), c.interval, c.su.limit));
    match out.status.code() {
        Some(0) => {}
        Some(5) => return inconclusive("no edge left"),
        Some(6) => return viol("panic:console", format!("{who}: the logged run panicked: {}", String::from_utf8_lossy(&out.stderr))),
        x => panic!("harness: child ended with {x:?}: {}", String::from_utf8_lossy(&out.stderr)),
    }
    let lines: Vec<Vec<f64>> = log.lines().skip(1).map(|l| l.split(',').map(|x| x.parse().unwrap_or(f64::NAN)).collect()).collect();
    ensure!(!lines.is_empty() && lines.iter().all(|l| l.len() == 4), "lines", "{who}: the log file is {log:?}");
    let last = lines.len();
    // the settings
    let value = |key: &str| text.lines().find_map(|l| l.trim_start().strip_prefix("+ ").and_then(|r| r.strip_prefix(key)).map(|v| v.trim().to_string()));
    let booster_name = with_booster!(c.algo, &c.p, &su.train, |mk| named(&mk()));
    for (key, want) in [("Booster", booster_name), ("Weak Learner", "stumps".to_string()), ("Objective", "recorded".to_string()), ("Time Limit", su.limit.map(|l| duration_text(l.millis())).unwrap_or("Nothing".into())), ("# of examples", su.d.n().to_string()),
        ("Stumps in the pool", su.pool.hyps.len().to_string()), ("Naps in turn", su.naps.len().to_string())] {
        let v = value(key);
        ensure!(v.as_deref() == Some(want.as_str()), format!("printed:{key}"), "{who}: printed is {key}: {v:?}, it is {want:?}; the output:\n{}", &text[..text.len().min(1500)]);
    }
    // the rounds
    let tle = su.limit.is_some_and(|l| lines[last - 1][3] > l.millis() as f64);
    let every = c.interval.unwrap_or(100);
    let mut want: Vec<(&str, usize)> = vec![];
    if every != usize::MAX { for t in 1..=last { if t % every == 0 && !(tle && t == last) { want.push(("[LOG]", t)); } } }
    if tle { want.push(("[TLE]", last)); } else if every != usize::MAX { want.push(("[FIN]", last)); }
    let mut got = vec![];
    for l in text.lines().filter(|l| l.starts_with('[')) {
        let f: Vec<&str> = l.split_whitespace().collect();
        let t: usize = f.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
        ensure!((1..=last).contains(&t) && f.len() >= 6, "printed-round", "{who}: printed is {l:?}, a run of {last} rounds is logged");
        let row = &lines[t - 1];
        for k in 0..3 {
            let x: f64 = f[2 + k].parse().unwrap_or(f64::NAN);
            ensure!((x - row[k]).abs() <= 0.5001e-5 + 1e-12 * row[k].abs() || x == row[k], "printed-value", "{who}: round {t} is printed as {l:?} and logged as {row:?}");
        }
        let want = duration_text(row[3] as u128);
        ensure!(f[5..].join(" ") == want, "printed-time", "{who}: round {t} is printed as {l:?} and logged as {row:?}, a time of {want}");
        got.push((f[0], t));
        cx.count("printed rounds compared", 1);
    }
    ensure!(got == want, "printed-rounds", "{who}: printed are {got:?}, a run of {last} rounds{} should print {want:?}", if tle { ", ended by the limit," } else { "" });
    cx.note(format!("{who}: {last} rounds, {} printed", got.len()));
    cx.seen(hash_f64s(got.len() as u64, &lines.iter().map(|l| l[0]).collect::<Vec<_>>()));
    Ok(())
}

pub fn p21() -> Check {
    Check {
        id: "P21",
        rule: "a run counts when at least two lines were logged; distinct = distinct objective histories per booster",
        assumptions: &["the booster and learner run on one thread, so that the unlogged run is comparable bit by bit", "a time in the log may be 1 ms short of the time the learner took"],
        families: vec![fam("logged", 3000, 40000, logged_case), fam("timed", 600, 6000, timed_case), fam("long", 24, 90, long_case), fam("distant", 1500, 20000, distant_case), fam("unwritable", 60, 400, unwritable_case), fam("console", 250, 2500, console_case)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
