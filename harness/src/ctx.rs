//! Case runner: executes seeded cases in parallel, isolates panics, collects
//! observations, writes evidence and replay files, gives three-valued verdicts.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::{atomic::{AtomicUsize, AtomicBool, Ordering}, Arc, Mutex};
use std::time::{Duration, Instant};
use serde_json::{json, Value};
use crate::rng::{hash_str, Rng};

/// What a case found wrong.
#[derive(Debug, Clone)]
pub struct Viol { pub sig: String, pub msg: String }

#[derive(Debug, Clone)]
pub enum Stop { Viol(Viol), Inconclusive(String) }
impl From<Viol> for Stop { fn from(v: Viol) -> Self { Stop::Viol(v) } }
pub type Res<T = ()> = Result<T, Stop>;

pub fn viol<T>(sig: impl ToString, msg: impl ToString) -> Res<T> {
    Err(Stop::Viol(Viol { sig: sig.to_string(), msg: msg.to_string() }))
}
pub fn inconclusive<T>(msg: impl ToString) -> Res<T> { Err(Stop::Inconclusive(msg.to_string())) }

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return $crate::ctx::viol($sig, format!($($a)*)); } };
}

/// Payload the recording learners throw to leave a run that exceeds its round cap.
pub struct RoundCap(pub usize);

/// How a call into the library ended abnormally.
pub enum LibErr { Panic(String), RoundCap(usize) }

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_LOC: RefCell<String> = const { RefCell::new(String::new()) };
}
static GLOBAL_LOC: Mutex<String> = Mutex::new(String::new());

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
    else { "<non-string panic>".into() }
}

static REPORT: Mutex<Option<std::fs::File>> = Mutex::new(None);

/// What the library prints (progress logs) must not mix with the verdict: its standard output goes to /dev/null,
/// the report to the original one.
pub fn divert_stdout() {
    use std::os::fd::{AsRawFd, FromRawFd};
    extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; }
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
    unsafe {
        let keep = dup(1);
        if keep < 0 { return; }
        *REPORT.lock().unwrap() = Some(std::fs::File::from_raw_fd(keep));
        dup2(null.as_raw_fd(), 1);
    }
}
pub fn report(s: &str) {
    use std::io::Write;
    match REPORT.lock().unwrap().as_mut() { Some(f) => { let _ = writeln!(f, "{s}"); } None => println!("{s}") }
}
macro_rules! say { ($($a:tt)*) => { $crate::ctx::report(&format!($($a)*)) }; }

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_LOC.with(|l| *l.borrow_mut() = loc.clone());
        if let Ok(mut g) = GLOBAL_LOC.lock() { *g = loc; }
    }));
}

/// Run library code; a panic is returned, not propagated.
pub fn try_lib<T>(f: impl FnOnce() -> T) -> Result<T, LibErr> {
    LAST_LOC.with(|l| l.borrow_mut().clear());
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if let Some(rc) = p.downcast_ref::<RoundCap>() { return Err(LibErr::RoundCap(rc.0)); }
            let mut loc = LAST_LOC.with(|l| l.borrow().clone());
            if loc.is_empty() { loc = GLOBAL_LOC.lock().map(|g| g.clone()).unwrap_or_default(); }
            Err(LibErr::Panic(format!("{} [at {}]", payload_str(&*p), loc)))
        }
    }
}

/// Run library code on input for which it must not panic.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match try_lib(f) {
        Ok(v) => Ok(v),
        Err(LibErr::RoundCap(n)) => inconclusive(format!("{what}: monitor's round cap {n} reached")),
        Err(LibErr::Panic(m)) => viol(format!("panic:{what}"), format!("{what} panicked on valid input: {m}")),
    }
}

/// Per-case context.
pub struct Cx {
    pub id: &'static str,
    pub family: String,
    pub index: usize,
    pub rng: Rng,
    pub thorough: bool,
    pub scratch: PathBuf,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub fps: Vec<u64>,
    pub desc: Vec<String>,
    pub verbose: bool,
    file_no: usize,
}
impl Cx {
    pub fn count(&mut self, k: &str, n: u64) { *self.counters.entry(k.to_string()).or_insert(0) += n; }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.maxima.entry(k.to_string()).or_insert(f64::NEG_INFINITY);
        if v > *e { *e = v; }
    }
    /// Record one distinct non-trivial observation (fingerprint).
    pub fn seen(&mut self, fp: u64) { self.fps.push(fp); }
    pub fn note(&mut self, s: impl ToString) { let s = s.to_string(); if self.verbose { eprintln!("  . {s}"); } self.desc.push(s); }
    pub fn file(&mut self, ext: &str) -> PathBuf {
        self.file_no += 1;
        self.scratch.join(format!("{}-{}-{}-{}.{}", self.id, self.family.replace('/', "_"), self.index, self.file_no, ext))
    }
}

pub type CaseFn = fn(&mut Cx) -> Res;
pub struct Family { pub name: &'static str, pub quick: usize, pub thorough: usize, pub f: CaseFn }
pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: Vec<Family>,
    /// a case running longer than this (seconds) is counted as stuck
    pub stuck_s: u64,
    /// whether a stuck case violates the property (termination properties)
    pub stuck_is_violation: bool,
    /// what the check makes of a case's outcome, if it is not the case's own verdict
    pub judge: Option<fn(Res) -> Res>,
}

pub fn fam(name: &'static str, quick: usize, thorough: usize, f: CaseFn) -> Family { Family { name, quick, thorough, f } }

#[derive(Default)]
struct Agg {
    done: usize,
    held: usize,
    inconclusive: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, f64>,
    fps: HashSet<u64>,
    samples: Vec<Value>,
    viols: Vec<(String, usize, Viol, Vec<String>, (u64, bool))>,
    harness_errors: Vec<String>,
    per_family: BTreeMap<String, u64>,
}

pub struct Opts { pub seed: u64, pub thorough: bool, pub root: PathBuf, pub scratch: PathBuf, pub budget_s: u64, pub threads: usize, pub scale: f64, pub variant: Option<String> }

fn case_rng(seed: u64, id: &str, family: &str, index: usize) -> Rng {
    Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash_str(id) ^ hash_str(family).rotate_left(17) ^ (index as u64).wrapping_mul(0xD1B54A32D192ED03))
}

pub fn make_cx(id: &'static str, family: &str, index: usize, o: &Opts) -> Cx {
    Cx {
        id, family: family.to_string(), index, rng: case_rng(o.seed, id, family, index), thorough: o.thorough,
        scratch: o.scratch.clone(), counters: Default::default(), maxima: Default::default(),
        fps: vec![], desc: vec![], verbose: false, file_no: 0,
    }
}

struct KnownFinding { prop: String, sig: String, what: String }
fn known_findings(root: &Path) -> Vec<KnownFinding> {
    // lines: KNOWN property=<id> sig=<signature> <what fails>
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("KNOWN property=") {
                let mut it = rest.splitn(3, ' ');
                let prop = it.next().unwrap_or("").to_string();
                let sig = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
                let what = it.next().unwrap_or("").to_string();
                out.push(KnownFinding { prop, sig, what });
            }
        }
    }
    out
}

/// Multiplies the number of cases of every family (chosen for 5-20 s in the quick tier on eight cores; the thorough
/// tier is cut by its time budget).
fn depth(id: &str, thorough: bool) -> f64 {
    let q = match id { "P15" | "P16" | "P17" | "P18" | "P19" => 5.0, "P21" | "P23" | "P25" => 1.0, "P14" => 80.0, "P01" | "P02" | "P03" | "P22" | "P26" | "P27" | "P09" | "P10" | "P13" | "P31" | "P32" => 20.0, _ => 8.0 };
    if thorough && id != "P25" { 4.0 * q } else { q }
}

/// Cases (family, seed, index) of the thorough tier that once failed and are rare: run first, whatever the seed.
fn pins(id: &str) -> &'static [(&'static str, u64, usize)] {
    match id {
        "P27" => &[("totalboost", 1, 17274), ("totalboost", 1, 33090), ("totalboost", 1, 60709), ("totalboost", 1, 85337), ("softboost", 1, 22383), ("erlpboost", 1, 25896)],
        "P32" => &[("totalboost", 2, 336)],
        _ => &[],
    }
}

pub fn run_check(check: &Check, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let depth = if o.variant.is_some() { 1.0 } else { depth(check.id, o.thorough) };
    // interleave families so that a time cap cuts all of them evenly
    let mut queue: Vec<(usize, usize, f64, Option<u64>)> = vec![];
    for (name, seed, k) in pins(check.id) {
        if let Some(fi) = check.families.iter().position(|f| f.name == *name) { queue.push((fi, *k, -1.0, Some(*seed))); }
    }
    for (fi, f) in check.families.iter().enumerate() {
        let n = ((if o.thorough { f.thorough } else { f.quick }) as f64 * o.scale * depth).ceil() as usize;
        for k in 0..n { queue.push((fi, k, (k as f64 + 0.5) / n as f64, None)); }
    }
    queue.sort_by(|a, b| a.2.partial_cmp(&b.2).unwrap());
    let queue = Arc::new(queue);
    let next = Arc::new(AtomicUsize::new(0));
    let agg = Arc::new(Mutex::new(Agg::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let n_threads = o.threads;
    let slots: Arc<Vec<Mutex<Option<(Instant, String, usize)>>>> = Arc::new((0..n_threads).map(|_| Mutex::new(None)).collect());
    let live = Arc::new(AtomicUsize::new(n_threads));
    let fams: Arc<Vec<(String, CaseFn)>> = Arc::new(check.families.iter().map(|f| (f.name.to_string(), f.f)).collect());
    for ti in 0..n_threads {
        let (queue, next, agg, stop, slots, live, fams) = (queue.clone(), next.clone(), agg.clone(), stop.clone(), slots.clone(), live.clone(), fams.clone());
        let (id, judge) = (check.id, check.judge);
        let (seed, thorough, scratch, root) = (o.seed, o.thorough, o.scratch.clone(), o.root.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let o2 = Opts { seed, thorough, scratch, root, budget_s: 0, threads: 1, scale: 1.0, variant: None };
            loop {
                if stop.load(Ordering::Relaxed) { break; }
                let q = next.fetch_add(1, Ordering::Relaxed);
                if q >= queue.len() { break; }
                let (fi, k, _, pin) = queue[q];
                let (name, f) = &fams[fi];
                let began = Instant::now();
                *slots[ti].lock().unwrap() = Some((began, name.clone(), k));
                let mut cx = make_cx(id, name, k, &o2);
                if let Some(seed) = pin { cx.rng = case_rng(seed, id, name, k); cx.thorough = true; }
                let origin = (pin.unwrap_or(seed), thorough || pin.is_some());
                let r = panic::catch_unwind(AssertUnwindSafe(|| f(&mut cx))).map(|r| match judge { Some(j) => j(r), None => r });
                *slots[ti].lock().unwrap() = None;
                let mut a = agg.lock().unwrap();
                a.done += 1;
                *a.per_family.entry(name.clone()).or_insert(0) += 1;
                for (k, v) in &cx.counters { *a.counters.entry(k.clone()).or_insert(0) += v; }
                cx.maxima.insert("slowest case (seconds)".into(), began.elapsed().as_secs_f64());
                for (k, v) in &cx.maxima { let e = a.maxima.entry(k.clone()).or_insert(f64::NEG_INFINITY); if *v > *e { *e = *v; } }
                match r {
                    Ok(Ok(())) => {
                        a.held += 1;
                        a.fps.extend(cx.fps.iter());
                        let seen_fam = a.samples.iter().filter(|s| s["family"] == json!(name)).count();
                        if seen_fam < 2 && !cx.desc.is_empty() { let s = json!({"family": name, "case": k, "seen": cx.desc}); a.samples.push(s); }
                    }
                    Ok(Err(Stop::Inconclusive(m))) => { *a.inconclusive.entry(format!("{name}: {m}")).or_insert(0) += 1; }
                    Ok(Err(Stop::Viol(v))) => { a.viols.push((name.clone(), k, v, cx.desc.clone(), origin)); if a.viols.len() > 40 { stop.store(true, Ordering::Relaxed); } }
                    Err(p) => {
                        let mut loc = LAST_LOC.with(|l| l.borrow().clone());
                        if loc.is_empty() { loc = GLOBAL_LOC.lock().map(|g| g.clone()).unwrap_or_default(); }
                        if let Some(rc) = p.downcast_ref::<RoundCap>() {
                            *a.inconclusive.entry(format!("{name}: round cap {}", rc.0)).or_insert(0) += 1;
                        } else if loc.starts_with("/repo/") {
                            a.viols.push((name.clone(), k, Viol { sig: "panic".into(), msg: format!("library panicked on valid input: {} [at {}]", payload_str(&*p), loc) }, cx.desc.clone(), origin));
                        } else { a.harness_errors.push(format!("{name}#{k}: {} [{}]", payload_str(&*p), loc)); }
                    }
                }
            }
            live.fetch_sub(1, Ordering::SeqCst);
        }).unwrap();
    }
    // monitor
    let mut stuck: Vec<(String, usize)> = vec![];
    let mut timed_out = false;
    loop {
        std::thread::sleep(Duration::from_millis(15));
        let l = live.load(Ordering::SeqCst);
        if l == 0 { break; }
        if t0.elapsed().as_secs() >= o.budget_s { stop.store(true, Ordering::Relaxed); timed_out = true; }
        // an endless case may also show by the memory it takes
        let bloated = resident_gb() > 16.0;
        let mut blocked = 0;
        for s in slots.iter() {
            let g = s.lock().unwrap();
            if let Some((t, n, k)) = &*g {
                if t.elapsed().as_secs() >= check.stuck_s || bloated && t.elapsed().as_millis() > 1000 {
                    blocked += 1;
                    if !stuck.contains(&(n.clone(), *k)) { stuck.push((n.clone(), *k)); }
                }
            }
        }
        if blocked >= l || bloated && blocked > 0 { break; }
        if t0.elapsed().as_secs() >= o.budget_s + check.stuck_s { break; }
    }
    let mut a = agg.lock().unwrap();
    if check.stuck_is_violation {
        for (n, k) in &stuck {
            a.viols.push((n.clone(), *k, Viol { sig: "stuck".into(), msg: format!("run did not finish within {} s or 16 GB (typical cases take milliseconds and kilobytes)", check.stuck_s) }, vec![], (o.seed, o.thorough)));
        }
    } else { for (n, k) in &stuck { *a.inconclusive.entry(format!("{n}: case {k} stuck for {} s", check.stuck_s)).or_insert(0) += 1; } }

    // known findings
    let known = known_findings(&o.root);
    let mut reported: HashSet<String> = HashSet::new();
    let mut n_viol = 0usize;
    let mut exit = 0;
    let mut shown = 0;
    a.viols.sort_by(|x, y| (x.0.as_str(), x.1).cmp(&(y.0.as_str(), y.1)));
    for (fam, k, v, desc, (seed, thorough)) in a.viols.iter() {
        let sig = format!("{fam}/{}", v.sig);
        if let Some(kf) = known.iter().find(|kf| kf.prop == check.id && kf.sig == sig) {
            if reported.insert(sig) { say!("KNOWN-FINDING: property={} {}", check.id, kf.what); }
            continue;
        }
        n_viol += 1;
        exit = 1;
        if shown < 5 && reported.insert(sig.clone()) {
            shown += 1;
            let dir = o.root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}-{}-{}.json", check.id, fam.replace('/', "_"), seed, k));
            let body = json!({"property": check.id, "family": fam, "index": k, "seed": seed, "thorough": thorough, "variant": o.variant,
                "signature": sig, "message": v.msg, "case": desc,
                "replay": format!("/verif/check.sh replay {}", path.display())});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            say!("VIOLATION property={} replay={}", check.id, path.display());
            say!("  {fam}#{k} [{}]: {}", v.sig, v.msg.chars().take(600).collect::<String>());
        }
    }
    for e in a.harness_errors.iter().take(10) { eprintln!("HARNESS-ERROR {e}"); }
    for (m, n) in a.inconclusive.iter().take(20) { eprintln!("inconclusive x{n}: {m}"); }

    let n_inc: u64 = a.inconclusive.values().sum();
    let mut coverage = json!({
        "evaluations": a.done, "held": a.held, "distinct_nontrivial": a.fps.len(),
        "rule": check.rule, "samples": a.samples.iter().take(8).collect::<Vec<_>>(),
        "events": a.counters, "maxima": a.maxima, "per_family": a.per_family,
        "inconclusive": n_inc, "inconclusive_reasons": a.inconclusive, "harness_errors": a.harness_errors.len(),
        "planned": queue.len(), "time_capped": timed_out,
    });
    if let Some(v) = &o.variant { coverage["variant"] = json!(v); }
    let ev = json!({
        "property": check.id, "tier": if o.thorough { "thorough" } else { "quick" }, "seed": o.seed, "level": "exploration",
        "coverage": coverage, "assumptions": check.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": n_viol,
    });
    let ev_path = match &o.variant {
        None => o.root.join("evidence").join(format!("{}.json", check.id)),
        Some(v) => o.root.join("evidence").join(format!("parts-{}-{}.json", check.id, v)),
    };
    let _ = std::fs::create_dir_all(o.root.join("evidence"));
    std::fs::write(&ev_path, serde_json::to_string_pretty(&ev).unwrap()).expect("cannot write evidence");
    say!("{} {}: {} cases, {} distinct non-trivial observations, {} inconclusive, {} harness errors, {} violating cases, {:.1} s",
        check.id, if o.thorough { "thorough" } else { "quick" }, a.done, a.fps.len(), n_inc, a.harness_errors.len(), n_viol, t0.elapsed().as_secs_f64());
    if exit == 0 && a.fps.is_empty() {
        eprintln!("nothing observed: inconclusive");
        exit = 2;
    }
    exit
}

/// A file name under which everything written after the first `keep` bytes is lost: a named pipe of 4096 bytes whose
/// reader goes away. (`close` joins the reader and removes the pipe.)
pub struct BrokenPipe { pub path: PathBuf, t: Option<std::thread::JoinHandle<usize>>, stop: Arc<AtomicBool> }
impl BrokenPipe {
    pub const CAPACITY: usize = 4096;
    pub fn new(path: PathBuf, keep: usize) -> Self {
        use std::io::Read;
        use std::os::fd::AsRawFd;
        use std::os::unix::ffi::OsStrExt;
        use std::os::unix::fs::OpenOptionsExt;
        extern "C" { fn mkfifo(p: *const std::ffi::c_char, mode: u32) -> i32; fn fcntl(fd: i32, cmd: i32, ...) -> i32; }
        // the reader stays until at least one byte has come: a pipe without a reader would keep its writer waiting in `open`
        let keep = keep.max(1);
        let c = std::ffi::CString::new(path.as_os_str().as_bytes()).expect("harness: path");
        assert_eq!(unsafe { mkfifo(c.as_ptr(), 0o600) }, 0, "harness: mkfifo");
        // O_NONBLOCK: a reader that does not wait for the writer
        let mut f = std::fs::OpenOptions::new().read(true).custom_flags(0o4000).open(&path).expect("harness: open pipe");
        assert!(unsafe { fcntl(f.as_raw_fd(), 1031, Self::CAPACITY as i32) } > 0, "harness: pipe size");
        let stop = Arc::new(AtomicBool::new(false));
        let st = stop.clone();
        let t = std::thread::spawn(move || {
            let mut got = 0;
            let t0 = Instant::now();
            let mut buf = [0u8; 512];
            while got < keep && t0.elapsed() < Duration::from_secs(600) {
                let end = st.load(Ordering::SeqCst);
                let want = (keep - got).min(buf.len());
                match f.read(&mut buf[..want]) { Ok(k) if k > 0 => got += k, _ => { if end { break; } std::thread::yield_now(); std::thread::sleep(Duration::from_micros(20)); } }
            }
            got
        });
        BrokenPipe { path, t: Some(t), stop }
    }
    pub fn close(mut self) -> usize {
        self.stop.store(true, Ordering::SeqCst);
        let k = self.t.take().unwrap().join().unwrap_or(0);
        let _ = std::fs::remove_file(&self.path);
        k
    }
}

/// Memory of this process.
fn resident_gb() -> f64 {
    let t = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    t.split(' ').nth(1).and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0) * 4096.0 / 1e9
}
