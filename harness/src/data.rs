//! Synthetic data: generation, serialisation to the file formats, loading.
use std::fmt::Write as _;
use std::fs;
use miniboosts::{Feature, Sample, SampleReader};
use polars::prelude::{DataFrame, NamedFrom, Series};
use crate::ctx::{lib, Cx, Res};
use crate::rng::{hash_f64s, Rng};

#[derive(Clone, Debug)]
pub struct Data { pub cols: Vec<Vec<f64>>, pub y: Vec<f64>, pub names: Vec<String> }

/// Shortest decimal that parses back to the same f64.
pub fn num(x: f64) -> String { format!("{x:?}") }

impl Data {
    pub fn n(&self) -> usize { self.y.len() }
    pub fn d(&self) -> usize { self.cols.len() }
    pub fn row(&self, i: usize) -> Vec<f64> { self.cols.iter().map(|c| c[i]).collect() }
    pub fn fp(&self) -> u64 { let mut h = hash_f64s(7, &self.y); for c in &self.cols { h = hash_f64s(h, c); } h }
    pub fn brief(&self) -> String {
        let mut s = format!("n={} d={}", self.n(), self.d());
        if self.n() * (self.d() + 1) <= 60 { let _ = write!(s, " cols={:?} y={:?}", self.cols, self.y); }
        s
    }
    pub fn subset(&self, ix: &[usize]) -> Data {
        Data { cols: self.cols.iter().map(|c| ix.iter().map(|&i| c[i]).collect()).collect(), y: ix.iter().map(|&i| self.y[i]).collect(), names: self.names.clone() }
    }
    pub fn csv_text(&self, target_pos: usize, target_name: &str, header: bool) -> String {
        let mut s = String::new();
        if header {
            let mut h: Vec<String> = self.names.clone();
            h.insert(target_pos, target_name.to_string());
            s.push_str(&h.join(",")); s.push('\n');
        }
        for i in 0..self.n() {
            let mut r: Vec<String> = self.cols.iter().map(|c| num(c[i])).collect();
            r.insert(target_pos, num(self.y[i]));
            s.push_str(&r.join(",")); s.push('\n');
        }
        s
    }
    /// Zero entries are left out; feature j is written as index j.
    pub fn svm_text(&self) -> String {
        let mut s = String::new();
        for i in 0..self.n() {
            let _ = write!(s, "{}", num(self.y[i]));
            for (j, c) in self.cols.iter().enumerate() { if c[i] != 0.0 { let _ = write!(s, " {}:{}", j, num(c[i])); } }
            s.push('\n');
        }
        s
    }
    /// In-memory dense sample.
    pub fn dense(&self) -> Res<Sample> {
        lib("Sample::from_dataframe", || {
            let cols: Vec<Series> = self.cols.iter().zip(&self.names).map(|(c, n)| Series::new(n, c)).collect();
            let df = DataFrame::new(cols).expect("harness: dataframe");
            Sample::from_dataframe(df, Series::new("target", &self.y)).expect("from_dataframe failed")
        })
    }
    /// Dense sample through a CSV file.
    pub fn via_csv(&self, cx: &mut Cx) -> Res<Sample> {
        let f = cx.file("csv");
        fs::write(&f, self.csv_text(self.d(), "the class", true)).expect("harness: write");
        let r = lib("SampleReader::read(csv)", || SampleReader::default().file(f.clone()).has_header(true).target_feature("the class").read().expect("read failed"));
        let _ = fs::remove_file(&f);
        r
    }
    /// Sparse sample through a SVMLight file. Columns that are entirely zero are dropped by the reader.
    pub fn sparse(&self, cx: &mut Cx) -> Res<Sample> {
        let f = cx.file("svm");
        fs::write(&f, self.svm_text()).expect("harness: write");
        let r = lib("SampleReader::read(svmlight)", || SampleReader::<_, String>::default().file(f.clone()).read().expect("read failed"));
        let _ = fs::remove_file(&f);
        r
    }
    /// Make sure no column is entirely zero (so that dense and sparse forms have the same columns).
    pub fn no_zero_cols(&mut self, rng: &mut Rng) {
        let n = self.n();
        for c in self.cols.iter_mut() { if c.iter().all(|&v| v == 0.0) { let i = rng.below(n); c[i] = 1.0; } }
    }
    /// names as the SVMLight reader assigns them
    pub fn svm_names(&mut self) { self.names = (0..self.d()).map(|j| format!("Feat. [{}]", j + 1)).collect(); }
}

/// Direct iteration over a feature without going through the library's own indexing.
pub fn feature_values(f: &Feature, n: usize) -> Vec<f64> {
    match f {
        Feature::Dense(d) => d.sample.clone(),
        Feature::Sparse(s) => { let mut v = vec![0.0; n]; for &(i, x) in s.sample.iter() { if i < n { v[i] = x; } } v }
    }
}

pub fn gen_names(rng: &mut Rng, d: usize) -> Vec<String> {
    let style = rng.below(5);
    if style == 4 {
        // names contained in each other, or differing in case only
        let mut v: Vec<String> = vec![];
        let stem = *rng.pick(&["y", "class", "x1", "Feat. [1]"]);
        while v.len() < d {
            let mut s = stem.to_string();
            for _ in 0..rng.below(if v.len() > 20 { 9 } else { 4 }) { s = match rng.below(5) { 0 => format!("{s}{}", rng.below(10)), 1 => format!("{}{s}", *rng.pick(&['y', 'a', '_'])), 2 => s.to_uppercase(), 3 => format!("{s} y"), _ => format!("{s}'") }; }
            if !v.contains(&s) { v.push(s); }
        }
        return v;
    }
    let mut v: Vec<String> = (0..d).map(|j| match style {
        0 => format!("x{j}"), 1 => format!("Feat. [{}]", j + 1), 2 => format!("col {} ({})", j, (b'a' + (j % 26) as u8) as char),
        _ => format!("f-{:x}é", j * 7919 + 3),
    }).collect();
    if style == 3 || rng.bool(0.3) { rng.shuffle(&mut v); }
    v
}

/// One feature column of length n.
pub fn gen_col(rng: &mut Rng, n: usize, kind: usize) -> Vec<f64> {
    match kind {
        0 => (0..n).map(|_| rng.gauss()).collect(),
        1 => { let k = rng.int(2, 9); (0..n).map(|_| rng.below(k) as f64).collect() }
        2 => { let c = rng.gauss(); vec![c; n] }
        3 => (0..n).map(|_| if rng.bool(0.5) { 1.0 } else { 0.0 }).collect(),
        4 => (0..n).map(|_| if rng.bool(0.7) { 0.0 } else { rng.gauss() }).collect(),
        5 => { let s = 10f64.powi(rng.int(0, 24) as i32 - 12); (0..n).map(|_| s * rng.gauss()).collect() }
        6 => { let m = rng.range(-1e3, 1e3); (0..n).map(|_| m + 0.25 * rng.below(5) as f64).collect() }
        7 => (0..n).map(|_| -(1.0 - rng.f()).ln() * if rng.bool(0.05) { 100.0 } else { 1.0 }).collect(),
        _ => (0..n).map(|i| i as f64).collect(),
    }
}

pub fn gen_features(rng: &mut Rng, n: usize, d: usize, kinds: &[usize]) -> Vec<Vec<f64>> {
    (0..d).map(|_| { let k = *rng.pick(kinds); gen_col(rng, n, k) }).collect()
}

/// +-1 labels; both classes present when n >= 2.
pub fn gen_labels(rng: &mut Rng, cols: &[Vec<f64>], n: usize) -> Vec<f64> {
    let style = rng.below(5);
    let mut y: Vec<f64> = match style {
        0 => (0..n).map(|_| if rng.bool(0.5) { 1.0 } else { -1.0 }).collect(),
        1 | 2 if !cols.is_empty() => {
            let w: Vec<f64> = cols.iter().map(|c| {
                let m = c.iter().map(|v| v.abs()).fold(0.0, f64::max).max(1e-300);
                rng.gauss() / m
            }).collect();
            let s: Vec<f64> = (0..n).map(|i| cols.iter().zip(&w).map(|(c, w)| c[i] * w).sum::<f64>()).collect();
            let mut t = s.clone(); t.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let thr = t[n / 2];
            let noise = if style == 1 { 0.0 } else { 0.15 };
            s.iter().map(|&v| { let b = v > thr; if b ^ rng.bool(noise) { 1.0 } else { -1.0 } }).collect()
        }
        3 => { let p = rng.range(0.02, 0.2); (0..n).map(|_| if rng.bool(p) { 1.0 } else { -1.0 }).collect() }
        _ => (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect(),
    };
    if n >= 2 {
        if y.iter().all(|&v| v > 0.0) { let i = rng.below(n); y[i] = -1.0; }
        if y.iter().all(|&v| v < 0.0) { let i = rng.below(n); y[i] = 1.0; }
    }
    y
}

pub const ALL_KINDS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];

pub fn gen_binary(rng: &mut Rng, n: usize, d: usize, kinds: &[usize]) -> Data {
    let cols = gen_features(rng, n, d, kinds);
    let y = gen_labels(rng, &cols, n);
    let names = gen_names(rng, d);
    Data { cols, y, names }
}

pub fn gen_regression(rng: &mut Rng, n: usize, d: usize, kinds: &[usize]) -> Data {
    let cols = gen_features(rng, n, d, kinds);
    let style = rng.below(4);
    let y = match style {
        0 => (0..n).map(|_| rng.gauss()).collect(),
        1 => { let k = rng.int(1, 5); (0..n).map(|_| rng.below(k) as f64).collect() }
        2 => { let c = rng.below(d.max(1)); let m = cols[c].iter().map(|v| v.abs()).fold(0.0, f64::max).max(1e-300); (0..n).map(|i| (3.0 * cols[c][i] / m).sin() + 0.1 * rng.gauss()).collect() }
        _ => { let s = 10f64.powi(rng.int(0, 8) as i32 - 4); (0..n).map(|_| s * (rng.gauss() + 2.0)).collect() }
    };
    let names = gen_names(rng, d);
    Data { cols, y, names }
}

/// Sample sizes: mostly small, sometimes odd/large.
thread_local! { static HUGE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Runs a case with more rows than 16 bits can count.
pub fn huge(cx: &mut crate::ctx::Cx, f: fn(&mut crate::ctx::Cx) -> crate::ctx::Res) -> crate::ctx::Res {
    struct Off; impl Drop for Off { fn drop(&mut self) { HUGE.set(false); } }
    HUGE.set(true);
    let _off = Off;
    cx.count("cases of more than 65536 rows", 1);
    f(cx)
}
pub fn is_huge() -> bool { HUGE.get() }

pub fn gen_n(rng: &mut Rng, lo: usize, hi: usize) -> usize {
    if is_huge() { return rng.int(65_537, 72_000); }
    match rng.below(4) { 0 => rng.int(lo, (lo + 6).min(hi)), 1 | 2 => rng.int(lo, (hi / 3).max(lo)), _ => rng.int(lo, hi) }
}

/// Same, now and then far beyond the usual range.
pub fn gen_n_wide(rng: &mut Rng, lo: usize, hi: usize, huge: usize) -> usize {
    if !is_huge() && rng.bool(0.03) { rng.int(hi, huge) } else { gen_n(rng, lo, hi) }
}
pub fn gen_d(rng: &mut Rng, hi: usize, huge: usize) -> usize { if is_huge() { rng.int(1, hi.min(3)) } else if rng.bool(0.03) { rng.int(hi, huge) } else { rng.int(1, hi) } }
