//! P01 CSV, P02 SVMLight, P03 weighted statistics, P04 cross validation.
use std::collections::BTreeMap;
use std::fs;
use miniboosts::{CrossValidation, Feature, Sample, SampleReader};
use super::close;
use crate::ctx::*;
use crate::data::*;
use crate::rng::{hash_f64s, Rng};

fn same(a: f64, b: f64) -> bool { a == b || a.to_bits() == b.to_bits() }

/// Full comparison of a sample with the table it should be, through every public access path.
pub(crate) fn same_sample(s: &Sample, cols: &[Vec<f64>], names: &[String], y: &[f64], what: &str) -> Res {
    let (n, d) = (y.len(), cols.len());
    ensure!(s.shape() == (n, d), "shape", "{what}: shape {:?} instead of {:?}", s.shape(), (n, d));
    ensure!(s.target().len() == n && s.target().iter().zip(y).all(|(a, b)| same(*a, *b)), "target", "{what}: target {:?} instead of {:?}", &s.target()[..s.target().len().min(20)], &y[..n.min(20)]);
    ensure!(s.features().len() == d, "features", "{what}: {} features instead of {d}", s.features().len());
    for j in 0..d {
        let f = &s.features()[j];
        ensure!(f.name() == names[j], "name", "{what}: feature {j} is named {:?} instead of {:?}", f.name(), names[j]);
        let v = feature_values(f, n);
        ensure!(v.len() == n, "length", "{what}: feature {j} has {} values instead of {n}", v.len());
        for i in 0..n {
            ensure!(same(v[i], cols[j][i]), "value", "{what}: stored value of feature {j} row {i} is {} instead of {}", v[i], cols[j][i]);
            ensure!(same(f[i], cols[j][i]), "index", "{what}: features()[{j}][{i}] = {} instead of {}", f[i], cols[j][i]);
        }
        if let Feature::Dense(df) = f {
            ensure!(df.len() == n && f.len() == n && df.is_empty() == (n == 0) && f.is_empty() == (n == 0), "dense-length", "{what}: dense feature {j} reports length {} / {} for {n} rows", df.len(), f.len());
            ensure!(df.iter().count() == n && df.iter().enumerate().all(|(i, x)| same(*x, cols[j][i])), "dense-iter", "{what}: iterating over feature {j} gives other values than its rows");
        }
    }
    let by_name = lib("Index by name", || (0..d).map(|j| (0..n).map(|i| s[&names[j]][i]).collect::<Vec<_>>()).collect::<Vec<_>>())?;
    for j in 0..d { for i in 0..n { ensure!(same(by_name[j][i], cols[j][i]), "by-name", "{what}: sample[{:?}][{i}] = {} instead of {}", names[j], by_name[j][i], cols[j][i]); } }
    for i in 0..n {
        let (x, yi) = lib("Sample::at", || s.at(i))?;
        ensure!(x.len() == d && (0..d).all(|j| same(x[j], cols[j][i])) && same(yi, y[i]), "at", "{what}: at({i}) = ({x:?}, {yi})");
    }
    let mut u: Vec<f64> = y.to_vec();
    u.sort_by(|a, b| a.partial_cmp(b).unwrap()); u.dedup();
    let got = s.unique_target();
    ensure!(got.len() == u.len() && got.iter().zip(&u).all(|(a, b)| a == b), "unique", "{what}: unique_target {got:?} instead of {u:?}");
    Ok(())
}

fn gen_any_target(rng: &mut Rng, n: usize) -> Vec<f64> {
    match rng.below(3) { 0 => (0..n).map(|_| if rng.bool(0.5) { 1.0 } else { -1.0 }).collect(), 1 => (0..n).map(|_| rng.below(6) as f64).collect(), _ => (0..n).map(|_| rng.gauss()).collect() }
}

/// Write a number in one of several textual forms; returns the text (its value is whatever it parses to).
fn cell(rng: &mut Rng, x: f64) -> String {
    let s = match rng.below(8) { 0 => format!("{x:e}"), 1 => format!("{x:.3}"), 2 if x >= 0.0 => format!("+{x}"), 3 => format!(" {x}"), 4 => format!("{x} "), 5 => format!("{x:.0}"), _ => num(x) };
    s
}

struct CsvTable { text: String, cols: Vec<Vec<f64>>, names: Vec<String>, y: Vec<f64>, target: String }

fn csv_table(rng: &mut Rng, header: bool, big: bool) -> CsvTable {
    let n = if big { rng.int(300, 2500) } else { gen_n(rng, 1, 40) };
    let d = if big { rng.int(1, 300) } else if is_huge() { rng.int(1, 2) } else { rng.int(1, 9) };
    let n = if big { n.min(120_000 / (d + 1)).max(10) } else { n };
    let raw = gen_features(rng, n, d + 1, ALL_KINDS);
    let style_num = rng.bool(0.5);
    let tpos = match rng.below(3) { 0 => 0, 1 => d, _ => rng.below(d + 1) };
    let mut names = gen_names(rng, d + 1);
    if !header { names = (1..=d + 1).map(|i| format!("Feat. [{i}]")).collect(); }
    let y0 = gen_any_target(rng, n);
    let crlf = rng.bool(0.2);
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut text = String::new();
    if header { text.push_str(&names.join(",")); text.push_str(nl); }
    let mut all: Vec<Vec<f64>> = vec![Vec::with_capacity(n); d + 1];
    for i in 0..n {
        let mut cells = vec![];
        for j in 0..=d {
            let x = if j == tpos { y0[i] } else { raw[j][i] };
            let c = if style_num { num(x) } else { cell(rng, x) };
            all[j].push(c.trim().parse::<f64>().unwrap());
            cells.push(c);
        }
        text.push_str(&cells.join(","));
        if i + 1 < n || rng.bool(0.8) { text.push_str(nl); }
    }
    let y = all.remove(tpos);
    let target = names.remove(tpos);
    CsvTable { text, cols: all, names, y, target }
}

fn read_csv(cx: &mut Cx, text: &str, header: bool, target: &str) -> (std::path::PathBuf, Result<std::io::Result<Sample>, LibErr>) {
    let f = cx.file("csv");
    fs::write(&f, text).expect("harness: write");
    let r = try_lib(|| SampleReader::default().file(f.clone()).has_header(header).target_feature(target).read());
    let _ = fs::remove_file(&f);
    (f, r)
}

fn csv_case(cx: &mut Cx, header: bool, big: bool) -> Res {
    let mut rng = cx.rng.clone();
    let t = csv_table(&mut rng, header, big);
    cx.note(format!("csv header={header} {} rows {} feature columns target {:?}", t.y.len(), t.cols.len(), t.target));
    let (_, r) = read_csv(cx, &t.text, header, &t.target);
    let s = match r {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return viol("read-error", format!("well-formed CSV refused: {e}; file:\n{}", t.text.chars().take(400).collect::<String>())),
        Err(LibErr::Panic(m)) => return viol("read-panic", format!("well-formed CSV refused: {m}; file:\n{}", t.text.chars().take(400).collect::<String>())),
        Err(_) => unreachable!(),
    };
    same_sample(&s, &t.cols, &t.names, &t.y, "csv")?;
    // the same columns built in memory are the same sample
    let d = Data { cols: t.cols.clone(), y: t.y.clone(), names: t.names.clone() };
    let m = d.dense()?;
    same_sample(&m, &t.cols, &t.names, &t.y, "in-memory table")?;
    // renaming
    let mut s2 = s.clone();
    let mut new: Vec<String> = (0..t.cols.len()).map(|j| format!("renamed-{}", (j * 31 + 7) % 1009 + 2000 * (j / 1009))).collect();
    rng.shuffle(&mut new);
    let old = lib("replace_names", || s2.replace_names(&new))?;
    ensure!(old == t.names, "rename-old", "replace_names returned {old:?} instead of {:?}", t.names);
    same_sample(&s2, &t.cols, &new, &t.y, "renamed sample")?;
    cx.count("cells_compared", (t.y.len() * (t.cols.len() + 1)) as u64);
    cx.seen(d.fp());
    Ok(())
}
fn csv_header(cx: &mut Cx) -> Res { csv_case(cx, true, false) }
fn csv_noheader(cx: &mut Cx) -> Res { csv_case(cx, false, false) }
fn csv_huge(cx: &mut Cx) -> Res { huge(cx, csv_header) }
fn csv_big(cx: &mut Cx) -> Res { let h = cx.rng.bool(0.5); csv_case(cx, h, true) }

fn csv_bad(cx: &mut Cx) -> Res {
    let mut rng = cx.rng.clone();
    let header = rng.bool(0.6);
    let t = csv_table(&mut rng, header, false);
    let mut lines: Vec<String> = t.text.lines().map(|s| s.to_string()).collect();
    if lines.len() < 3 { cx.count("skipped_short", 1); return Ok(()); }
    let kind = rng.below(3);
    // without a header the first line is data like any other, but it also fixes the number of columns
    let k = rng.int(if header || kind < 2 { 1 } else { 0 }, lines.len() - 1);
    let mut cells: Vec<String> = lines[k].split(',').map(|s| s.to_string()).collect();
    let what = match kind {
        0 => { let j = rng.below(cells.len()); cells.remove(j); "a field is missing" }
        1 => { let j = rng.below(cells.len() + 1); cells.insert(j, num(rng.gauss())); "there is an extra field" }
        _ => { let j = rng.below(cells.len()); cells[j] = ["abc", "", "1;2", "0x1F", "--3", "1.2.3"][rng.below(6)].to_string(); "a cell is not a number" }
    };
    if cells.is_empty() { return Ok(()); }
    lines[k] = cells.join(",");
    cx.note(format!("line {k} of {}: {what}", lines.len()));
    let text = lines.join("\n") + "\n";
    let (_, r) = read_csv(cx, &text, header, &t.target);
    match r {
        Ok(Ok(s)) => viol(format!("accepted-{kind}"), format!("{what} in line {k} and the file was accepted with shape {:?}; file:\n{}", s.shape(), text.chars().take(500).collect::<String>())),
        _ => { cx.count("malformed_rejected", 1); cx.seen(hash_f64s(kind as u64, &t.y) ^ k as u64); Ok(()) }
    }
}

/// Files that cannot be read must come back as an error, not as a sample and not as a panic.
fn unreadable(cx: &mut Cx, csv: bool) -> Res {
    let mut rng = cx.rng.clone();
    let f = cx.file(if csv { "csv" } else { "svm" });
    let header = rng.bool(0.5);
    let kind = rng.below(4);
    let n = rng.int(2, 300);
    let bad = rng.below(n);
    let what = match kind {
        0 => "the file does not exist".to_string(),
        1 => { fs::create_dir_all(&f).expect("harness: mkdir"); "the path is a directory".to_string() }
        2 => { let g = f.join(if csv { "x.csv" } else { "x.svm" }); fs::write(&f, "1,2\n").expect("harness: write"); cx.note(format!("below a file: {g:?}")); "the path goes through a regular file".to_string() }
        _ => {
            let mut b: Vec<u8> = vec![];
            if csv && header { b.extend(if bad == 0 { &b"a,b,\xff\xfe\n"[..] } else { &b"a,b,y\n"[..] }); }
            for i in 0..n {
                let mut l = if csv { format!("{i},{},1\n", num(rng.gauss())) } else { format!("1 1:{} 2:{i}\n", num(rng.gauss())) }.into_bytes();
                if i == bad && !(csv && header && bad == 0) { let k = rng.below(l.len()); l.insert(k, 0x80 + rng.below(0x80) as u8 | 0xC0); l.insert(k + 1, b'1'); }
                b.extend(l);
            }
            fs::write(&f, &b).expect("harness: write");
            format!("line {bad} of {n} is not UTF-8")
        }
    };
    cx.note(format!("{what} (csv={csv} header={header})"));
    let path = if kind == 2 { f.join("x.csv") } else { f.clone() };
    let r = if csv { try_lib(|| SampleReader::default().file(path.clone()).has_header(header).target_feature("y").read()) }
        else { let path = if kind == 2 { f.join("x.svm") } else { f.clone() }; try_lib(|| SampleReader::<_, String>::default().file(path.clone()).read()) };
    if kind == 1 { let _ = fs::remove_dir(&f); } else { let _ = fs::remove_file(&f); }
    match r {
        Ok(Err(_)) => { cx.count("unreadable_reported", 1); cx.seen(hash_f64s(kind as u64 * 4 + header as u64 * 2 + csv as u64, &[bad as f64, n as f64])); Ok(()) }
        Ok(Ok(s)) => viol(format!("unreadable-accepted-{kind}"), format!("{what}, yet reading it returned a sample of shape {:?}", s.shape())),
        Err(LibErr::Panic(m)) => viol(format!("unreadable-panic-{kind}"), format!("{what}: read() panicked ({m}) instead of returning the error")),
        Err(_) => unreachable!(),
    }
}
fn csv_unreadable(cx: &mut Cx) -> Res { unreadable(cx, true) }
fn svm_unreadable(cx: &mut Cx) -> Res { unreadable(cx, false) }

pub fn p01() -> Check {
    Check {
        id: "P01", rule: "random tables written as CSV (header or not, any target position, several number notations, CRLF), read back and compared cell by cell through every access path; malformed variants must be refused. Non-trivial: a distinct table compared completely, or a distinct malformed file refused",
        assumptions: &["column names in a header are distinct and free of commas", "numbers follow Rust's decimal grammar"],
        families: vec![fam("header", 600, 6000, csv_header), fam("noheader", 400, 4000, csv_noheader), fam("malformed", 600, 6000, csv_bad), fam("big", 10, 100, csv_big), fam("huge", 1, 4, csv_huge), fam("unreadable", 60, 600, csv_unreadable)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

// ---------------------------------------------------------------- P02

fn svm_case(cx: &mut Cx, big: u8) -> Res {
    let mut rng = cx.rng.clone();
    let n = match big { 0 => gen_n(&mut rng, 1, 40), 1 => rng.int(200, 1500), _ => rng.int(2, 12) };
    // (wide: indices above 2^16; every index takes the library 4 kB)
    let maxidx = match big { 0 if is_huge() => rng.int(0, 3), 0 => rng.int(0, 25), 1 => rng.int(50, 4000), _ => rng.int(66_000, 80_000) };
    let base = rng.below(2);
    let density = rng.range(0.02, 0.6);
    let per_row = ((maxidx + 1) as f64 * density).min(40.0);
    let zeros = rng.bool(0.3);
    let shuffle = rng.bool(0.5);
    let mut text = String::new();
    let y0 = gen_any_target(&mut rng, n);
    let mut y = vec![];
    let mut m: BTreeMap<usize, Vec<(usize, f64)>> = BTreeMap::new();
    let skip: Vec<bool> = (0..=maxidx).map(|_| rng.bool(0.2)).collect();
    for i in 0..n {
        let mut row: Vec<(usize, f64)> = vec![];
        for j in base..=maxidx.max(base) {
            if *skip.get(j).unwrap_or(&false) { continue; }
            if rng.bool((per_row / (maxidx + 1) as f64).min(1.0)) {
                let mut x = match rng.below(4) { 0 => rng.below(5) as f64 + 1.0, 1 => rng.gauss(), 2 => 1.0, _ => rng.gauss() * 1e6 };
                if zeros && rng.bool(0.1) { x = 0.0; }
                row.push((j, x));
            }
        }
        if big == 2 && i == 0 && row.last().map_or(true, |e| e.0 < maxidx) { row.push((maxidx, 1.0)); }
        if shuffle { rng.shuffle(&mut row); }
        let yt = cell(&mut rng, y0[i]).trim().to_string();
        y.push(yt.parse::<f64>().unwrap());
        text.push_str(&yt);
        for (j, x) in row {
            let xt = cell(&mut rng, x).trim().to_string();
            let v: f64 = xt.parse().unwrap();
            text.push_str(if rng.bool(0.05) { "  " } else if rng.bool(0.05) { "\t" } else { " " });
            text.push_str(&format!("{j}:{xt}"));
            m.entry(j).or_default().push((i, v));
        }
        if rng.bool(0.1) { text.push(' '); }
        text.push('\n');
    }
    let f = cx.file("svm");
    fs::write(&f, &text).expect("harness: write");
    let s = lib("SampleReader::read(svmlight)", || SampleReader::<_, String>::default().file(f.clone()).read());
    let _ = fs::remove_file(&f);
    let s = match s? { Ok(s) => s, Err(e) => return viol("read-error", format!("well-formed SVMLight file refused: {e}")) };
    let names: Vec<String> = m.keys().map(|j| format!("Feat. [{}]", j + 1)).collect();
    let cols: Vec<Vec<f64>> = m.values().map(|v| { let mut c = vec![0.0; n]; for &(i, x) in v { c[i] = x; } c }).collect();
    cx.note(format!("svmlight {n} rows, {} mentioned of {} indices, base {base}", cols.len(), maxidx + 1));
    same_sample(&s, &cols, &names, &y, "svmlight")?;
    for (f, v) in s.features().iter().zip(m.values()) {
        match f {
            Feature::Sparse(sf) => {
                ensure!(sf.len() == v.len() && f.len() == v.len(), "stored", "{}: {} stored entries instead of {}", f.name(), sf.len(), v.len());
                let zc = lib("zero_counts", || sf.zero_counts())?;
                ensure!(zc + v.len() == n, "zero-count", "{}: {zc} zeros and {} stored of {n}", f.name(), v.len());
                ensure!(sf.has_zero() == (v.len() < n), "has-zero", "{}: has_zero {}", f.name(), sf.has_zero());
                let got: Vec<(usize, f64)> = sf.iter().cloned().collect();
                ensure!(got == *v, "entries", "{}: entries {got:?} instead of {v:?}", f.name());
                ensure!(!f.is_empty(), "empty-kept", "{} is empty", f.name());
            }
            Feature::Dense(_) => return viol("storage", format!("{} read from a sparse file is stored densely", f.name())),
        }
    }
    cx.count("entries_compared", m.values().map(|v| v.len() as u64).sum());
    cx.count("dropped_indices", (maxidx + 1 - cols.len().min(maxidx + 1)) as u64);
    cx.seen(hash_f64s(cols.len() as u64, &cols.concat()));
    Ok(())
}

/// Lines outside the format must be refused (by an error or a panic), never read as something else.
fn svm_bad(cx: &mut Cx) -> Res {
    let mut rng = cx.rng.clone();
    let n = rng.int(1, 12);
    let mut lines: Vec<Vec<String>> = (0..n).map(|_| {
        let mut l = vec![num(if rng.bool(0.5) { 1.0 } else { -1.0 })];
        let mut j = 0;
        for _ in 0..rng.int(1, 5) { j += rng.int(1, 3); l.push(format!("{j}:{}", num(rng.gauss()))); }
        l
    }).collect();
    let k = rng.below(n);
    let kind = rng.below(6);
    let t = rng.int(1, lines[k].len() - 1);
    let junk = ["abc", "", "1;2", "0x1F", "--3", "1.2.3"][rng.below(6)].to_string();
    let what = match kind {
        0 => { lines[k][0] = if junk.is_empty() { "yes".into() } else { junk }; "the label is not a number" }
        1 => { let p = lines[k][t].clone(); lines[k][t] = p.replace(':', "="); "a pair has no colon" }
        2 => { let p = lines[k][t].split(':').next().unwrap().to_string(); lines[k][t] = format!("{p}:{junk}"); "a value is not a number" }
        3 => { let p = lines[k][t].split(':').nth(1).unwrap().to_string(); lines[k][t] = format!("{}:{p}", ["x", "", "-3", "1.5", "1e3"][rng.below(5)]); "an index is not a whole number" }
        4 => { let p = lines[k][t].split(':').next().unwrap().to_string(); lines[k][t] = p; "a pair has no value" }
        // (two pairs run together, or a third part: `7:0.5:2` is no pair of numbers)
        _ => { let p = format!("{}{}", lines[k][t], [":2", ":0.5", ":", ":4:1"][rng.below(4)]); lines[k][t] = p; "what follows the index is not a number" }
    };
    let text = lines.iter().map(|l| l.join(" ")).collect::<Vec<_>>().join("\n") + "\n";
    cx.note(format!("line {k} of {n}: {what}: {:?}", lines[k]));
    let f = cx.file("svm");
    fs::write(&f, &text).expect("harness: write");
    let r = try_lib(|| SampleReader::<_, String>::default().file(f.clone()).read());
    let _ = fs::remove_file(&f);
    match r {
        Ok(Ok(s)) => viol(format!("accepted-{kind}"), format!("{what} in line {k} ({:?}) and the file was accepted with shape {:?}", lines[k].join(" "), s.shape())),
        _ => { cx.count("malformed_rejected", 1); cx.seen(crate::rng::hash_f64s(kind as u64, &[k as f64, n as f64, text.len() as f64])); Ok(()) }
    }
}

fn svm_small(cx: &mut Cx) -> Res { svm_case(cx, 0) }
fn svm_big(cx: &mut Cx) -> Res { svm_case(cx, 1) }
fn svm_huge(cx: &mut Cx) -> Res { huge(cx, svm_small) }
fn svm_wide(cx: &mut Cx) -> Res { svm_case(cx, 2) }

pub fn p02() -> Check {
    Check {
        id: "P02", rule: "random SVMLight files (index gaps, 0/1-based, unordered indices, label-only lines, explicit zeros, tabs) read back and compared entry by entry. Non-trivial: a distinct file compared completely",
        assumptions: &["an index occurs at most once per line"],
        families: vec![fam("small", 1500, 15000, svm_small), fam("big", 12, 120, svm_big), fam("wide", 1, 4, svm_wide), fam("huge", 1, 4, svm_huge), fam("malformed", 300, 3000, svm_bad), fam("unreadable", 60, 600, svm_unreadable)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

// ---------------------------------------------------------------- P03

/// Mean, variance and the errors rounding may explain: the mean is a sum, the variance a sum of squares around
/// that mean (so a large mean may not cost the digits of a small spread).
fn stats_def(c: &[f64], w: &[f64]) -> (f64, f64, f64, f64) {
    let m: f64 = c.iter().zip(w).map(|(x, w)| x * w).sum();
    let sm: f64 = c.iter().zip(w).map(|(x, w)| x.abs() * w).sum();
    let v: f64 = c.iter().zip(w).map(|(x, w)| w * (x - m) * (x - m)).sum();
    let dm = 1e-12 * sm;
    (m, v, 1e-10 * sm, 1e-9 * v + 4.0 * dm * v.sqrt() + 4.0 * dm * dm)
}

fn stats_case(cx: &mut Cx, big: bool) -> Res {
    let mut rng = cx.rng.clone();
    let n = if big { rng.int(300, 3000) } else { gen_n(&mut rng, 1, 40) };
    let d = gen_d_max(&mut rng, 6);
    let mut data = gen_binary(&mut rng, n, d, &[0, 1, 2, 3, 4, 4, 4, 6, 7, 8]);
    if rng.bool(0.3) { let k = rng.int(2, 5); data.y = (0..n).map(|_| rng.below(k) as f64 - 1.0).collect(); }
    // leading/trailing zero runs
    if rng.bool(0.5) { let c = rng.below(d); let k = rng.below(n); for i in 0..k { data.cols[c][i] = 0.0; } }
    if rng.bool(0.3) { let c = rng.below(d); let k = rng.below(n); for i in k..n { data.cols[c][i] = 0.0; } }
    data.no_zero_cols(&mut rng);
    let mut w = rng.simplex(n);
    // renormalise exactly enough for the library's own precondition
    let s: f64 = w.iter().sum(); for v in w.iter_mut() { *v /= s; }
    let scale = if rng.bool(0.5) { 1.0 } else { 10f64.powi(rng.int(0, 8) as i32 - 4) };
    let wl: Vec<f64> = w.iter().map(|v| v * scale).collect();
    cx.note(format!("{} weights {:?}", data.brief(), &w[..w.len().min(12)]));
    for (kind, s) in [("dense", data.dense()?), ("sparse", data.sparse(cx)?)] {
        let mv = lib("weighted_mean_and_variance", || s.weighted_mean_and_variance(&w))?;
        let me = lib("weighted_mean", || s.weighted_mean(&w))?;
        ensure!(mv.len() == d && me.len() == d, "len", "{} / {} results for {d} features", mv.len(), me.len());
        for j in 0..d {
            let (m, v, sm, sv) = stats_def(&data.cols[j], &w);
            ensure!(close(me[j], m, sm), format!("{kind}-mean"), "{kind} weighted_mean of feature {j} = {} expected {m}", me[j]);
            ensure!(close(mv[j].0, m, sm), format!("{kind}-mean"), "{kind} mean of feature {j} = {} expected {m}", mv[j].0);
            ensure!(close(mv[j].1, v, sv), format!("{kind}-variance"), "{kind} variance of feature {j} = {} expected {v}", mv[j].1);
        }
        let mut labels = data.y.clone(); labels.sort_by(|a, b| a.partial_cmp(b).unwrap()); labels.dedup();
        for &y in &labels {
            let tw: f64 = (0..n).filter(|&i| data.y[i] == y).map(|i| wl[i]).sum();
            if tw <= 1e-12 * scale { cx.count("label_without_weight", 1); continue; }
            let wy: Vec<f64> = (0..n).map(|i| if data.y[i] == y { wl[i] / tw } else { 0.0 }).collect();
            let me = lib("weighted_mean_for_label", || s.weighted_mean_for_label(y, &wl))?;
            let mv = lib("weighted_mean_and_variance_for_label", || s.weighted_mean_and_variance_for_label(y, &wl))?;
            ensure!(mv.len() == d && me.len() == d, "len", "{} / {} results for {d} features", mv.len(), me.len());
            for j in 0..d {
                let (m, v, sm, sv) = stats_def(&data.cols[j], &wy);
                ensure!(close(me[j], m, sm), format!("{kind}-label-mean"), "{kind} mean of feature {j} for label {y} = {} expected {m}", me[j]);
                ensure!(close(mv[j].0, m, sm), format!("{kind}-label-mean"), "{kind} mean of feature {j} for label {y} = {} expected {m}", mv[j].0);
                ensure!(close(mv[j].1, v, sv), format!("{kind}-label-variance"), "{kind} variance of feature {j} for label {y} = {} expected {v}", mv[j].1);
            }
            cx.count("label_statistics", d as u64);
        }
        cx.count("statistics", d as u64);
    }
    cx.seen(hash_f64s(data.fp(), &w));
    Ok(())
}
fn stats_small(cx: &mut Cx) -> Res { stats_case(cx, false) }
fn gen_d_max(rng: &mut Rng, hi: usize) -> usize { rng.int(1, if is_huge() { 2 } else { hi }) }
fn stats_huge(cx: &mut Cx) -> Res { huge(cx, stats_small) }
fn stats_big(cx: &mut Cx) -> Res { stats_case(cx, true) }

pub fn p03() -> Check {
    Check {
        id: "P03", rule: "random tables loaded densely and sparsely, random weightings (uniform, skewed, with zeros, unnormalised for the per-label forms); each statistic compared with a direct evaluation of its definition. Non-trivial: distinct (table, weighting)",
        assumptions: &["weightings of the unconditional statistics sum to one, as documented", "labels of total weight zero are not judged"],
        families: vec![fam("small", 1500, 20000, stats_small), fam("big", 20, 200, stats_big), fam("huge", 1, 4, stats_huge)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

// ---------------------------------------------------------------- P04

fn cv_case(cx: &mut Cx, big: bool) -> Res {
    let mut rng = cx.rng.clone();
    let n = if big { rng.int(200, 1200) } else if is_huge() { gen_n(&mut rng, 2, 60) } else { rng.int(1, 60) };
    let d = gen_d_max(&mut rng, 5);
    let mut data = gen_binary(&mut rng, n, d, &[0, 1, 2, 3, 4, 4, 7]);
    // values next to zero are values
    if rng.bool(0.2) { for c in data.cols.iter_mut() { for v in c.iter_mut() { if rng.bool(0.2) { *v = *rng.pick(&[1e-12, -1e-12, 1e-17, -1e-17, 5e-324, -5e-324, 1e-300, -1e-300]); } } } }
    let idpos = rng.below(d + 1);
    data.cols.insert(idpos, (0..n).map(|i| i as f64 + 1.0).collect());
    data.names = gen_names(&mut rng, d + 1);
    data.no_zero_cols(&mut rng);
    let sparse = rng.bool(0.5);
    if sparse { data.svm_names(); }
    let s = if sparse { data.sparse(cx)? } else { data.dense()? };
    let d = data.d();
    // (columns may share a name: their values have to be kept all the same)
    let mut s = s;
    let mut same_names = false;
    if d > 1 && rng.bool(0.1) {
        let (a, b) = (rng.below(d), rng.below(d));
        let mut names = data.names.clone();
        names[a] = names[b].clone();
        if a != b { same_names = true; lib("replace_names", || s.replace_names(&names))?; data.names = names; }
    }
    let s = s;
    let ratio = if rng.bool(0.3) { None } else { Some(match rng.below(3) { 0 => rng.range(0.01, 0.99), 1 => 0.5, _ => rng.int(1, 19) as f64 / 20.0 }) };
    let folds = match rng.below(4) { 0 => None, 1 => Some(rng.int(1, 4)), _ => Some(rng.int(1, if is_huge() { 6 } else { 15 })) };
    let seed = if rng.bool(0.5) { Some(rng.next()) } else { None };
    let shuffle = rng.bool(0.6);
    let verbose = rng.bool(0.05);
    let test_size = n - (ratio.unwrap_or(0.8) * n as f64) as usize;
    cx.note(format!("n={n} d={d} sparse={sparse} ratio={ratio:?} folds={folds:?} seed={seed:?} shuffle={shuffle} (test size {test_size})"));
    // the settings in any order, the seed among them
    let order_of = |rng: &mut Rng| { let mut o = vec![0, 1, 2, 3, 4]; rng.shuffle(&mut o); o };
    let mk = |order: &[usize], seed: Option<u64>| {
        let mut cv = CrossValidation::new(&s);
        for k in order {
            cv = match k {
                0 => match ratio { Some(r) => cv.train_ratio(r), None => cv },
                1 => match folds { Some(f) => cv.n_folds(f), None => cv },
                2 => match seed { Some(x) => cv.seed(x), None => cv },
                3 => if shuffle { cv.shuffle() } else { cv },
                _ => if verbose { cv.verbose(true) } else { cv },
            };
        }
        cv
    };
    let (o1, o2) = (order_of(&mut rng), order_of(&mut rng));
    let parts: Vec<(Sample, Sample)> = lib("CrossValidation", || mk(&o1, seed).take(1000).collect())?;
    ensure!(parts.len() == folds.unwrap_or(5), "fold-count", "{} folds instead of {:?}", parts.len(), folds.unwrap_or(5));
    let ident = |p: &Sample, what: &str| -> Res<Vec<usize>> {
        let (pn, pd) = p.shape();
        ensure!(pd == d && p.features().len() == d && p.target().len() == pn, "shape", "{what}: shape {:?}, {} features, {} targets", p.shape(), p.features().len(), p.target().len());
        let mut ids = vec![];
        for i in 0..pn {
            let (x, y) = lib("at", || p.at(i))?;
            let id = x[idpos];
            ensure!(id >= 1.0 && id <= n as f64 && id.fract() == 0.0, "row-id", "{what} row {i} = {x:?} is no original example");
            let o = id as usize - 1;
            ensure!(x == data.row(o) && y == data.y[o], "row", "{what} row {i} = ({x:?},{y}) but original example {o} = ({:?},{})", data.row(o), data.y[o]);
            ids.push(o);
        }
        for j in 0..d {
            let f = &p.features()[j];
            ensure!(f.name() == data.names[j], "name", "{what}: feature {j} is {:?} instead of {:?}", f.name(), data.names[j]);
            if !same_names { for i in 0..pn { ensure!(p[&data.names[j]][i] == data.cols[j][ids[i]], "by-name", "{what}: by-name value of {} row {i}", data.names[j]); } }
            match f {
                Feature::Dense(f) => ensure!(!sparse && f.sample.len() == pn, "storage", "{what}: feature {j} dense with {} values for {pn} rows (original sparse: {sparse})", f.sample.len()),
                Feature::Sparse(f) => {
                    ensure!(sparse, "storage", "{what}: feature {j} became sparse");
                    let nz = ids.iter().filter(|&&o| data.cols[j][o] != 0.0).count();
                    ensure!(f.sample.windows(2).all(|w| w[0].0 < w[1].0) && f.sample.iter().all(|e| e.0 < pn), "sparse-order", "{what}: sparse feature {j} entries {:?} for {pn} rows", f.sample);
                    let zc = lib("zero_counts", || f.zero_counts())?;
                    ensure!(f.sample.len() == nz && zc == pn - nz, "sparse-count", "{what}: sparse feature {j}: {} stored, {zc} zero of {pn} rows, {nz} are non-zero", f.sample.len());
                }
            }
        }
        Ok(ids)
    };
    let mut order: Vec<usize> = vec![];
    let mut tested = vec![false; n];
    let mut tests = vec![];
    for (k, (tr, te)) in parts.iter().enumerate() {
        let a = ident(tr, &format!("fold {k} train"))?;
        let b = ident(te, &format!("fold {k} test"))?;
        let expect = (test_size * (k + 1)).min(n) - (test_size * k).min(n);
        ensure!(b.len() == expect, "test-size", "fold {k}: {} test examples instead of {expect}", b.len());
        let mut c = [a.clone(), b.clone()].concat(); c.sort();
        ensure!(c == (0..n).collect::<Vec<_>>(), "partition", "fold {k}: train {a:?} and test {b:?} do not partition the sample");
        for &x in &b { ensure!(!std::mem::replace(&mut tested[x], true), "overlap", "example {x} is in two test parts"); }
        order.extend(&b);
        tests.push(b);
        cx.count("folds", 1);
        cx.count("rows_identified", n as u64);
    }
    if !shuffle { ensure!(order == (0..order.len()).collect::<Vec<_>>(), "order", "unshuffled test order {order:?}"); }
    let again: Vec<(Sample, Sample)> = lib("CrossValidation", || mk(&o2, seed).take(1000).collect())?;
    let t2: Vec<Vec<usize>> = again.iter().map(|p| ident(&p.1, "repeat")).collect::<Res<_>>()?;
    ensure!(t2 == tests, "seed", "the same settings, made in the orders {o1:?} and {o2:?} (ratio, folds, seed, shuffle, verbose), gave folds {t2:?} and {tests:?}");
    // (thirteen rows keep their places in one shuffle of 1e9)
    if shuffle && order.len() >= 13 {
        ensure!(order.windows(2).any(|w| w[0] > w[1]), "not-shuffled", "shuffled, the test examples still come in the order of the sample: {order:?}");
        let other = seed.unwrap_or(1234) ^ (1 << rng.below(64));
        let t3: Vec<(Sample, Sample)> = lib("CrossValidation", || mk(&o1, Some(other)).take(1000).collect())?;
        let t3: Vec<Vec<usize>> = t3.iter().map(|p| ident(&p.1, "other seed")).collect::<Res<_>>()?;
        ensure!(t3 != tests, "seed-ignored", "seeds {seed:?} and {other} give the same folds {tests:?}");
        cx.count("seeds told apart", 1);
    }
    cx.seen(hash_f64s(data.fp(), &order.iter().map(|&x| x as f64).collect::<Vec<_>>()));
    Ok(())
}
fn cv_small(cx: &mut Cx) -> Res { cv_case(cx, false) }
fn cv_huge(cx: &mut Cx) -> Res { huge(cx, cv_small) }
fn cv_big(cx: &mut Cx) -> Res { cv_case(cx, true) }

pub fn p04() -> Check {
    Check {
        id: "P04", rule: "random samples with an identifying column, random ratio/folds/seed/shuffle; every row of every part identified with its original. Non-trivial: distinct (sample, test order)",
        assumptions: &["at least two examples"],
        families: vec![fam("small", 800, 8000, cv_small), fam("big", 10, 100, cv_big), fam("huge", 1, 4, cv_huge)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
