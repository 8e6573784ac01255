//! P28 (tree drawings), P29 (editing and addressing a sample).
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;
use miniboosts::prelude::GBMLoss;
use miniboosts::{Classifier, DecisionTreeBuilder, Regressor, RegressionTreeBuilder, Sample, SampleReader, WeakLearner};
use crate::checks::data_io::same_sample;
use crate::checks::tree::{read_tree, CRIT, T};
use crate::ctx::*;
use crate::data::*;
use crate::rng::{hash_f64s, hash_str, Rng};

// ------------------------------------------------------------ a reader of the DOT language

#[derive(Debug, Clone, PartialEq)]
enum Tok { Id(String), Str(String), Sym(&'static str) }

/// Tokens of a DOT text. Within quotes, `\"` is a quote and every other backslash stays (as Graphviz reads it).
fn tokens(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            ' ' | '\t' | '\n' | '\r' => i += 1,
            '{' => { v.push(Tok::Sym("{")); i += 1; }
            '}' => { v.push(Tok::Sym("}")); i += 1; }
            '[' => { v.push(Tok::Sym("[")); i += 1; }
            ']' => { v.push(Tok::Sym("]")); i += 1; }
            '=' => { v.push(Tok::Sym("=")); i += 1; }
            ',' | ';' => { v.push(Tok::Sym(",")); i += 1; }
            '-' if c.get(i + 1) == Some(&'-') => { v.push(Tok::Sym("--")); i += 2; }
            '"' => {
                let mut t = String::new();
                i += 1;
                loop {
                    match c.get(i) {
                        None => return Err("a quoted string does not end".into()),
                        Some('"') => { i += 1; break; }
                        Some('\\') if c.get(i + 1) == Some(&'"') => { t.push('"'); i += 2; }
                        Some('\\') if c.get(i + 1) == Some(&'\\') => { t.push_str("\\\\"); i += 2; }
                        Some(&x) => { t.push(x); i += 1; }
                    }
                }
                v.push(Tok::Str(t));
            }
            x if x.is_alphanumeric() || x == '_' || x == '.' || x == '-' => {
                let mut t = String::new();
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '.' || (c[i] == '-' && t.is_empty())) { t.push(c[i]); i += 1; }
                v.push(Tok::Id(t));
            }
            x => return Err(format!("unexpected {x:?}")),
        }
    }
    Ok(v)
}

/// What a label shows: Graphviz' escape sequences replaced.
fn shown(s: &str, node: &str, graph: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' { out.push(c); continue; }
        match it.next() { Some('n') | Some('l') | Some('r') => out.push('\n'), Some('N') => out.push_str(node), Some('G') => out.push_str(graph), Some(x) => out.push(x), None => out.push('\\') }
    }
    out
}

struct Dot { nodes: BTreeMap<String, (String, bool)>, edges: Vec<(String, String, String)>, name: String }

fn read_dot(text: &str) -> Result<Dot, String> {
    let t = tokens(text)?;
    let mut p = 0;
    let name_of = |k: &Tok| match k { Tok::Id(s) | Tok::Str(s) => Some(s.clone()), _ => None };
    macro_rules! next { () => {{ let x = t.get(p).cloned(); p += 1; x }}; }
    if next!() != Some(Tok::Id("graph".into())) { return Err("does not begin with `graph`".into()); }
    let mut name = String::new();
    if let Some(n) = t.get(p).and_then(name_of) { name = n; p += 1; }
    if next!() != Some(Tok::Sym("{")) { return Err("no opening brace".into()); }
    let mut d = Dot { nodes: BTreeMap::new(), edges: vec![], name };
    loop {
        match next!() {
            Some(Tok::Sym("}")) => break,
            Some(Tok::Sym(",")) => continue,
            Some(k) => {
                let Some(a) = name_of(&k) else { return Err(format!("unexpected {k:?}")) };
                let mut b = None;
                if t.get(p) == Some(&Tok::Sym("--")) {
                    p += 1;
                    b = Some(next!().as_ref().and_then(name_of).ok_or("an edge without an end")?);
                }
                let mut at: BTreeMap<String, String> = BTreeMap::new();
                if t.get(p) == Some(&Tok::Sym("[")) {
                    p += 1;
                    loop {
                        match next!() {
                            Some(Tok::Sym("]")) => break,
                            Some(Tok::Sym(",")) => continue,
                            Some(k) => {
                                let key = name_of(&k).ok_or("attribute without a name")?;
                                if next!() != Some(Tok::Sym("=")) { return Err(format!("attribute {key} without a value")); }
                                let val = next!().as_ref().and_then(name_of).ok_or(format!("attribute {key} without a value"))?;
                                at.insert(key, val);
                            }
                            None => return Err("an attribute list does not end".into()),
                        }
                    }
                }
                let label = at.get("label").cloned();
                match b {
                    Some(b) => d.edges.push((a, b, label.map(|l| shown(&l, "", &d.name)).unwrap_or_default())),
                    None => {
                        if d.nodes.contains_key(&a) { return Err(format!("{a} is drawn twice")); }
                        let l = shown(&label.ok_or(format!("{a} has no label"))?, &a, &d.name);
                        d.nodes.insert(a, (l, at.get("shape").is_some_and(|s| s == "box")));
                    }
                }
            }
            None => return Err("no closing brace".into()),
        }
    }
    if p != t.len() { return Err(format!("{} tokens after the closing brace", t.len() - p)); }
    Ok(d)
}

/// The tree a drawing shows.
enum Drawn { B { feat: String, thr: f64, yes: Box<Drawn>, no: Box<Drawn> }, L(f64) }

fn drawn(d: &Dot) -> Result<Drawn, String> {
    let mut kids: BTreeMap<&str, Vec<(&str, &str)>> = BTreeMap::new();
    let mut up: BTreeMap<&str, usize> = BTreeMap::new();
    for (a, b, l) in &d.edges {
        if !d.nodes.contains_key(a) || !d.nodes.contains_key(b) { return Err(format!("an edge between {a} and {b}, not both drawn")); }
        kids.entry(a).or_default().push((l, b));
        *up.entry(b).or_default() += 1;
    }
    let roots: Vec<&String> = d.nodes.keys().filter(|k| !up.contains_key(k.as_str())).collect();
    if roots.len() != 1 { return Err(format!("{} nodes without a parent", roots.len())); }
    if let Some((k, c)) = up.iter().find(|x| *x.1 > 1) { return Err(format!("{k} has {c} parents")); }
    fn go(d: &Dot, kids: &BTreeMap<&str, Vec<(&str, &str)>>, k: &str, seen: &mut usize) -> Result<Drawn, String> {
        *seen += 1;
        let (label, bx) = &d.nodes[k];
        match kids.get(k) {
            None => {
                if !bx { return Err(format!("leaf {k} is no box")); }
                Ok(Drawn::L(label.trim().parse::<f64>().map_err(|_| format!("leaf {k} shows {label:?}, no number"))?))
            }
            Some(v) => {
                if *bx { return Err(format!("branch {k} is a box")); }
                let yes: Vec<_> = v.iter().filter(|x| x.0 == "Yes").collect();
                let no: Vec<_> = v.iter().filter(|x| x.0 == "No").collect();
                if v.len() != 2 || yes.len() != 1 || no.len() != 1 { return Err(format!("branch {k} has the edges {v:?}")); }
                let (feat, thr) = label.strip_suffix(" ?").and_then(|l| l.rsplit_once(" < ")).ok_or(format!("branch {k} shows {label:?}"))?;
                let thr = thr.parse::<f64>().map_err(|_| format!("branch {k} shows {label:?}"))?;
                Ok(Drawn::B { feat: feat.to_string(), thr, yes: Box::new(go(d, kids, yes[0].1, seen)?), no: Box::new(go(d, kids, no[0].1, seen)?) })
            }
        }
    }
    let mut seen = 0;
    let t = go(d, &kids, roots[0], &mut seen)?;
    if seen != d.nodes.len() { return Err(format!("{} nodes drawn, {seen} of them in the tree", d.nodes.len())); }
    Ok(t)
}

const ROUND: f64 = 0.00501;
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= ROUND + 1e-9 * b.abs() }

impl Drawn {
    /// the leaf value a reader of the drawing finds for a row; None too close to a threshold to tell
    fn at(&self, names: &[String], row: &[f64]) -> Option<f64> {
        match self {
            Drawn::L(v) => Some(*v),
            Drawn::B { feat, thr, yes, no } => {
                let v = row[names.iter().position(|n| n == feat)?];
                if near(v, *thr) { return None; }
                if v < *thr { yes.at(names, row) } else { no.at(names, row) }
            }
        }
    }
    fn same(&self, t: &T, path: &str) -> Result<usize, String> {
        match (self, t) {
            (Drawn::L(a), T::L(b)) => if near(*a, *b) { Ok(1) } else { Err(format!("leaf {path} holds {b}, drawn as {a}")) },
            (Drawn::B { feat, thr, yes, no }, T::B { feat: f, thr: x, l, r }) => {
                if feat != f || !near(*thr, *x) { return Err(format!("branch {path} asks {f:?} < {x}, drawn as {feat:?} < {thr}")); }
                Ok(1 + yes.same(l, &format!("{path}L"))? + no.same(r, &format!("{path}R"))?)
            }
            _ => Err(format!("{path} is a leaf in one and a branch in the other")),
        }
    }
    fn names_in(&self, names: &[String]) -> bool {
        match self { Drawn::L(_) => true, Drawn::B { feat, yes, no, .. } => names.contains(feat) && yes.names_in(names) && no.names_in(names) }
    }
}

fn odd_names(rng: &mut Rng, d: usize) -> Vec<String> {
    const PARTS: &[&str] = &["\"", "\\", "a\\n", "\\N", "<", " < ", "?", " ?", "[", "]", "{", "}", ";", "--", "=", "é", "x", "12", "label", " ", ".", "\\\"", "node_1", "'"];
    (0..d).map(|j| { let mut s = String::new(); for _ in 0..rng.int(1, 4) { s.push_str(*rng.pick(PARTS)); } s.push_str(&format!("{j}")); if rng.bool(0.3) { s.push_str(*rng.pick(PARTS)); } s }).collect()
}

fn check_drawing(cx: &mut Cx, what: &str, write: &dyn Fn(&Path) -> std::io::Result<()>, truth: &T, d: &Data, answers: &[f64]) -> Res {
    let path = cx.file("dot");
    let old = cx.rng.bool(0.4);
    if old { fs::write(&path, "an older file\n".repeat(400)).expect("harness: write"); }
    let r = lib("to_dot_file", || write(&path))?;
    let text = fs::read_to_string(&path);
    let _ = fs::remove_file(&path);
    if let Err(e) = r { return viol("io", format!("{what}: drawing to a writable file fails: {e}")); }
    let text = match text { Ok(t) => t, Err(e) => return viol("io", format!("{what}: the drawing cannot be read: {e}")) };
    let short: String = text.chars().take(900).collect();
    let dot = match read_dot(&text) { Ok(v) => v, Err(e) => return viol("malformed", format!("{what}: the drawing is no DOT graph ({e}); features {:?}: {short}", d.names)) };
    let dr = match drawn(&dot) { Ok(v) => v, Err(e) => return viol("no-tree", format!("{what}: the drawing is no binary tree ({e}): {short}")) };
    ensure!(dr.names_in(&d.names), "feature", "{what}: the drawing asks for a feature that is none of {:?}: {short}", d.names);
    let k = match dr.same(truth, "/") { Ok(k) => k, Err(e) => return viol("different-tree", format!("{what}: {e}: {short}")) };
    for i in 0..d.n() {
        if let Some(v) = dr.at(&d.names, &d.row(i)) {
            ensure!(near(v, answers[i]), "answer", "{what}: the drawing answers {v} to row {i} = {:?}, the tree {}: {short}", d.row(i), answers[i]);
            cx.count("rows answered from the drawing", 1);
        }
    }
    if cx.rng.bool(0.2) {
        let bad = cx.scratch.join("no such folder").join("t.dot");
        let r = lib("to_dot_file(unwritable)", || write(&bad))?;
        ensure!(r.is_err(), "silent", "{what}: drawing to a file in a folder that does not exist reports success");
        cx.count("unwritable files refused", 1);
    }
    if cx.rng.bool(0.15) {
        let keep = cx.rng.below(text.len()).max(1);
        let pipe = BrokenPipe::new(cx.file("fifo"), keep);
        let r = lib("to_dot_file(failing write)", || write(&pipe.path));
        pipe.close();
        let r = r?;
        let must = text.len() > keep + BrokenPipe::CAPACITY;
        ensure!(r.is_err() || !must, "silent", "{what}: drawing {} bytes to a file that takes no more than {} of them reports success", text.len(), keep + BrokenPipe::CAPACITY);
        cx.count(if r.is_err() { "failing writes reported" } else { "failing writes too late to notice" }, 1);
    }
    cx.count("drawn nodes compared", k as u64);
    cx.max("largest drawing (nodes)", k as f64);
    if k > 1 { cx.seen(hash_str(&text)); }
    Ok(())
}

fn drawing_data(cx: &mut Cx) -> (Data, bool) {
    let n = gen_n_wide(&mut cx.rng, 1, 60, 500);
    let dd = gen_d(&mut cx.rng, 5, 30);
    let r = &mut cx.rng;
    let mut d = gen_binary(r, n, dd, ALL_KINDS);
    let odd = r.bool(0.35);
    if odd { d.names = odd_names(r, dd); }
    (d, odd)
}

fn draw_dt(cx: &mut Cx) -> Res {
    let (mut d, odd) = drawing_data(cx);
    let r = &mut cx.rng;
    let n = d.n();
    match r.below(4) { 0 => for v in d.y.iter_mut() { *v = if *v > 0.0 { 1.0 } else { 0.0 } }, 1 => { let k = r.int(2, 5); for v in d.y.iter_mut() { *v = r.below(k) as f64 * 3.0 - 4.0; } } _ => {} }
    let crit = *r.pick(if d.y.iter().all(|v| v.abs() == 1.0) { &CRIT[..] } else { &CRIT[..1] });
    let depth = gen_d(r, 7, 40);
    let w = r.simplex(n);
    cx.note(format!("{crit} depth={depth} names={:?} {} w={:?}", d.names, d.brief(), &w[..n.min(12)]));
    let s = if !odd || !cx.rng.bool(0.5) { d.dense()? } else { d.via_csv(cx)? };
    let h = lib("DecisionTree::produce", || DecisionTreeBuilder::new(&s).max_depth(depth).criterion(crit).build().produce(&s, &w))?;
    let t = read_tree(&h, "confidence")?;
    let got = lib("confidence_all", || h.confidence_all(&s))?;
    check_drawing(cx, "decision tree", &|p| h.to_dot_file(p), &t, &d, &got)
}

fn draw_rt(cx: &mut Cx) -> Res {
    let (mut d, odd) = drawing_data(cx);
    let r = &mut cx.rng;
    let n = d.n();
    d.y = gen_regression(r, n, 1, &[0]).y;
    let l = *r.pick(&[GBMLoss::L1, GBMLoss::L2]);
    let depth = gen_d(r, 7, 40);
    let cur: Vec<f64> = (0..n).map(|_| r.gauss()).collect();
    cx.note(format!("regression depth={depth} names={:?} {}", d.names, d.brief()));
    let s = if !odd || !cx.rng.bool(0.5) { d.dense()? } else { d.via_csv(cx)? };
    let h = lib("RegressionTree::produce", || RegressionTreeBuilder::new(&s).max_depth(depth).loss(l).lambda_l2(0.01).build().produce(&s, &cur))?;
    let t = read_tree(&h, "prediction")?;
    let got = lib("predict_all", || h.predict_all(&s))?;
    check_drawing(cx, "regression tree", &|p| h.to_dot_file(p), &t, &d, &got)
}

pub fn p28() -> Check {
    Check {
        id: "P28",
        rule: "a drawing counts when it has at least one branch; distinct = distinct drawings",
        assumptions: &["numbers in a drawing may be rounded to two decimals: rows within 0.005 of a drawn threshold are not answered from the drawing", "feature names contain no line break"],
        families: vec![fam("decision-tree", 4000, 60000, draw_dt), fam("regression-tree", 4000, 60000, draw_rt)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}

// ------------------------------------------------------------ editing a sample

/// What the sample should be.
#[derive(Clone)]
struct Table { cols: Vec<Vec<f64>>, names: Vec<String>, y: Vec<f64> }
impl Table {
    fn check(&self, s: &Sample, what: &str) -> Res { same_sample(s, &self.cols, &self.names, &self.y, what) }
    fn absent(&self, s: &Sample, name: &str) -> Res {
        if self.names.iter().any(|n| n == name) { return Ok(()); }
        match try_lib(|| s[name][0]) {
            Ok(v) => viol("ghost", format!("the sample answers {v} for {name:?}, which it does not have (features {:?})", self.names)),
            Err(_) => Ok(()),
        }
    }
}

fn fresh_names(rng: &mut Rng, have: &[String], d: usize) -> Vec<String> {
    match rng.below(4) {
        0 => (0..d).map(|j| format!("new {} {j}", rng.below(1000))).collect(),
        1 => { let mut v = have.to_vec(); rng.shuffle(&mut v); v }
        2 => { let mut v = have.to_vec(); if d > 0 { v.rotate_left(1); } v }
        _ => { let mut v: Vec<String> = have.to_vec(); if d > 0 { let j = rng.below(d); let mut k = rng.below(1000); while v.contains(&format!("renamed {k}")) { k += 1; } v[j] = format!("renamed {k}"); } v }
    }
}

fn edit_case(cx: &mut Cx, sparse: bool) -> Res {
    let n = gen_n_wide(&mut cx.rng, 1, 40, 400);
    let dd = gen_d(&mut cx.rng, 8, 60);
    let r = &mut cx.rng;
    let mut cols = gen_features(r, n, dd, ALL_KINDS);
    if sparse { for c in cols.iter_mut() { if r.bool(0.6) { for v in c.iter_mut() { if r.bool(0.6) { *v = 0.0; } } } } }
    let y: Vec<f64> = match r.below(3) { 0 => (0..n).map(|_| r.below(4) as f64 - 1.0).collect(), 1 => (0..n).map(|_| r.gauss()).collect(), _ => (0..n).map(|_| if r.bool(0.5) { 1.0 } else { -1.0 }).collect() };
    let names = gen_names(r, dd);
    let mut d = Data { cols, y, names };
    if sparse { d.no_zero_cols(r); d.svm_names(); }
    cx.note(format!("{} names={:?}", d.brief(), d.names));
    let (mut s, mut t) = if sparse {
        (d.sparse(cx)?, Table { cols: d.cols.clone(), names: d.names.clone(), y: d.y.clone() })
    } else if cx.rng.bool(0.5) {
        (d.dense()?, Table { cols: d.cols.clone(), names: d.names.clone(), y: d.y.clone() })
    } else {
        (d.via_csv(cx)?, Table { cols: d.cols.clone(), names: d.names.clone(), y: d.y.clone() })
    };
    t.check(&s, "new sample")?;
    let steps = cx.rng.int(1, 7);
    let mut h = d.fp();
    for step in 0..steps {
        let k = t.names.len();
        let kind = cx.rng.below(6);
        let what;
        match kind {
            0 | 1 if k > 0 => {
                let j = cx.rng.below(k);
                let name = t.names[j].clone();
                what = format!("step {step}: set_target({name:?})");
                cx.note(&what);
                let keep = if cx.rng.bool(0.3) { Some((s.clone(), t.clone())) } else { None };
                s = lib("Sample::set_target", || s.set_target(&name))?;
                t.y = t.cols.remove(j); t.names.remove(j);
                if let Some((s0, t0)) = keep { t0.check(&s0, &format!("the copy made before {what}"))?; cx.count("copies compared", 1); }
                t.absent(&s, &name)?;
                cx.count("targets set", 1);
            }
            2 | 3 => {
                let new = fresh_names(&mut cx.rng, &t.names, k);
                what = format!("step {step}: replace_names({new:?})");
                cx.note(&what);
                let old = t.names.clone();
                let got = lib("Sample::replace_names", || s.replace_names(&new))?;
                ensure!(got == old, "old-names", "{what} returns {got:?}, the names were {old:?}");
                t.names = new;
                for o in &old { t.absent(&s, o)?; }
                cx.count("renamings", 1);
            }
            4 => {
                let wrong = if k > 0 && cx.rng.bool(0.5) { k - 1 } else { k + cx.rng.int(1, 3) };
                what = format!("step {step}: replace_names with {wrong} names for {k} features");
                cx.note(&what);
                let v: Vec<String> = (0..wrong).map(|j| format!("w{j}")).collect();
                let mut c = s.clone();
                if try_lib(|| c.replace_names(&v)).is_ok() { return viol("wrong-count", format!("{what} is accepted")); }
                cx.count("wrong numbers of names refused", 1);
            }
            _ => {
                let name = format!("no such feature {}", cx.rng.below(100));
                what = format!("step {step}: set_target({name:?})");
                cx.note(&what);
                let c = s.clone();
                if try_lib(|| c.set_target(&name)).is_ok() { return viol("unknown-target", format!("{what} is accepted although the features are {:?}", t.names)); }
                t.absent(&s, &name)?;
                cx.count("unknown targets refused", 1);
            }
        }
        t.check(&s, &format!("after {what}"))?;
        h = h.wrapping_mul(31) ^ hash_str(&what);
        cx.count("edited samples compared", 1);
    }
    cx.seen(h);
    Ok(())
}
fn edit_dense(cx: &mut Cx) -> Res { edit_case(cx, false) }
fn edit_sparse(cx: &mut Cx) -> Res { edit_case(cx, true) }

/// Trees find their features by name: order of the columns, further columns, the storage and the way the
/// sample came about make no difference.
fn by_name(cx: &mut Cx) -> Res {
    let n = gen_n_wide(&mut cx.rng, 2, 60, 500);
    let dd = gen_d(&mut cx.rng, 6, 40);
    let r = &mut cx.rng;
    let mut d = gen_binary(r, n, dd, &[0, 1, 3, 4, 5, 6]);
    d.no_zero_cols(r); d.svm_names();
    let depth = r.int(1, 6);
    let w = r.simplex(n);
    let crit = *r.pick(&CRIT);
    let reg = r.bool(0.4);
    cx.note(format!("depth={depth} {} w={:?}", d.brief(), &w[..n.min(12)]));
    let s = if cx.rng.bool(0.4) { d.sparse(cx)? } else { d.dense()? };
    enum H { C(miniboosts::DecisionTreeClassifier), R(miniboosts::RegressionTreeRegressor) }
    let h = lib("produce", || if reg { H::R(RegressionTreeBuilder::new(&s).max_depth(depth).loss(GBMLoss::L2).lambda_l2(0.01).build().produce(&s, &w)) } else { H::C(DecisionTreeBuilder::new(&s).max_depth(depth).criterion(crit).build().produce(&s, &w)) })?;
    let all = |s: &Sample| lib("evaluating a tree", || match &h { H::C(h) => h.confidence_all(s), H::R(h) => h.predict_all(s) });
    let want = all(&s)?;
    // the same rows, arranged otherwise
    let mut perm: Vec<usize> = (0..dd).collect();
    cx.rng.shuffle(&mut perm);
    let mut e = Data { cols: perm.iter().map(|&j| d.cols[j].clone()).collect(), names: perm.iter().map(|&j| d.names[j].clone()).collect(), y: d.y.clone() };
    if cx.rng.bool(0.5) { let j = cx.rng.below(dd + 1); e.cols.insert(j, (0..n).map(|i| i as f64 - 3.0).collect()); e.names.insert(j, "further".into()); }
    let (es, how) = match cx.rng.below(4) {
        0 => (e.dense()?, "columns in another order"),
        1 => (e.via_csv(cx)?, "a CSV file with the columns in another order"),
        2 => {
            // load under other names, then give back the right ones
            let mut f = e.clone();
            f.names = (0..f.d()).map(|j| format!("tmp{j}")).collect();
            let mut s = f.dense()?;
            lib("Sample::replace_names", || s.replace_names(&e.names))?;
            (s, "names set by replace_names")
        }
        _ => {
            // one column too many, then chosen as the target
            let j = cx.rng.below(e.d() + 1);
            let path = cx.file("csv");
            let mut f = e.clone();
            f.names.insert(j, "its class".into()); f.cols.insert(j, e.y.clone());
            fs::write(&path, f.csv_text(f.d(), "first target", true)).expect("harness: write");
            let s = lib("SampleReader::read", || SampleReader::default().file(path.clone()).has_header(true).target_feature("first target").read().expect("read failed"));
            let _ = fs::remove_file(&path);
            (lib("Sample::set_target", || s.map(|s| s.set_target("its class")))??, "target set afterwards")
        }
    };
    let got = all(&es)?;
    for i in 0..n { ensure!(got[i] == want[i], "by-name", "row {i} is answered {} by the tree, {} with {how}", want[i], got[i]); }
    let other = if s.features().iter().all(|f| matches!(f, miniboosts::Feature::Dense(_))) { d.sparse(cx)? } else { d.dense()? };
    let got = all(&other)?;
    for i in 0..n { ensure!(got[i] == want[i], "storage", "row {i} is answered {} by the tree, {} from the other storage", want[i], got[i]); }
    cx.count("rows answered by name", 2 * n as u64);
    if want.iter().any(|v| *v != want[0]) { cx.seen(hash_f64s(depth as u64, &want)); }
    Ok(())
}

pub fn p29() -> Check {
    Check {
        id: "P29",
        rule: "an edit history counts when at least one operation was made; distinct = distinct histories on distinct samples; a tree counts when it does not answer alike everywhere",
        assumptions: &["feature names are distinct", "sparse test files hold every feature (a feature that is zero in the whole file is dropped by the reader)"],
        families: vec![fam("dense", 3000, 50000, edit_dense), fam("sparse", 2000, 30000, edit_sparse), fam("by-name", 2500, 40000, by_name)],
        stuck_s: 120, stuck_is_violation: true, judge: None,
    }
}
