//! C28 the Python module: it does what the Rust library does.

use crate::runner::{Arm, Fail, Info, Prop, fail, guarded, scratch_dir};
use crate::src::Src;
use pyo3::prelude::*;
use pyo3::types::PyDict;
use pywr_core::solvers::{HighsSolver, HighsSolverSettings, SimdIpmF64Solver, SimdIpmSolverSettings};
use pywr_schema::{ModelSchema, MultiNetworkModelSchema};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::Path;

macro_rules! check {
    ($c:expr, $sig:expr, $($m:tt)*) => { if !($c) { return fail($sig, format!($($m)*)); } };
}

/// The source of the extension module, compiled in.
#[allow(dead_code, unused_imports, clippy::all)]
mod module {
    include!("/repo/pywr-python/src/lib.rs");

    pub fn make(py: Python<'_>) -> Py<PyModule> {
        pyo3::wrap_pymodule!(pywr)(py)
    }
}

const DRIVER: &str = include_str!("driver.py");

/// Give a job to Python.
fn python(job: &Value) -> Result<Value, Fail> {
    static MODULE: std::sync::OnceLock<Py<PyAny>> = std::sync::OnceLock::new();
    Python::initialize();
    let r = Python::attach(|py| -> PyResult<String> {
        let d = match MODULE.get() {
            Some(d) => d,
            None => {
                let sys = py.import("sys")?;
                sys.setattr("dont_write_bytecode", true)?;
                sys.getattr("path")?.call_method1("insert", (0, "/repo/pywr-python"))?;
                sys.getattr("modules")?.set_item("pywr.pywr", module::make(py))?;
                let g = PyDict::new(py);
                py.run(&std::ffi::CString::new(DRIVER).unwrap(), Some(&g), None)?;
                MODULE.get_or_init(|| g.get_item("go").unwrap().unwrap().unbind())
            }
        };
        d.call1(py, (job.to_string(),))?.extract(py)
    });
    match r {
        Ok(t) => Ok(serde_json::from_str(&t).expect("JSON of the driver")),
        Err(e) => fail("driver", format!("{e}: {job}")),
    }
}

/// What is read from the JSON of something (which loses the last digits of some numbers).
pub fn value(x: &impl serde::Serialize) -> Value {
    serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap()
}

/// A model of either kind, as the Rust library gives it.
enum Schema {
    One(Box<ModelSchema>),
    Many(Box<MultiNetworkModelSchema>),
}

/// Value, or an error: text, and for errors in Python code its exception.
type Outcome<T> = Result<T, String>;

const PANIC: &str = "a panic";

/// Results of outputs by network and name
type Results = BTreeMap<String, BTreeMap<String, Result<u64, String>>>;

fn collect(r: &pywr_core::network::NetworkResult, names: &[String]) -> BTreeMap<String, Result<u64, String>> {
    names
        .iter()
        .filter_map(|n| r.get(n).map(|x| {
            // Panics of the library itself are for other properties.
            let v = guarded(|| x.aggregated_value().map(f64::to_bits).map_err(|e| e.to_string()));
            (n.clone(), v.unwrap_or_else(|_| Err(PANIC.into())))
        }))
        .collect()
}

enum Built {
    One(Box<pywr_core::models::Model>),
    Many(Box<pywr_core::models::MultiNetworkModel>),
}

impl Schema {
    fn read(text: &str, many: bool) -> Outcome<Schema> {
        Ok(if many {
            Schema::Many(Box::new(text.parse::<MultiNetworkModelSchema>().map_err(|e| e.to_string())?))
        } else {
            Schema::One(Box::new(text.parse::<ModelSchema>().map_err(|e| e.to_string())?))
        })
    }
    fn from_path(p: &Path, many: bool) -> Outcome<Schema> {
        Ok(if many {
            Schema::Many(Box::new(MultiNetworkModelSchema::from_path(p).map_err(|e| e.to_string())?))
        } else {
            Schema::One(Box::new(ModelSchema::from_path(p).map_err(|e| e.to_string())?))
        })
    }
    fn json(&self) -> Value {
        match self {
            Schema::One(s) => value(s),
            Schema::Many(s) => value(s),
        }
    }
    fn build(&self, data: Option<&Path>, out: Option<&Path>) -> Outcome<Built> {
        Ok(match self {
            Schema::One(s) => {
                let b = s.create_model_builder(data, out).map_err(|e| e.to_string())?;
                Built::One(Box::new(b.build().map_err(|e| e.to_string())?))
            }
            Schema::Many(s) => {
                let b = s.create_model_builder(data, out).map_err(|e| e.to_string())?;
                Built::Many(Box::new(b.build().map_err(|e| e.to_string())?))
            }
        })
    }
}

#[derive(Debug, Clone)]
struct Settings {
    ipm: bool,
    threads: Option<usize>,
    parallel: Option<bool>,
    ignore: Option<bool>,
}

fn gen_settings(s: &mut Src) -> Settings {
    let ipm = s.chance(1, 4);
    Settings {
        ipm,
        threads: s.chance(1, 2).then(|| s.us(4)),
        parallel: s.chance(1, 2).then(|| s.bool()),
        ignore: (ipm && s.chance(1, 3)).then(|| s.bool()),
    }
}

impl Settings {
    fn kwargs(&self, s: &mut Src) -> Value {
        let mut v = serde_json::Map::new();
        if let Some(t) = self.threads {
            v.insert("threads".into(), json!(t));
        }
        if let Some(p) = self.parallel {
            v.insert("parallel".into(), json!(p));
        }
        if let Some(p) = self.ignore {
            v.insert("ignore_feature_requirements".into(), json!(p));
        }
        if v.is_empty() && s.bool() { Value::Null } else { Value::Object(v) }
    }
    fn name(&self) -> &'static str {
        if self.ipm { "ipm-simd" } else { "highs" }
    }
    fn highs(&self) -> HighsSolverSettings {
        let mut b = pywr_core::solvers::HighsSolverSettingsBuilder::default();
        if let Some(t) = self.threads {
            b = b.threads(t);
        }
        if self.parallel == Some(true) {
            b = b.parallel();
        }
        b.build()
    }
    fn simd(&self) -> SimdIpmSolverSettings {
        let mut b = pywr_core::solvers::SimdIpmSolverSettingsBuilder::default();
        if let Some(t) = self.threads {
            b = b.threads(t);
        }
        if self.parallel == Some(true) {
            b = b.parallel();
        }
        if self.ignore == Some(true) {
            b = b.ignore_feature_requirements();
        }
        b.build()
    }
    fn run(&self, m: &Built, names: &[String], nets: &[String]) -> Outcome<Results> {
        match m {
            Built::One(m) => {
                let r = if self.ipm {
                    m.run_multi_scenario::<SimdIpmF64Solver>(&self.simd()).map_err(|e| e.to_string())?
                } else {
                    m.run::<HighsSolver>(&self.highs()).map_err(|e| e.to_string())?
                };
                Ok([(String::new(), collect(&r.network_result, names))].into_iter().collect())
            }
            Built::Many(m) => {
                let r = if self.ipm {
                    m.run_multi_scenario::<SimdIpmF64Solver>(&self.simd()).map_err(|e| e.to_string())?
                } else {
                    m.run::<HighsSolver>(&self.highs()).map_err(|e| e.to_string())?
                };
                Ok(nets.iter().map(|n| (n.clone(), r.network_results.get(n).map(|x| collect(x, names)).unwrap_or_default())).collect())
            }
        }
    }
}

/// The files of a folder.
pub fn files(d: &Path) -> BTreeMap<String, Vec<u8>> {
    std::fs::read_dir(d)
        .map(|r| r.flatten().map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default())).collect())
        .unwrap_or_default()
}

/// What Python made of something has to be an ordinary exception with the message of the library.
fn same_error(got: &Value, want: &str, what: &str, doc: &dyn std::fmt::Display) -> Result<(), Fail> {
    if let Some(p) = got.get("panic") {
        return fail("panic", format!("{what} raises {p}, expected `{want}`: {doc}"));
    }
    let Some(e) = got.get("err") else { return fail("accepted", format!("{what} gives {got}, expected `{want}`: {doc}")) };
    check!(e[0][0] == "RuntimeError", "exception", "{what} raises {}, not a RuntimeError: {doc}", e[0]);
    let text = e[0][1].as_str().unwrap_or_default();
    check!(stable(text) == stable(want), "message", "{what} raises `{text}`, expected `{want}`: {doc}");
    Ok(())
}

/// Without what differs from one time to another: addresses of objects.
fn stable(t: &str) -> String {
    let mut o = String::new();
    let mut rest = t;
    while let Some(i) = rest.find("0x") {
        o += &rest[..i + 2];
        rest = rest[i + 2..].trim_start_matches(|c: char| c.is_ascii_hexdigit());
    }
    o + rest
}

struct Doc {
    text: String,
    many: bool,
    nets: Vec<String>,
    outputs: Vec<String>,
}

/// Read, build and run a document in both ways.
/// Another current folder, for a time.
struct Here(std::path::PathBuf);

impl Here {
    fn go(to: &Path) -> Here {
        let back = std::env::current_dir().unwrap();
        std::env::set_current_dir(to).unwrap();
        Here(back)
    }
}

impl Drop for Here {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}

fn compare(s: &mut Src, info: &mut Info, doc: &Doc, dir: &Path) -> Result<(), Fail> {
    let show = &doc.text;
    let settings: Vec<Settings> = (0..s.size(1, 3)).map(|_| gen_settings(s)).collect();
    let kwargs: Vec<Value> = settings.iter().map(|x| x.kwargs(s)).collect();
    let by_path = s.bool();
    let file = dir.join("model.json");
    if by_path {
        std::fs::write(&file, &doc.text).unwrap();
    }
    // Data and outputs are in a folder that is named, or in the current one.
    let results = dir.join("results");
    let _ = std::fs::create_dir(&results);
    let (data, out, here) = match s.below(5) {
        0 => (None, None, dir),
        1 => (None, Some(results.as_path()), dir),
        2 => (Some(dir), None, results.as_path()),
        3 => (Some(dir), Some(results.as_path()), dir.parent().unwrap()),
        _ => (Some(dir), Some(dir), dir.parent().unwrap()),
    };
    let _back = Here::go(here);
    let both = || -> BTreeMap<String, Vec<u8>> {
        let mut all = files(dir);
        all.extend(files(&results).into_iter().map(|(f, c)| (format!("results/{f}"), c)));
        all
    };
    // With Rust
    let input = both();
    let schema = if by_path { Schema::from_path(&file, doc.many) } else { Schema::read(&doc.text, doc.many) };
    let mut built: Option<Outcome<Built>> = None;
    let mut runs: Vec<(Result<Outcome<Results>, String>, BTreeMap<String, Vec<u8>>)> = Vec::new();
    if let Ok(x) = &schema {
        let b = match guarded(|| x.build(data, out)) {
            Ok(b) => b,
            // A fault of other properties
            Err(p) => return fail("rust-panic", format!("{p}: {show}")),
        };
        if let Ok(m) = &b {
            for c in &settings {
                let r = guarded(|| c.run(m, &doc.outputs, &doc.nets));
                runs.push((r, both()));
            }
        }
        built = Some(b);
    }
    for f in both().keys().filter(|f| !input.contains_key(*f)) {
        let _ = std::fs::remove_file(dir.join(f));
    }
    // With Python
    let job = json!({"op": "model", "many": doc.many, "text": if by_path { Value::Null } else { json!(doc.text) }, "path": file,
        "data": data, "out": out, "folder": dir, "keywords": s.bool(), "nets": doc.nets,
        "again": s.chance(1, 4),
        "runs": settings.iter().zip(&kwargs).map(|(x, k)| json!([x.name(), k])).collect::<Vec<_>>()});
    let r = python(&job)?;
    let x = match &schema {
        Err(e) => {
            info.label("unreadable");
            return same_error(&r["schema"], e, "reading", show);
        }
        Ok(x) => x,
    };
    let Some(t) = r["schema"]["ok"].as_str() else { return fail("refused", format!("reading raises {}: {show}", r["schema"])) };
    let written: Value = match serde_json::from_str(t) {
        Ok(v) => v,
        Err(e) => return fail("written", format!("`{t}` is not JSON: {e}")),
    };
    check!(written == x.json(), "written", "to_json_string gives {written}, expected {}: {show}", x.json());
    match built.unwrap() {
        Err(e) => {
            info.label("not-built");
            return same_error(&r["build"], &e, "building", show);
        }
        Ok(_) => check!(r["build"]["ok"] == true, "refused", "building raises {}: {show}", r["build"]),
    }
    for (k, (want, names)) in runs.iter().enumerate() {
        let got = &r["runs"][k];
        check!(got["kwargs"] == kwargs[k], "settings-changed", "the settings {} are {} after the run: {show}", kwargs[k], got["kwargs"]);
        match want {
            Err(p) => {
                // Only that it comes out as something
                check!(got["result"].get("ok").is_none(), "accepted", "a run with {:?} that panics ({p}) has a result: {show}", settings[k]);
                info.label("panics");
            }
            Ok(Err(e)) => {
                same_error(&got["result"], e, &format!("running with {:?}", settings[k]), show)?;
                info.label("run-fails");
            }
            Ok(Ok(w)) => {
                let g = &got["result"];
                check!(g.get("ok").is_some(), "run-refused", "running with {:?} raises {g}: {show}", settings[k]);
                for (net, outs) in w {
                    let g = &g["ok"][net];
                    let mut names: Vec<&str> = g["names"].as_array().map(|a| a.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
                    names.sort_unstable();
                    let mut expected: Vec<&str> = outs.keys().map(|x| x.as_str()).collect();
                    expected.sort_unstable();
                    check!(names == expected, "names", "output_names of `{net}` are {names:?}, expected {expected:?}: {show}");
                    for (o, v) in outs {
                        let g = &g["values"][o];
                        match v {
                            Ok(v) => {
                                let b = g["ok"].as_str().and_then(|x| u64::from_str_radix(x, 16).ok());
                                check!(b == Some(*v), "value", "`{o}` of `{net}` run {k} with {:?} is {:?}, expected {}: {show}", settings[k], b.map(f64::from_bits), f64::from_bits(*v));
                                info.count("values", 1);
                            }
                            Err(e) if e == PANIC => check!(g.get("ok").is_none(), "accepted", "{g}: {show}"),
                            Err(e) => same_error(g, e, &format!("the value of `{o}`"), show)?,
                        }
                    }
                    check!(g["values"]["no such output"]["err"][0][0] == "KeyError", "unknown-output", "{}: {show}", g["values"]["no such output"]);
                }
                check!(got["timings"] == true, "timings", "{}: {show}", got["timings"]);
                if doc.many {
                    check!(g["ok"]["no such network"]["err"][0][0] == "KeyError", "unknown-network", "{}: {show}", g["ok"]["no such network"]);
                }
                // Each run writes its files anew.
                for (f, c) in names.iter().filter(|(f, _)| f.ends_with(".csv") && !input.contains_key(*f)) {
                    let g = got["files"][f].as_str().map(|x| x.as_bytes().to_vec());
                    check!(g.as_ref() == Some(c), "file", "`{f}` of run {k} is {:?}, expected {:?}: {show}", got["files"][f], String::from_utf8_lossy(c));
                    info.count("files", 1);
                }
                let extra = got["files"].as_object().and_then(|m| m.keys().find(|f| !names.contains_key(*f)));
                check!(extra.is_none(), "file", "a file {extra:?} that Rust does not write: {show}");
                info.label(match (data.is_some(), out.is_some()) {
                    (true, true) => "folders",
                    (true, false) => "data-folder",
                    (false, true) => "output-folder",
                    _ => "current-folder",
                });
                info.nontrivial = true;
            }
        }
    }
    Ok(())
}

fn one(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let dir = scratch_dir("py");
    let Some(doc) = crate::recorders::any_document(s, &dir) else { return Ok(()) };
    info.desc(doc.to_string());
    let outputs = doc["network"]["outputs"].as_array().map(|a| a.iter().map(|o| o["name"].as_str().unwrap().to_string()).collect()).unwrap_or_default();
    compare(s, info, &Doc { text: doc.to_string(), many: false, nets: vec![String::new()], outputs }, &dir)
}

fn many(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let dir = scratch_dir("py");
    let (mut doc, nets) = crate::multinet::any_document(s, &dir);
    for (k, n) in doc["networks"].as_array_mut().unwrap().iter_mut().enumerate() {
        if n["network"].is_string() {
            continue;
        }
        n["network"]["metric_sets"] = json!([{"name": "all", "filters": {"all_nodes": true, "all_edges": s.bool()}}]);
        let f = *s.pick(&["Sum", "Mean", "Max", "Min"]);
        n["network"]["outputs"] = json!([
            {"name": "mem", "type": "Memory", "metric_set": "all", "aggregation": {"scenario": {"type": f}, "time": {"type": "Sum"}, "metric": {"type": "Mean"}}},
            {"name": "file", "type": "CSV", "format": "Long", "filename": format!("out{k}.csv"), "metric_set": "all"},
        ]);
    }
    info.desc(doc.to_string());
    compare(s, info, &Doc { text: doc.to_string(), many: true, nets, outputs: vec!["mem".into(), "file".into()] }, &dir)
}

/// Documents that can not be read, built or run.
fn wrong(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let dir = scratch_dir("py");
    let many = s.chance(1, 3);
    let (doc, nets) = if many {
        crate::multinet::any_document(s, &dir)
    } else {
        let Some(d) = crate::recorders::any_document(s, &dir) else { return Ok(()) };
        (d, vec![String::new()])
    };
    let mut text = doc.to_string();
    match s.below(4) {
        0 => {
            // A piece is missing.
            let (a, b) = (s.us(text.len()), s.us(20));
            let keep: Vec<char> = text.chars().collect();
            let (a, b) = (a.min(keep.len()), (a + b).min(keep.len()));
            text = keep[..a].iter().chain(&keep[b..]).collect();
        }
        1 => {
            // A word or number is another one.
            let mut doc = doc.clone();
            spoil(s, &mut doc);
            text = doc.to_string();
        }
        _ => {
            let mut doc = doc.clone();
            for _ in 0..s.size(1, 3) {
                spoil(s, &mut doc);
            }
            text = doc.to_string();
        }
    }
    info.desc(text.clone());
    // Names may be other ones now.
    let now: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
    let list = |v: &Value| v.as_array().map(|a| a.iter().filter_map(|o| o["name"].as_str().map(|x| x.to_string())).collect::<Vec<_>>());
    let outputs = list(&now["network"]["outputs"]).unwrap_or_default();
    let nets = list(&now["networks"]).unwrap_or(nets);
    match compare(s, info, &Doc { text, many, nets, outputs }, &dir) {
        // Panics of the library itself are for other properties.
        Err(f) if f.sig == "rust-panic" => Ok(()),
        r => {
            info.nontrivial = true;
            r
        }
    }
}

/// Change one value of a document.
pub fn spoil(s: &mut Src, doc: &mut Value) {
    fn leaves(v: &Value, at: &str, out: &mut Vec<String>) {
        match v {
            Value::Object(m) => m.iter().for_each(|(k, x)| leaves(x, &format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out)),
            Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| leaves(x, &format!("{at}/{i}"), out)),
            _ => out.push(at.to_string()),
        }
    }
    let mut l = Vec::new();
    leaves(doc, "", &mut l);
    // Times and sizes stay, so that the run does not become longer.
    l.retain(|p| !p.starts_with("/time") && !p.starts_with("/scenarios") && !p.contains("filename"));
    let p = s.pick(&l).clone();
    let v = doc.pointer_mut(&p).unwrap();
    *v = match s.below(4) {
        0 => json!("nobody"),
        1 => json!(-1.5),
        2 => Value::Null,
        _ => json!({"type": "Nothing"}),
    };
}

/// Solvers and settings which do not exist.
fn settings(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let dir = scratch_dir("py");
    let many = s.chance(1, 3);
    let doc = if many {
        crate::multinet::any_document(s, &dir).0
    } else {
        let Some(d) = crate::recorders::any_document(s, &dir) else { return Ok(()) };
        d
    };
    let solver = *s.pick(&["highs", "highs", "ipm-simd"]);
    let mut kw = json!({});
    if s.bool() {
        kw["threads"] = json!(1);
    }
    if s.bool() {
        kw["parallel"] = json!(s.bool());
    }
    let (name, named) = match s.below(4) {
        0 => {
            let n = *s.pick(&["", "simplex", "Highs", "highs ", "ipm_simd", "no solver"]);
            (n, n.to_string())
        }
        1 => {
            let k = *s.pick(&["Threads", "tolerance", "no such setting", ""]);
            kw[k] = json!(1);
            (solver, k.to_string())
        }
        2 => {
            kw["threads"] = s.pick(&[json!(-1), json!("two"), json!(1.5), json!([1]), json!(null)]).clone();
            (solver, String::new())
        }
        _ => {
            kw["parallel"] = s.pick(&[json!("yes"), json!(2), json!(null), json!([])]).clone();
            (solver, String::new())
        }
    };
    info.desc(format!("{name:?} {kw}"));
    info.nontrivial = true;
    let job = json!({"op": "model", "many": many, "text": doc.to_string(), "data": &*dir, "out": &*dir, "folder": &*dir, "keywords": s.bool(), "nets": [], "again": false, "runs": [[name, kw]]});
    let r = python(&job)?;
    check!(r["build"]["ok"] == true, "refused", "{}: {doc}", r["build"]);
    let got = &r["runs"][0];
    check!(got["kwargs"] == kw, "settings-changed", "the settings {kw} are {} after the run", got["kwargs"]);
    let g = &got["result"];
    if let Some(p) = g.get("panic") {
        return fail("panic", format!("{name:?} {kw}: {p}"));
    }
    check!(g.get("err").is_some(), "accepted", "{name:?} with {kw} ran");
    let e = g["err"][0][1].as_str().unwrap_or_default();
    check!(e.contains(&named), "message", "{name:?} with {kw}: `{e}` does not name {named:?}");
    Ok(())
}

/// The conversion of documents of version 1.
fn v1(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let dir = scratch_dir("py");
    let mut doc = crate::v1::any_document(s, &dir);
    for _ in 0..s.size(0, 2) {
        spoil(s, &mut doc);
    }
    let text = doc.to_string();
    info.desc(text.clone());
    let want = guarded(|| ModelSchema::from_v1_str(&text).map_err(|e| e.to_string()));
    let want = match want {
        Ok(w) => w,
        Err(_) => return Ok(()),
    };
    let r = python(&json!({"op": "v1", "text": text}))?;
    match want {
        Err(e) => {
            info.label("unreadable");
            same_error(&r["schema"], &e, "converting", &text)
        }
        Ok((w, errors)) => {
            let g = &r["schema"];
            let Some(t) = g["ok"].as_str() else { return fail("refused", format!("{g}: {text}")) };
            let t: Value = serde_json::from_str(t).unwrap_or(Value::Null);
            let w = value(&w);
            check!(t == w, "converted", "{t}, expected {w}: {text}");
            let got: Vec<Value> = r["errors"].as_array().cloned().unwrap_or_default();
            check!(got.len() == errors.len(), "errors", "{} errors, expected {}: {text}", got.len(), errors.len());
            for (g, e) in got.iter().zip(&errors) {
                use pywr_schema::ComponentConversionError as C;
                let (ty, fields): (&str, Vec<(&str, String)>) = match e {
                    C::Node { attr, name, .. } => ("Node", vec![("attr", attr.clone()), ("name", name.clone())]),
                    C::Parameter { attr, name, .. } => ("Parameter", vec![("attr", attr.clone()), ("name", name.clone())]),
                    C::Time { .. } => ("Time", vec![]),
                    C::Scenarios { .. } => ("Scenarios", vec![]),
                    C::Table { name, .. } => ("Table", vec![("name", name.clone())]),
                    C::Edge { from_node, to_node, .. } => ("Edge", vec![("from_node", from_node.clone()), ("to_node", to_node.clone())]),
                };
                check!(g["type"].as_str().is_some_and(|t| t.ends_with(ty)), "error-type", "{g}, expected {e}: {text}");
                for (k, v) in fields {
                    check!(g[k] == v, "error-field", "{k} of {g}, expected {v} ({e}): {text}");
                }
                info.count("errors", 1);
            }
            info.nontrivial = true;
            Ok(())
        }
    }
}

/// The conversion of metrics of version 1.
fn v1_metric(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    use pywr_schema::TryIntoV2;
    let text = match s.below(6) {
        0 => json!(s.num(-10.0, 10.0, 0.25)).to_string(),
        1 => json!(*s.pick(&["a parameter", "", "ü"])).to_string(),
        2 => json!({"type": "constant", "value": s.num(-10.0, 10.0, 0.25)}).to_string(),
        3 => json!({"table": "t", "column": *s.pick(&["a", "b"]), "index": *s.pick(&["x", "y"])}).to_string(),
        4 => crate::v1::any_parameter(s).to_string(),
        _ => {
            let t = crate::v1::any_parameter(s).to_string();
            let n = s.us(t.chars().count());
            t.chars().take(n).collect()
        }
    };
    info.desc(text.clone());
    let want = guarded(|| -> Result<Value, String> {
        let v: pywr_v1_schema::parameters::ParameterValue = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        let m: pywr_schema::metric::Metric =
            v.try_into_v2(None, &mut pywr_schema::ConversionData::default()).map_err(|e: pywr_schema::ConversionError| e.to_string())?;
        Ok(value(&m))
    });
    let Ok(want) = want else { return Ok(()) };
    let r = python(&json!({"op": "metric", "text": text}))?;
    info.nontrivial = true;
    match want {
        Err(e) => same_error(&r["metric"], &e, "converting", &text),
        Ok(w) => {
            let Some(t) = r["metric"]["ok"].as_str() else { return fail("refused", format!("{}: {text}", r["metric"])) };
            let t: Value = serde_json::from_str(t).unwrap_or(Value::Null);
            check!(t == w, "converted", "{t}, expected {w}: {text}");
            Ok(())
        }
    }
}

/// New, empty models, and the published schema.
fn fresh(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let many = s.bool();
    let title = s.pick(&["", "a title", "\"ü\"\n"]).to_string();
    let when = |s: &mut Src| {
        let d = crate::sim::gen_date(s);
        jiff::civil::DateTime::from_parts(d, jiff::civil::time(s.us(24) as i8, s.us(60) as i8, s.us(60) as i8, (s.us(2) * s.us(1_000_000) * 1000) as i32))
    };
    let (a, b) = (when(s), when(s));
    let parts = |d: jiff::civil::DateTime| json!([d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second(), d.subsec_nanosecond() / 1000]);
    info.desc(format!("{title:?} {a} {b} many {many}"));
    let dir = scratch_dir("py");
    let job = json!({"op": "new", "many": many, "title": title, "start": parts(a), "end": parts(b), "schema": dir.join("schema.json")});
    let r = python(&job)?;
    let Some(t) = r["schema"]["ok"].as_str() else { return fail("refused", format!("{}: {job}", r["schema"])) };
    let t: Value = serde_json::from_str(t).unwrap_or(Value::Null);
    check!(t["metadata"]["title"] == title, "title", "{t}: {job}");
    for (k, d) in [("start", a), ("end", b)] {
        let g = t["time"][k].as_str().and_then(|x| x.parse::<jiff::civil::DateTime>().ok());
        check!(g == Some(d), "date", "{k} is {}, expected {d}", t["time"][k]);
    }
    let w = if many { value(&MultiNetworkModelSchema::new(&title, &a, &b)) } else { value(&ModelSchema::new(&title, &a, &b)) };
    check!(t == w, "new", "{t}");
    let p: Value = std::fs::read_to_string(dir.join("schema.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
    check!(p == *crate::docs::published(), "published", "the exported schema differs from that of ModelSchema");
    check!(r["nowhere"].get("err").is_some(), "nowhere", "{}", r["nowhere"]);
    info.nontrivial = true;
    Ok(())
}

/// Python code that can not be loaded is the cause of the exception.
fn cause(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let dir = scratch_dir("py");
    let (code, ty, text) = s
        .pick(&[
            ("raise ValueError('the reason')\n", "ValueError", "the reason"),
            ("import no_such_module\n", "ModuleNotFoundError", "no_such_module"),
            ("def f(:\n", "SyntaxError", ""),
            ("1 / 0\n", "ZeroDivisionError", "division by zero"),
        ])
        .to_owned();
    std::fs::write(dir.join("bad.py"), code).unwrap();
    std::fs::write(dir.join("good.py"), "def g(*args):\n    return 1.0\n").unwrap();
    let (mut ty, mut text) = (ty, text);
    let source = match s.below(4) {
        0 => {
            // The file is right, and has no such function.
            (ty, text) = ("AttributeError", "f");
            json!({"type": "Path", "path": "good.py"})
        }
        1 => {
            (ty, text) = ("ModuleNotFoundError", "no_such_module");
            json!({"type": "Module", "module": "no_such_module"})
        }
        _ => json!({"type": "Path", "path": "bad.py"}),
    };
    let object = if s.bool() { json!({"type": "Function", "function": "f"}) } else { json!({"type": "Class", "class": "f"}) };
    let p = json!({"type": "Python", "meta": {"name": "p"}, "source": source, "object": object, "return_type": *s.pick(&["Float", "Int", "Dict"])});
    let local = json!({"type": "Python", "meta": {"name": "p"}, "source": source, "object": object, "return_type": "Float"});
    let f = json!({"type": "Python", "source": source, "object": "f"});
    let mut net = json!({
        "nodes": [{"meta": {"name": "in"}, "type": "Input", "max_flow": crate::schema::lit(1.0)}, {"meta": {"name": "out"}, "type": "Output"}],
        "edges": [{"from_node": "in", "to_node": "out"}],
    });
    let place = s.below(6);
    match place {
        0 => net["parameters"] = json!([p]),
        1 => {
            net["nodes"][0]["parameters"] = json!([local]);
            net["nodes"][0]["max_flow"] = json!({"type": "LocalParameter", "name": "p"});
        }
        2 => {
            net["metric_sets"] = json!([{"name": "all", "filters": {"all_nodes": true}, "aggregator": {"func": f}}]);
        }
        3 => {
            let sum = json!({"type": "Sum"});
            net["metric_sets"] = json!([{"name": "all", "filters": {"all_nodes": true}, "aggregator": {"func": sum, "child": {"func": f, "freq": {"type": "Monthly"}}}}]);
        }
        4 => {
            net["metric_sets"] = json!([{"name": "all", "filters": {"all_nodes": true}}]);
            let k = *s.pick(&["time", "scenario", "metric"]);
            net["outputs"] = json!([{"type": "Memory", "name": "o", "metric_set": "all", "aggregation": {k: f}}]);
        }
        _ => {
            net["parameters"] = json!([{"type": "Rolling", "meta": {"name": "p"}, "metric": crate::schema::lit(1.0), "window_size": 2, "min_values": 1,
                "initial_value": 1.0, "agg_func": f}]);
        }
    }
    let time = crate::schema::time_section(jiff::civil::date(2020, 1, 1).at(0, 0, 0, 0), 24, 2);
    let many = s.bool();
    let doc = if many {
        json!({"metadata": {"title": "x"}, "time": time, "networks": [{"name": "n", "network": net, "transfers": []}]})
    } else {
        crate::schema::document(time, None, net)
    };
    info.desc(format!("{code:?} {doc}"));
    info.nontrivial = true;
    let job = json!({"op": "model", "many": many, "text": doc.to_string(), "data": &*dir, "out": &*dir, "folder": &*dir, "keywords": false, "nets": [], "again": false, "runs": []});
    let r = python(&job)?;
    let e = &r["build"]["err"];
    check!(e[0][0] == "RuntimeError", "exception", "{}: {doc}", r["build"]);
    check!(e[1][0] == ty && e[1][1].as_str().unwrap_or_default().contains(text), "cause", "{e}, expected {ty} `{text}` as the cause: {doc}");
    Ok(())
}

/// The function of the package that runs a document in a file, and its command line.
fn from_path(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let dir = scratch_dir("py");
    let Some(mut doc) = crate::recorders::any_document(s, &dir) else { return Ok(()) };
    if s.chance(1, 6) {
        spoil(s, &mut doc);
    }
    info.desc(doc.to_string());
    // The folders are that of the document unless they are given.
    let (data, out) = (s.bool(), s.bool());
    let (results, docs) = (dir.join("results"), dir.join("docs"));
    let _ = (std::fs::create_dir(&results), std::fs::create_dir(&docs));
    let home = if data && s.bool() { docs.as_path() } else { &*dir };
    let to = if out { results.as_path() } else { home };
    std::fs::write(home.join("model.json"), doc.to_string()).unwrap();
    let all = || -> BTreeMap<String, Vec<u8>> {
        let mut all = files(&dir);
        for (n, d) in [("results", &results), ("docs", &docs)] {
            all.extend(files(d).into_iter().map(|(f, c)| (format!("{n}/{f}"), c)));
        }
        all
    };
    let input = all();
    let x = Schema::from_path(&home.join("model.json"), false);
    let want = guarded(|| -> Outcome<()> {
        let m = x?.build(Some(&dir), Some(to))?;
        Settings { ipm: false, threads: None, parallel: None, ignore: None }.run(&m, &[], &[])?;
        Ok(())
    });
    // Panics of the library itself are for other properties.
    let Ok(want) = want else { return Ok(()) };
    let names = all();
    for f in names.keys().filter(|f| !input.contains_key(*f)) {
        let _ = std::fs::remove_file(dir.join(f));
    }
    let path = home.join("model.json");
    if s.bool() {
        let r = python(&json!({"op": "run", "path": path, "data": data.then(|| dir.to_path_buf()), "out": out.then(|| to.to_path_buf())}))?;
        if let Err(e) = &want {
            info.label("fails");
            return same_error(&r["result"], e, "run_from_path", &doc);
        }
        check!(r["result"].get("ok").is_some(), "refused", "{}: {doc}", r["result"]);
        info.label("function");
    } else {
        let mut args = vec!["run".to_string()];
        let option = |s: &mut Src, args: &mut Vec<String>, long: &str, short: &str, v: &str| {
            if s.bool() { args.push(format!("--{long}={v}")) } else { args.extend([format!("-{short}"), v.to_string()]) }
        };
        option(s, &mut args, "solver", "s", "highs");
        if data {
            option(s, &mut args, "data-path", "d", &dir.display().to_string());
        }
        if out {
            option(s, &mut args, "output-path", "o", &to.display().to_string());
        }
        let at = if s.bool() { 1 } else { args.len() };
        args.insert(at, path.display().to_string());
        // Arguments that have to be refused
        let bad = s.chance(1, 8);
        if bad {
            match s.below(4) {
                0 => args.extend(["-s".to_string(), s.pick(&["", "Highs", "simplex"]).to_string()]),
                1 => args.push("--no-such-option".into()),
                2 => args[at] = dir.join("no such file.json").display().to_string(),
                _ => args.extend(["-o".to_string(), dir.join("no such folder").display().to_string()]),
            }
        }
        let r = python(&json!({"op": "cli", "args": args}))?;
        if r.get("absent").is_some() {
            info.label("no-click");
            return Ok(());
        }
        if bad {
            check!(r["code"] != 0, "accepted", "{args:?} gives {r}");
            check!(all().keys().all(|f| input.contains_key(f)), "file", "{args:?} writes {:?}", all().keys());
            info.label("refused");
            info.nontrivial = true;
            return Ok(());
        }
        if let Err(e) = &want {
            check!(r["code"] != 0, "accepted", "{args:?} gives {r}, expected `{e}`: {doc}");
            info.label("fails");
            return same_error(&r, e, "the command", &doc);
        }
        check!(r["code"] == 0, "refused", "{args:?} gives {r}: {doc}");
        info.label("command");
    }
    let got = all();
    for (f, c) in names.iter().filter(|(f, _)| f.ends_with(".csv")) {
        check!(got.get(f) == Some(c), "file", "{f}: {doc}");
        info.nontrivial = true;
    }
    let extra: Vec<&String> = got.keys().filter(|f| !names.contains_key(*f)).collect();
    check!(extra.is_empty(), "file", "{extra:?} is written, not by the library: {doc}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        rule: "a run that completed in Python is compared with one in Rust; or the job is one that has to be refused",
        arms: vec![
            Arm { name: "model", quick: 500, thorough: 8000, run: one },
            Arm { name: "networks", quick: 400, thorough: 8000, run: many },
            Arm { name: "wrong", quick: 1500, thorough: 30000, run: wrong },
            Arm { name: "settings", quick: 500, thorough: 4000, run: settings },
            Arm { name: "v1", quick: 800, thorough: 20000, run: v1 },
            Arm { name: "v1-metric", quick: 2000, thorough: 20000, run: v1_metric },
            Arm { name: "new", quick: 400, thorough: 2000, run: fresh },
            Arm { name: "cause", quick: 120, thorough: 600, run: cause },
            Arm { name: "from-path", quick: 300, thorough: 4000, run: from_path },
        ],
    }]
}
