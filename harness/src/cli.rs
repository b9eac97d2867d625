//! C29 the command line tool: it does what the library does.

use crate::py::{files, spoil, value};
use crate::runner::{Arm, Fail, Info, Prop, fail, guarded, scratch_dir};
use crate::src::Src;
use pywr_core::solvers::{
    HighsSolver, HighsSolverSettingsBuilder, MicroLpSolver, MicroLpSolverSettingsBuilder, SimdIpmF64Solver, SimdIpmSolverSettingsBuilder,
};
use pywr_schema::{ModelSchema, MultiNetworkModelSchema, NetworkSchema};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::Path;

macro_rules! check {
    ($c:expr, $sig:expr, $($m:tt)*) => { if !($c) { return fail($sig, format!($($m)*)); } };
}

struct Ended {
    code: Option<i32>,
    out: String,
    err: String,
}

/// Run the tool in a folder.
fn tool(args: &[String], here: &Path) -> Result<Ended, Fail> {
    tool_within(args, here, 90, "hang")
}

fn tool_within(args: &[String], here: &Path, seconds: u64, sig: &str) -> Result<Ended, Fail> {
    let exe = std::env::current_exe().unwrap().with_file_name("pywr-cli");
    let mut child = std::process::Command::new(&exe)
        .args(args)
        .current_dir(here)
        .env_remove("RUST_LOG")
        .env("NO_COLOR", "1")
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| panic!("{}: {e}", exe.display()));
    let reader = |mut r: Box<dyn std::io::Read + Send>| {
        std::thread::spawn(move || {
            let mut b = Vec::new();
            let _ = r.read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        })
    };
    let out = reader(Box::new(child.stdout.take().unwrap()));
    let err = reader(Box::new(child.stderr.take().unwrap()));
    let begin = std::time::Instant::now();
    let code = loop {
        match child.try_wait().unwrap() {
            Some(c) => break c.code(),
            None if begin.elapsed().as_secs() >= seconds => {
                let _ = child.kill();
                let _ = child.wait();
                return fail(sig, format!("{args:?} has not ended after {seconds} s"));
            }
            None => std::thread::sleep(std::time::Duration::from_millis(3)),
        }
    };
    Ok(Ended { code, out: out.join().unwrap(), err: err.join().unwrap() })
}

/// An argument, in one of the ways to write it
fn option(s: &mut Src, args: &mut Vec<String>, long: &str, short: &str, v: &str) {
    match s.below(3) {
        0 => args.extend([format!("--{long}"), v.to_string()]),
        1 => args.push(format!("--{long}={v}")),
        _ => args.extend([format!("-{short}"), v.to_string()]),
    }
}

fn flag(s: &mut Src, args: &mut Vec<String>, long: &str, short: &str) {
    args.push(if s.bool() { format!("--{long}") } else { format!("-{short}") });
}

/// The files under a folder, with the names of those of folders in it.
fn tree(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut all = files(d);
    for f in std::fs::read_dir(d).unwrap().flatten().filter(|e| e.path().is_dir()) {
        let n = f.file_name().to_string_lossy().into_owned();
        all.extend(files(&f.path()).into_iter().map(|(k, c)| (format!("{n}/{k}"), c)));
    }
    all.retain(|f, _| !d.join(f).is_dir());
    all
}

fn model(s: &mut Src, info: &mut Info, many: bool) -> Result<(), Fail> {
    let dir = scratch_dir("cli");
    let mut doc = if many {
        let (mut doc, _) = crate::multinet::any_document(s, &dir);
        for (k, n) in doc["networks"].as_array_mut().unwrap().iter_mut().enumerate() {
            if n["network"].is_string() {
                continue;
            }
            n["network"]["metric_sets"] = json!([{"name": "all", "filters": {"all_nodes": true, "all_parameters": s.bool()}}]);
            n["network"]["outputs"] = json!([{"name": "file", "type": "CSV", "format": "Long", "filename": format!("out{k}.csv"), "metric_set": "all"}]);
        }
        doc
    } else {
        let Some(d) = crate::recorders::any_document(s, &dir) else { return Ok(()) };
        d
    };
    if s.chance(1, 4) {
        spoil(s, &mut doc);
    }
    let mut text = doc.to_string();
    if s.chance(1, 20) {
        let n = s.us(text.chars().count());
        text = text.chars().take(n).collect();
    }
    info.desc(text.clone());
    // The document is beside its data, or elsewhere.
    let (results, docs) = (dir.join("results"), dir.join("docs"));
    std::fs::create_dir(&results).unwrap();
    std::fs::create_dir(&docs).unwrap();
    let data = s.bool();
    let path = if data && s.bool() { docs.join("model.json") } else { dir.join("model.json") };
    std::fs::write(&path, &text).unwrap();
    let out = s.bool();
    let here = s.pick(&[&*dir, docs.as_path(), results.as_path()]).to_path_buf();
    let input = tree(&dir);
    let solver = *s.pick(&["", "clp", "highs", "microlp", "ipm-simd"]);
    // Threads and features are options of single networks only.
    let threads = if s.bool() { Some(1 + s.us(4)) } else { None };
    let ignore = !many && s.chance(1, 4);
    let mut args: Vec<String> = Vec::new();
    if s.chance(1, 4) {
        args.push("--debug".into());
    }
    args.push(if many { "run-multi" } else { "run" }.into());
    args.push(if path.parent() == Some(&here) && s.bool() { "model.json".into() } else { path.display().to_string() });
    if !solver.is_empty() {
        option(s, &mut args, "solver", "s", solver);
    }
    if data {
        option(s, &mut args, "data-path", "d", &dir.display().to_string());
    }
    if out {
        option(s, &mut args, "output-path", "o", &results.display().to_string());
    }
    if let Some(t) = threads {
        option(s, &mut args, "threads", "t", &t.to_string());
    }
    if ignore {
        flag(s, &mut args, "ignore-feature-requirements", "i");
    }
    // With the library
    let run = || -> Result<(), String> {
        let out = if out { results.clone() } else { here.clone() };
        macro_rules! settings {
            ($b:ident) => {{
                let mut b = $b::default();
                if let (Some(t), false) = (threads, many) {
                    b = b.parallel().threads(t);
                }
                if ignore {
                    b = b.ignore_feature_requirements();
                }
                b.build()
            }};
        }
        macro_rules! with {
            ($m:expr) => {{
                let m = $m;
                match solver {
                    "microlp" => m.run::<MicroLpSolver>(&settings!(MicroLpSolverSettingsBuilder)).map(|_| ()).map_err(|e| e.to_string()),
                    "ipm-simd" => m.run_multi_scenario::<SimdIpmF64Solver>(&settings!(SimdIpmSolverSettingsBuilder)).map(|_| ()).map_err(|e| e.to_string()),
                    _ => m.run::<HighsSolver>(&settings!(HighsSolverSettingsBuilder)).map(|_| ()).map_err(|e| e.to_string()),
                }
            }};
        }
        if many {
            let m = text.parse::<MultiNetworkModelSchema>().map_err(|e| e.to_string())?;
            let b = m.create_model_builder(Some(&dir), Some(&out)).map_err(|e| e.to_string())?;
            with!(b.build().map_err(|e| e.to_string())?)
        } else {
            let m = text.parse::<ModelSchema>().map_err(|e| e.to_string())?;
            let b = m.create_model_builder(Some(&dir), Some(&out)).map_err(|e| e.to_string())?;
            with!(b.build().map_err(|e| e.to_string())?)
        }
    };
    let want = match guarded(run) {
        Ok(w) => w,
        // Panics of the library itself are for other properties.
        Err(_) => return Ok(()),
    };
    let written = tree(&dir);
    for f in written.keys().filter(|f| !input.contains_key(*f)) {
        let _ = std::fs::remove_file(dir.join(f));
    }
    // With the tool
    let r = tool(&args, &here)?;
    match want {
        Err(e) => {
            check!(r.code != Some(0), "accepted", "{args:?} succeeds, expected the error `{e}`: {text}");
            check!(!r.err.trim().is_empty(), "silent", "{args:?} fails without a word, expected `{e}`: {text}");
            info.label("fails");
            info.nontrivial = true;
        }
        Ok(()) => {
            check!(r.code == Some(0), "refused", "{args:?} in {} ends with {:?}: {}: {text}", here.display(), r.code, r.err);
            let got = tree(&dir);
            for (f, c) in written.iter().filter(|(f, _)| !f.ends_with(".h5")) {
                check!(got.get(f) == Some(c), "file", "{args:?} in {}: `{f}` is {:?}, expected {:?}: {text}", here.display(),
                    got.get(f).map(|x| String::from_utf8_lossy(x)), String::from_utf8_lossy(c));
                if !input.contains_key(f) {
                    info.count("files", 1);
                    info.nontrivial = true;
                }
            }
            let extra: Vec<&String> = got.keys().filter(|f| !written.contains_key(*f)).collect();
            check!(extra.is_empty(), "file", "{args:?} writes {extra:?}, which the library does not: {text}");
            info.label(if out { "to-folder" } else { "to-current-folder" });
            info.label(if data { "data-folder" } else { "beside-document" });
            if !solver.is_empty() {
                info.label(solver);
            }
        }
    }
    Ok(())
}

fn single(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    model(s, info, false)
}

fn networks(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    model(s, info, true)
}

/// A document of version 1 converted by the library: what is written, and the errors.
fn library(text: &str, network: bool) -> Result<(Value, Vec<String>), String> {
    let (v, errors) = if network {
        let x: pywr_v1_schema::PywrNetwork = serde_json::from_str(text).map_err(|e| e.to_string())?;
        let (x, e) = NetworkSchema::from_v1(x);
        (value(&x), e)
    } else {
        let x: pywr_v1_schema::PywrModel = serde_json::from_str(text).map_err(|e| e.to_string())?;
        let (x, e) = ModelSchema::from_v1(x);
        (value(&x), e)
    };
    Ok((v, errors.iter().map(|e| e.to_string()).collect()))
}

fn convert(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let dir = scratch_dir("cli");
    let (stop, network) = (s.chance(1, 3), s.chance(1, 3));
    let folder = s.chance(1, 3);
    let (from, to) = (dir.join("from"), dir.join("to"));
    std::fs::create_dir(&from).unwrap();
    std::fs::create_dir(&to).unwrap();
    let mut docs = Vec::new();
    for k in 0..if folder { s.us(4) } else { 1 } {
        let mut doc = crate::v1::any_document(s, &dir);
        if network {
            let o = doc.as_object_mut().unwrap();
            for k in ["metadata", "timestepper", "scenarios", "minimum_version"] {
                if s.chance(3, 4) {
                    o.remove(k);
                }
            }
        }
        // What may have no equivalent
        if s.chance(1, 3) {
            let p = crate::v1::any_parameter(s);
            if doc["parameters"].is_null() {
                doc["parameters"] = json!({});
            }
            doc["parameters"]["extra"] = p;
        }
        for _ in 0..if s.chance(1, 3) { s.size(1, 2) } else { 0 } {
            spoil(s, &mut doc);
        }
        let mut text = doc.to_string();
        if s.chance(1, 20) {
            let n = s.us(text.chars().count());
            text = text.chars().take(n).collect();
        }
        let name = format!("{}{k}.json", s.pick(&["a", "with space ", "ü", "x.y"]));
        std::fs::write(from.join(&name), &text).unwrap();
        docs.push((name, text));
    }
    if folder {
        // What is not a document is left alone.
        for n in ["notes.txt", "json", "data.csv"] {
            if s.bool() {
                std::fs::write(from.join(n), "{").unwrap();
            }
        }
        if s.chance(1, 4) {
            std::fs::create_dir(from.join("folder.json")).unwrap();
        }
    }
    info.desc(format!("stop {stop} network {network} folder {folder}: {docs:?}"));
    let mut args: Vec<String> = vec!["convert".into()];
    // One of the paths may be of the wrong kind.
    let wrong = s.chance(1, 12);
    let target = if folder != wrong { to.clone() } else { to.join("x.json") };
    args.push(if folder { from.clone() } else { from.join(&docs[0].0) }.display().to_string());
    args.push(target.display().to_string());
    if stop {
        flag(s, &mut args, "stop-on-error", "s");
    }
    if network {
        flag(s, &mut args, "network-only", "n");
    }
    let mut want = Vec::new();
    for (name, text) in &docs {
        match guarded(|| library(text, network)) {
            Ok(w) => want.push((if folder { name.clone() } else { "x.json".into() }, text, w)),
            Err(_) => return Ok(()),
        }
    }
    let r = tool(&args, &dir)?;
    let got = files(&to);
    let fails = |w: &Result<(Value, Vec<String>), String>| match w {
        Err(_) => true,
        Ok((_, e)) => stop && !e.is_empty(),
    };
    if wrong {
        check!(r.code != Some(0) && got.is_empty(), "wrong-kind", "{args:?} ends with {:?} and writes {:?}", r.code, got.keys());
        info.label("wrong-kind");
        return Ok(());
    }
    let any = want.iter().any(|(_, _, w)| fails(w));
    check!((r.code != Some(0)) == any, if any { "accepted" } else { "refused" }, "{args:?} ends with {:?}: {} {docs:?} {want:?}", r.code, r.err);
    if any {
        check!(!r.err.trim().is_empty(), "silent", "{args:?} fails without a word: {docs:?}");
        info.label("fails");
    }
    for (name, text, w) in &want {
        if fails(w) {
            check!(!got.contains_key(name), "written", "{args:?} writes {name} of what fails: {text}");
            continue;
        }
        let (v, errors) = w.as_ref().unwrap();
        match got.get(name) {
            // Where another document fails, the rest may be left out.
            None => check!(any, "missing", "{args:?} does not write {name}: {text}"),
            Some(c) => {
                let g: Value = serde_json::from_slice(c).unwrap_or(Value::Null);
                check!(g == *v, "converted", "{name} is {g}, expected {v}: {text}");
                for e in errors {
                    check!(r.out.contains(e.as_str()) || r.err.contains(e.as_str()), "unnamed", "`{e}` is not reported in `{}`: {text}", r.out);
                    info.count("errors", 1);
                }
                info.count("documents", 1);
            }
        }
        info.nontrivial = true;
    }
    let extra: Vec<&String> = got.keys().filter(|f| !want.iter().any(|w| w.0 == **f)).collect();
    check!(extra.is_empty(), "extra", "{args:?} writes {extra:?}");
    info.label(if folder { "folder" } else { "file" });
    Ok(())
}

/// The other commands, and what is not a command.
fn other(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let dir = scratch_dir("cli");
    let path = dir.join("schema.json").display().to_string();
    let model = dir.join("model.json");
    info.nontrivial = true;
    let (args, ok): (Vec<String>, bool) = match s.below(4) {
        0 => (vec!["export-schema".into(), path.clone()], true),
        1 => {
            // More connections than there are pairs of systems are looked for without end.
            let endless = s.chance(1, 10);
            let (systems, density) = match endless {
                true => *s.pick(&[(1, 0), (1, 50), (2, 300), (3, 300)]),
                false => (2 + s.us(3), *s.pick(&[0, 1, 10, 50, 100])),
            };
            let mut a = vec!["run-random".to_string(), systems.to_string(), density.to_string(), (1 + s.us(4)).to_string()];
            if endless {
                info.desc(format!("{a:?}"));
                let r = tool_within(&a, &dir, 4, "random-model-of-too-many-connections")?;
                check!(r.code == Some(0), "random", "{a:?} ends with {:?}: {}", r.code, r.err);
                return Ok(());
            }
            if s.bool() {
                let x = *s.pick(&["clp", "highs", "microlp"]);
                option(s, &mut a, "solver", "s", x);
            }
            (a, true)
        }
        2 => {
            let Some(d) = crate::recorders::any_document(s, &dir) else { return Ok(()) };
            std::fs::write(&model, d.to_string()).unwrap();
            let mut a = vec![s.pick(&["run", "run-multi"]).to_string(), model.display().to_string()];
            a.extend(match s.below(5) {
                0 => vec!["--solver".to_string(), s.pick(&["", "Highs", "simplex", "ipm_simd"]).to_string()],
                1 => vec!["--threads".into(), s.pick(&["-1", "two", "1.5"]).to_string()],
                2 => vec!["--no-such-option".into()],
                3 => vec!["another".into()],
                _ => vec!["--data-path".into()],
            });
            (a, false)
        }
        _ => {
            let c = *s.pick(&["run", "run-multi", "convert"]);
            let mut a = vec![c.to_string(), dir.join("no such file.json").display().to_string()];
            if c == "convert" {
                a.push(path.clone());
            }
            (a, false)
        }
    };
    info.desc(format!("{args:?}"));
    let before = files(&dir);
    let r = tool(&args, &dir)?;
    check!((r.code == Some(0)) == ok, if ok { "refused" } else { "accepted" }, "{args:?} ends with {:?}: {}", r.code, r.err);
    let mut got = files(&dir);
    if args[0] == "export-schema" {
        let v: Value = got.remove("schema.json").and_then(|c| serde_json::from_slice(&c).ok()).unwrap_or(Value::Null);
        check!(v == *crate::docs::published(), "published", "the exported schema differs from that of ModelSchema");
    }
    check!(ok || !r.err.trim().is_empty(), "silent", "{args:?} fails without a word");
    check!(got == before, "file", "{args:?} writes {:?}", got.keys());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "the tool wrote a file which is compared with that of the library, or had to fail; or the command is one of the others",
        arms: vec![
            Arm { name: "run", quick: 700, thorough: 8000, run: single },
            Arm { name: "run-multi", quick: 400, thorough: 6000, run: networks },
            Arm { name: "convert", quick: 700, thorough: 8000, run: convert },
            Arm { name: "other", quick: 200, thorough: 1000, run: other },
        ],
    }]
}
