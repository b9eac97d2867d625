//! The visitors of a document find every metric, file path and node reference of it, and change those only.

use crate::check;
use crate::docs::{gen_marked};
use crate::runner::{Arm, Fail, Info, Prop, fail, guarded};
use crate::src::Src;
use pywr_schema::metric::Metric;
use pywr_schema::{ModelSchema, VisitMetrics, VisitNodeReferences, VisitPaths};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;

/// Where in the document the metrics, paths and references to nodes are
#[derive(Default)]
struct Places {
    metrics: BTreeSet<String>,
    paths: BTreeSet<String>,
    nodes: BTreeSet<String>,
}

fn places(doc: &Value, marks: &[(String, String)]) -> Places {
    let mut p = Places::default();
    for (def, at) in marks {
        if !at.starts_with("/network/") {
            continue;
        }
        let Some(v) = doc.pointer(at) else { continue };
        match def.as_str() {
            "Metric" | "IndexMetric" => {
                if def == "Metric" {
                    p.metrics.insert(at.clone());
                }
                match v["type"].as_str() {
                    Some("Node") | Some("VirtualNode") => {
                        p.nodes.insert(format!("{at}/name"));
                    }
                    Some("Edge") => {
                        p.nodes.insert(format!("{at}/edge/from_node"));
                        p.nodes.insert(format!("{at}/edge/to_node"));
                    }
                    _ => {}
                }
            }
            "NodeComponentReference" => {
                p.nodes.insert(format!("{at}/name"));
            }
            "Edge" => {
                p.nodes.insert(format!("{at}/from_node"));
                p.nodes.insert(format!("{at}/to_node"));
            }
            "path" => {
                p.paths.insert(at.clone());
            }
            _ => {}
        }
    }
    p
}

type Bag = BTreeMap<String, usize>;

fn put(b: &mut Bag, k: String) {
    *b.entry(k).or_default() += 1;
}

fn text_of(m: &Metric) -> String {
    serde_json::to_value(m).expect("a metric is written").to_string()
}

/// The metric at a place, as it is written when it has been read
fn normal(v: &Value) -> Result<String, Fail> {
    match serde_json::from_value::<Metric>(v.clone()) {
        Ok(m) => Ok(text_of(&m)),
        Err(e) => fail("metric-unread", format!("{v}: {e}")),
    }
}

/// Whether a value is one of those to be changed; depends on nothing but the value
fn chosen(x: &str, salt: u64, of: u64) -> bool {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (salt, x).hash(&mut h);
    h.finish() % of == 0
}

fn differ(what: &str, want: &Bag, got: &Bag, doc: &Value) -> Result<(), Fail> {
    for (k, n) in want {
        let g = got.get(k).copied().unwrap_or(0);
        check!(g >= *n, "not-visited", "{what}: {k} is in the document {n} times and was visited {g} times: {doc}");
    }
    for (k, g) in got {
        let n = want.get(k).copied().unwrap_or(0);
        check!(*g <= n, "visited-too-often", "{what}: {k} is in the document {n} times and was visited {g} times: {doc}");
    }
    Ok(())
}

fn bag_of(doc: &Value, at: &BTreeSet<String>) -> Bag {
    let mut b = Bag::new();
    for p in at {
        put(&mut b, doc.pointer(p).and_then(|v| v.as_str()).unwrap_or("?").to_string());
    }
    b
}

fn same(what: &str, want: Value, got: &ModelSchema) -> Result<(), Fail> {
    let want_doc = match serde_json::from_value::<ModelSchema>(want.clone()) {
        Ok(d) => serde_json::to_value(&d).unwrap(),
        Err(e) => return fail("changed-unread", format!("{what}: {e}: {want}")),
    };
    let got = serde_json::to_value(got).unwrap();
    if want_doc != got {
        let mut at = String::new();
        let (mut a, mut b) = (&want_doc, &got);
        'down: loop {
            match (a, b) {
                (Value::Object(x), Value::Object(y)) if x.keys().eq(y.keys()) => {
                    for (k, v) in x {
                        if v != &y[k] {
                            at.push_str(&format!("/{k}"));
                            (a, b) = (v, &y[k]);
                            continue 'down;
                        }
                    }
                }
                (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
                    for (i, v) in x.iter().enumerate() {
                        if v != &y[i] {
                            at.push_str(&format!("/{i}"));
                            (a, b) = (v, &y[i]);
                            continue 'down;
                        }
                    }
                }
                _ => {}
            }
            break;
        }
        return fail("changed-differently", format!("{what}: at {at} the changed document says {b}, and not {a}"));
    }
    Ok(())
}

/// All three visitors of one document whose places are known
fn visit(s: &mut Src, info: &mut Info, doc: &Value, p: &Places) -> Result<(), Fail> {
    let Ok(schema) = serde_json::from_value::<ModelSchema>(doc.clone()) else {
        info.label("refused");
        return Ok(());
    };
    let (nm, np, nn) = (p.metrics.len(), p.paths.len(), p.nodes.len());
    info.count("metrics", nm as u64);
    info.count("paths", np as u64);
    info.count("references", nn as u64);
    info.nontrivial = nm > 0 && nn > 0 || np > 0;
    for (x, on) in [("metrics", nm > 0), ("paths", np > 0), ("references", nn > 0)] {
        if on {
            info.label(x);
        }
    }
    for at in p.paths.iter().chain(&p.metrics).chain(&p.nodes) {
        let section = at.split('/').nth(2).unwrap_or("");
        for x in ["nodes", "virtual_nodes", "edges", "parameters", "tables", "timeseries", "metric_sets", "outputs"] {
            if section == x {
                info.label(x);
            }
        }
    }
    let mut want_metrics = Bag::new();
    for at in &p.metrics {
        put(&mut want_metrics, normal(doc.pointer(at).unwrap())?);
    }
    let want_paths = bag_of(doc, &p.paths);
    let want_nodes = bag_of(doc, &p.nodes);

    // Looking
    let (mut ms, mut ps, mut ns) = (Bag::new(), Bag::new(), Bag::new());
    schema.visit_metrics(&mut |m| put(&mut ms, text_of(m)));
    schema.visit_paths(&mut |x| put(&mut ps, x.to_string_lossy().into_owned()));
    schema.visit_node_references(&mut |x| put(&mut ns, x.to_string()));
    differ("metrics", &want_metrics, &ms, doc)?;
    differ("paths", &want_paths, &ps, doc)?;
    differ("node references", &want_nodes, &ns, doc)?;

    // Changing some of them
    let salt = s.below(1000);
    let of = s.size(1, 3) as u64;
    let swap: Metric = serde_json::from_value(match s.below(4) {
        0 => json!({"type": "Literal", "value": 12345.0}),
        1 => json!({"type": "Parameter", "name": "in its place"}),
        2 => json!({"type": "Node", "name": "in its place"}),
        _ => json!({"type": "Timeseries", "name": "in its place", "columns": {"type": "Column", "name": "c"}}),
    })
    .unwrap();

    let mut m = schema.clone();
    let mut seen = Bag::new();
    m.visit_metrics_mut(&mut |x| {
        let t = text_of(x);
        if chosen(&t, salt, of) {
            *x = swap.clone();
        }
        put(&mut seen, t);
    });
    differ("metrics to change", &want_metrics, &seen, doc)?;
    let mut want = doc.clone();
    for at in &p.metrics {
        let v = want.pointer_mut(at).unwrap();
        if chosen(&normal(v)?, salt, of) {
            *v = serde_json::to_value(&swap).unwrap();
        }
    }
    same("metrics", want, &m)?;

    let mut m = schema.clone();
    let mut seen = Bag::new();
    m.visit_paths_mut(&mut |x: &mut PathBuf| {
        let t = x.to_string_lossy().into_owned();
        if chosen(&t, salt, of) {
            *x = PathBuf::from(format!("moved:{t}"));
        }
        put(&mut seen, t);
    });
    differ("paths to change", &want_paths, &seen, doc)?;
    let rename = |want: &mut Value, at: &BTreeSet<String>, to: &str| {
        for at in at {
            let v = want.pointer_mut(at).unwrap();
            let t = v.as_str().unwrap().to_string();
            if chosen(&t, salt, of) {
                *v = json!(format!("{to}{t}"));
            }
        }
    };
    let mut want = doc.clone();
    rename(&mut want, &p.paths, "moved:");
    same("paths", want, &m)?;

    let mut m = schema.clone();
    let mut seen = Bag::new();
    m.visit_node_references_mut(&mut |x: &mut String| {
        let t = x.clone();
        if chosen(&t, salt, of) {
            *x = format!("renamed:{t}");
        }
        put(&mut seen, t);
    });
    differ("node references to change", &want_nodes, &seen, doc)?;
    let mut want = doc.clone();
    rename(&mut want, &p.nodes, "renamed:");
    same("node references", want, &m)?;
    Ok(())
}

fn run_made(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let linked = s.chance(1, 4);
    let (doc, marks) = gen_marked(s, linked, false);
    let p = places(&doc, &marks);
    info.desc(json!({"metrics": p.metrics, "paths": p.paths, "references": p.nodes}));
    match guarded(|| visit(s, info, &doc, &p)) {
        Ok(r) => r,
        Err(e) => fail("panic", format!("{e}: {doc}")),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "made: the document has a metric and a reference to a node, or a path; moved: the values of a parameter were compared",
        arms: vec![Arm { name: "made", quick: 40000, thorough: 1500000, run: run_made }, Arm { name: "moved", quick: 2500, thorough: 60000, run: crate::pdoc::moved }],
    }]
}
