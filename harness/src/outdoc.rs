//! C27 the metric sets and outputs of a document.

use super::*;
use crate::schema::{builder, document, lit};
use serde_json::{Value, json};

/// A value a document can output.
#[derive(Clone)]
struct Cat {
    json: Value,
    om: Om,
    /// In the way the filters name it: 0 nodes, 1 virtual nodes, 2 parameters, 3 edges
    filter: Option<usize>,
}

/// Python's name of a number.
fn py(v: f64) -> String {
    format!("{v:?}").replace("inf", "float('inf')").replace("NaN", "float('nan')")
}

impl Case {
    fn agg_json(&self, s: &mut Src, f: F) -> Value {
        match f {
            F::Sum => json!({"type": "Sum"}),
            F::Mean => json!({"type": "Mean"}),
            F::Product => json!({"type": "Product"}),
            F::Min => json!({"type": "Min"}),
            F::Max => json!({"type": "Max"}),
            F::NonZero => json!({"type": "CountNonZero"}),
            F::Any(t) if t == 1e-6 && s.bool() => json!({"type": "AnyNonZero"}),
            F::Any(t) => json!({"type": "AnyNonZero", "tolerance": t}),
            F::Above2 => {
                let mut v = json!({"type": "Python", "source": {"type": "Path", "path": "functions.py"}, "object": "above"});
                match s.below(3) {
                    0 => v["args"] = json!([2.0]),
                    1 => v["kwargs"] = json!({"limit": 2.0}),
                    _ => {
                        v["args"] = json!([1]);
                        v["kwargs"] = json!({"scale": 2});
                    }
                }
                v
            }
        }
    }
    fn aggregator_json(&self, s: &mut Src, levels: &[(Fq, F)]) -> Value {
        let mut v = Value::Null;
        for (fq, f) in levels {
            let mut a = json!({"func": self.agg_json(s, *f)});
            match fq {
                Fq::Month => a["freq"] = json!({"type": "Monthly"}),
                Fq::Year => a["freq"] = json!({"type": "Annual"}),
                Fq::Days(n) => a["freq"] = json!({"type": "Days", "days": n}),
                Fq::All if s.bool() => a["freq"] = Value::Null,
                Fq::All => {}
            }
            if !v.is_null() || s.chance(1, 4) {
                a["child"] = v;
            }
            v = a;
        }
        v
    }
    fn scenarios_json(&self, s: &mut Src) -> Option<Value> {
        if self.sizes.is_empty() {
            return s.chance(1, 4).then(|| json!({"groups": []}));
        }
        let groups: Vec<Value> = (0..self.sizes.len())
            .map(|i| {
                let mut v = json!({"name": format!("g{i}"), "size": self.sizes[i]});
                if let Some(l) = &self.labels[i] {
                    v["labels"] = json!(l);
                }
                v
            })
            .collect();
        let mut v = json!({"groups": groups});
        if let Some(c) = &self.combos {
            v["combinations"] = json!(c);
        }
        Some(v)
    }

    /// A document of the case; its metric sets become lists of the metrics of the document.
    pub(super) fn document(&mut self, s: &mut Src, hdf: bool, dir: &Path) -> Value {
        let np = self.tables.len();
        let (flow, seven) = (np, np + 2);
        let base = np + 3;
        // --- components, in any order
        let mut used: Vec<String> = Vec::new();
        let mut name = |s: &mut Src| {
            let t = format!("{}{}", text(s, hdf), used.len());
            used.push(t.clone());
            t
        };
        let (supply, link, demand, group) = (name(s), name(s), name(s), name(s));
        let pnames: Vec<String> = (0..np).map(|_| name(s)).collect();
        let (cap, fixed, table, series) = (name(s), name(s), name(s), name(s));
        // Parameters: (name, type, phases, what, document)
        let mut params: Vec<(String, &str, Vec<&str>, usize, Value)> = Vec::new();
        let mut code = String::from(
            "def above(values, limit, scale=1):\n    assert type(values) is list\n    return float(sum(1 for v in values if v > limit * scale))\n",
        );
        let scen = self.scenarios();
        let mut table_code = |k: usize, at: &dyn Fn(usize, &[usize]) -> f64| {
            let rows: Vec<String> = (0..self.steps.len() - 1)
                .map(|t| format!("[{}]", scen.iter().map(|sc| py(at(t, sc))).collect::<Vec<_>>().join(", ")))
                .collect();
            code += &format!(
                "\nT{k} = [{}]\ndef f{k}(info):\n    return T{k}[info.timestep.index][info.scenario_index.simulation_id]\n",
                rows.join(", ")
            );
            json!({"type": "Python", "source": {"type": "Path", "path": "functions.py"},
                   "object": {"type": "Function", "function": format!("f{k}")}})
        };
        for k in 0..np {
            let v = table_code(k, &|t, sc| self.expected(k, t, sc));
            params.push((pnames[k].clone(), "Python", vec!["Before"], k, v));
        }
        let v = table_code(np, &|t, sc| self.cap[t][sc[0]]);
        params.push((cap.clone(), "Python", vec!["Before"], flow, v));
        params.push((fixed, "Constant", vec!["Before"], seven, json!({"type": "Constant", "value": lit(7.25)})));
        let mut more: Vec<Ex> = Vec::new();
        for _ in 0..s.size(0, 3) {
            let parts: Vec<usize> = (0..s.size(1, 3)).map(|_| s.us(np)).collect();
            let (phase, when) = *s.pick(&[("Before", &["Before"][..]), ("After", &["After"]), ("Both", &["Before", "After"])]);
            let v = json!({"type": "Aggregated", "agg_func": {"type": "Sum"}, "phase": phase,
                           "metrics": parts.iter().map(|k| json!({"type": "Parameter", "name": pnames[*k]})).collect::<Vec<_>>()});
            params.push((name(s), "Aggregated", when.to_vec(), base + more.len(), v));
            more.push(Ex::Sum(parts));
        }
        s.shuffle(&mut params);
        let v = s.num(-3.0, 3.0, 0.25);
        let in_table = base + more.len();
        more.push(Ex::Const(v));
        std::fs::write(dir.join("table.csv"), format!("a,b,value\nx,y,{v:?}\nx,z,99.0\n")).unwrap();
        let in_series = base + more.len();
        let sv: Vec<f64> = (0..self.n()).map(|_| s.num(-3.0, 3.0, 0.25)).collect();
        let mut t = String::from("time,a column,other\n");
        for k in 0..self.steps.len() {
            t += &format!("{},{:?},99.0\n", from_nanos(self.steps[k]), sv[k.min(sv.len() - 1)]);
        }
        std::fs::write(dir.join("series.csv"), t).unwrap();
        // Only steps of one length have a timeseries of their own.
        let even = self.cal.months == 0;
        more.push(Ex::Time(sv));
        self.more = more;

        let mut nodes = vec![
            (supply.clone(), json!({"meta": {"name": supply}, "type": "Input", "max_flow": {"type": "Parameter", "name": cap}})),
            (link.clone(), json!({"meta": {"name": link}, "type": "Link"})),
            (demand.clone(), json!({"meta": {"name": demand}, "type": "Output", "cost": lit(-10.0)})),
        ];
        s.shuffle(&mut nodes);
        let mut edges = vec![(supply.clone(), link.clone()), (link.clone(), demand.clone())];
        s.shuffle(&mut edges);
        let virt = s.bool();

        // --- what can be output
        let mut cat: Vec<Cat> = Vec::new();
        let om = |name: &str, attr: &str, ty: &str, sub: Option<&str>, what: usize| Om {
            name: name.into(),
            attr: attr.into(),
            what,
            ty: ty.into(),
            sub: sub.map(|x| x.to_string()),
        };
        for (n, v) in &nodes {
            let ty = v["type"].as_str().unwrap();
            let default = if ty == "Output" { "Inflow" } else { "Outflow" };
            let mut j = json!({"type": "Node", "name": n});
            if s.bool() {
                j["attribute"] = json!(default);
            }
            cat.push(Cat { json: j, om: om(n, default, "Node", Some(ty), flow), filter: Some(0) });
            if ty == "Link" {
                cat.push(Cat { json: json!({"type": "Node", "name": n, "attribute": "Inflow"}), om: om(n, "Inflow", "Node", Some(ty), flow), filter: None });
            }
        }
        if virt {
            let mut j = json!({"type": "VirtualNode", "name": group});
            if s.bool() {
                j["attribute"] = json!("Outflow");
            }
            cat.push(Cat { json: j, om: om(&group, "Outflow", "VirtualNode", Some("Aggregated"), flow), filter: Some(1) });
        }
        for (n, ty, phases, what, _) in &params {
            for p in phases {
                let mut j = json!({"type": "Parameter", "name": n});
                if *p != "Before" || s.bool() {
                    j["return_value"] = json!(p);
                }
                cat.push(Cat { json: j, om: om(n, &p.to_lowercase(), "Parameter", Some(ty), *what), filter: Some(2) });
            }
        }
        for (a, b) in &edges {
            cat.push(Cat {
                json: json!({"type": "Edge", "edge": {"from_node": a, "to_node": b}}),
                om: om(&format!("{a}->{b}"), "Flow", "Edge", None, flow),
                filter: Some(3),
            });
        }
        cat.push(Cat {
            json: json!({"type": "Table", "table": table, "row": ["x", "y"]}),
            om: om(&table, "x;y", "Table", None, in_table),
            filter: None,
        });
        if even {
            cat.push(Cat {
                json: json!({"type": "Timeseries", "name": series, "columns": {"type": "Column", "name": "a column"}}),
                om: om(&series, "a column", "Timeseries", None, in_series),
                filter: None,
            });
        }

        // --- metric sets
        let levels: Vec<Vec<(Fq, F)>> = self.sets.iter().map(|m| m.levels.clone()).collect();
        let mut sets_json: Vec<Value> = Vec::new();
        for (k, lv) in levels.iter().enumerate() {
            let filters: Vec<usize> = (0..4).filter(|f| s.chance(1, 4) && (*f != 1 || virt)).collect();
            // Written in full, so that the default and the written attribute are told apart
            let mut list: Vec<Cat> = Vec::new();
            for _ in 0..s.size(filters.is_empty() as usize, 4) {
                let c = s.pick(&cat).clone();
                let twice = list.iter().any(|x| x.om == c.om);
                if !twice || (!hdf && s.chance(1, 3)) {
                    list.push(c);
                }
            }
            let mut ms: Vec<Om> = list.iter().map(|c| c.om.clone()).collect();
            for f in &filters {
                for c in cat.iter().filter(|c| c.filter == Some(*f)) {
                    if !list.iter().any(|x| x.om == c.om) {
                        ms.push(c.om.clone());
                    }
                }
            }
            let mut v = json!({"name": self.sets[k].name});
            if !list.is_empty() || s.bool() {
                v["metrics"] = list.iter().map(|c| c.json.clone()).collect();
            }
            if !filters.is_empty() || s.chance(1, 4) {
                let mut f = json!({});
                for (i, n) in ["all_nodes", "all_virtual_nodes", "all_parameters", "all_edges"].iter().enumerate() {
                    if filters.contains(&i) || s.bool() {
                        f[*n] = json!(filters.contains(&i));
                    }
                }
                v["filters"] = f;
            }
            if !lv.is_empty() {
                v["aggregator"] = self.aggregator_json(s, lv);
            }
            sets_json.push(v);
            self.sets[k].metrics = ms;
        }
        s.shuffle(&mut sets_json);

        // --- outputs
        let mut outputs: Vec<Value> = Vec::new();
        for (k, r) in self.recs.iter().enumerate() {
            let n = format!("rec{k}");
            let mut file = |ext: &str| {
                let f = format!("{k}.{ext}");
                if s.chance(1, 4) { json!(dir.join(f)) } else { json!(f) }
            };
            let set = |m: &usize| json!(self.sets[*m].name);
            outputs.push(match r {
                Rec::Wide(m) => json!({"name": n, "type": "CSV", "format": "Wide", "filename": file("csv"), "metric_set": set(m)}),
                Rec::Long(ms, dp) => {
                    let f = file("csv");
                    let list = if ms.len() == 1 && s.bool() { set(&ms[0]) } else { ms.iter().map(set).collect() };
                    let mut v = json!({"name": n, "type": "CSV", "format": "Long", "filename": f, "metric_set": list});
                    if let Some(d) = dp {
                        v["decimal_places"] = json!(d);
                    }
                    v
                }
                Rec::Memory(m, a, b, c, tm) => {
                    let mut v = json!({"name": n, "type": "Memory", "metric_set": set(m)});
                    let mut g = json!({});
                    for (key, f) in [("scenario", a), ("time", b), ("metric", c)] {
                        if let Some(f) = f {
                            g[key] = self.agg_json(s, *f);
                        }
                    }
                    if a.is_some() || b.is_some() || c.is_some() || s.bool() {
                        v["aggregation"] = g;
                    }
                    if *tm {
                        v["order"] = json!("TimeMetricScenario");
                    } else if s.bool() {
                        v["order"] = json!("MetricTimeScenario");
                    }
                    v
                }
                Rec::Hdf(m) => json!({"name": n, "type": "HDF5", "filename": file("h5"), "metric_set": set(m)}),
            });
        }
        std::fs::write(dir.join("functions.py"), code).unwrap();
        let mut net = json!({
            "nodes": nodes.iter().map(|n| n.1.clone()).collect::<Vec<_>>(),
            "edges": edges.iter().map(|(a, b)| json!({"from_node": a, "to_node": b})).collect::<Vec<_>>(),
            "parameters": params
                .iter()
                .map(|(n, _, _, _, v)| {
                    let mut v = v.clone();
                    v["meta"] = json!({"name": n});
                    v
                })
                .collect::<Vec<_>>(),
            "tables": [{"meta": {"name": table}, "type": "Scalar", "format": "CSV", "lookup": {"type": "Row", "cols": 2}, "url": "table.csv"}],
            "metric_sets": sets_json,
            "outputs": outputs,
        });
        if virt {
            net["virtual_nodes"] = json!([{"meta": {"name": group}, "type": "Aggregated", "nodes": [{"name": link}]}]);
        }
        if even {
            net["timeseries"] = json!([{"type": "Polars", "meta": {"name": series}, "url": "series.csv", "time_col": "time"}]);
        }
        document(self.cal.json(), self.scenarios_json(s), net)
    }
}

/// Descriptions of outputs and metric sets that are wrong.
fn c27_invalid(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let Some(mut case) = gen_case(s, false) else { return Ok(()) };
    let dir = scratch_dir("out");
    for m in case.sets.iter_mut() {
        m.levels.retain(|l| l.1 != F::Above2);
    }
    let mut doc = case.document(s, false, &dir);
    let net = &mut doc["network"];
    let n = case.sets.len();
    let set = s.us(n);
    let kind = s.below(9);
    let m = &mut net["metric_sets"][set];
    let mut metric = |v: Value| {
        if !m["metrics"].is_array() {
            m["metrics"] = json!([]);
        }
        m["metrics"].as_array_mut().unwrap().push(v);
    };
    let mut named = "nobody";
    match kind {
        0 => {
            *m = json!({"name": m["name"], "filters": {"all_nodes": false}});
            if s.bool() {
                m["metrics"] = json!([]);
            }
            named = "";
        }
        1 => {
            metric(lit(1.0));
            named = "";
        }
        2 => metric(json!({"type": "Node", "name": "nobody"})),
        3 => metric(json!({"type": "Parameter", "name": "nobody"})),
        4 => metric(json!({"type": "VirtualNode", "name": "nobody"})),
        5 => {
            m["aggregator"] = json!({"func": {"type": "Sum"}, "freq": {"type": "Days", "days": *s.pick(&[0i64, -1, -30])}});
            named = "";
        }
        6 => {
            let set = m["name"].clone();
            let other = net["metric_sets"][s.us(n)]["name"].clone();
            net["outputs"][0] = json!({"name": "rec0", "type": "CSV", "format": "Wide", "filename": "0.csv", "metric_set": if s.bool() { json!([set]) } else { json!([set, other]) }});
            named = "";
        }
        7 => {
            let k = s.us(case.recs.len());
            let o = &mut net["outputs"][k];
            if o["metric_set"].is_array() {
                o["metric_set"].as_array_mut().unwrap().push(json!("nobody"));
            } else {
                o["metric_set"] = json!("nobody");
            }
        }
        _ => {
            m["aggregator"] = json!({"func": {"type": "Python", "source": {"type": "Path", "path": "functions.py"}, "object": "nobody"}});
        }
    }
    info.desc(format!("kind {kind}: {doc}"));
    info.nontrivial = true;
    // An unknown metric set may come out when the run is set up.
    let r = builder(&doc, Some(&dir), Some(&dir)).and_then(|b| match guarded(|| b.build().map_err(|e| full(&e))) {
        Ok(m) => m,
        Err(p) => Err(format!("panic: {p}")),
    });
    let r = r.and_then(|m| run(&m));
    match r {
        Ok(_) => fail("accepted", format!("kind {kind}: {doc}")),
        Err(e) if e.contains("panic:") => fail("panic", format!("kind {kind}: {e}: {doc}")),
        Err(e) if !e.contains(named) => fail("message", format!("kind {kind}: `{e}` does not name `{named}`: {doc}")),
        Err(_) => Ok(()),
    }
}

/// An aggregation function in Python that raises an exception stops the run with an error.
fn c27_raises(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let dir = scratch_dir("out");
    std::fs::write(dir.join("bad.py"), "def f(values):\n    raise ValueError('not these')\n").unwrap();
    let f = json!({"type": "Python", "source": {"type": "Path", "path": "bad.py"}, "object": "f"});
    let place = s.below(4);
    let mut set = json!({"name": "set", "metrics": [{"type": "Node", "name": "a"}, {"type": "Node", "name": "b"}]});
    let mut out = json!({"name": "out", "type": "Memory", "metric_set": "set"});
    let sum = json!({"type": "Sum"});
    match place {
        0 => set["aggregator"] = json!({"func": f, "freq": {"type": "Monthly"}}),
        1 => out["aggregation"] = json!({"scenario": f, "time": sum, "metric": sum}),
        2 => out["aggregation"] = json!({"scenario": sum, "time": f, "metric": sum}),
        _ => out["aggregation"] = json!({"scenario": sum, "time": sum, "metric": f}),
    }
    let net = json!({
        "nodes": [{"meta": {"name": "a"}, "type": "Input"}, {"meta": {"name": "b"}, "type": "Output"}],
        "edges": [{"from_node": "a", "to_node": "b"}],
        "metric_sets": [set],
        "outputs": [out],
    });
    let n = s.size(2, 60);
    let groups = json!({"groups": [{"name": "g", "size": 2}]});
    let doc = document(crate::schema::time_section(crate::sim::gen_date(s).at(0, 0, 0, 0), 24, n), Some(groups), net);
    info.desc(format!("{doc}"));
    info.nontrivial = true;
    let r = builder(&doc, Some(&dir), None).and_then(|b| b.build().map_err(|e| full(&e)));
    let m = r.map_err(|e| Fail { sig: "build".into(), msg: format!("{e}: {doc}") })?;
    let r = run(&m).and_then(|r| match guarded(|| r.network_result.get("out").unwrap().aggregated_value().map_err(|e| full(&e))) {
        Ok(x) => x,
        Err(p) => Err(format!("panic: {p}")),
    });
    match r {
        Ok(v) => fail("accepted", format!("{v} from a function that raises: {doc}")),
        // As part of a metric set, or over time
        Err(e) if e.starts_with("panic: Error in Python aggregation function") && matches!(place, 0 | 2) => fail("period-function-exception-panics", format!("{e}: {doc}")),
        Err(e) if e.starts_with("panic") => fail("panic", format!("{e}: {doc}")),
        Err(e) if !e.contains("not these") => fail("message", format!("`{e}` does not tell what was raised: {doc}")),
        Err(_) => Ok(()),
    }
}

/// Memory outputs of one name, of which results by name can hold only one.
fn c27_twins(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let other = if s.bool() { "first" } else { "second" };
    let set = |n: &str, m: &str| json!({"name": n, "metrics": [{"type": "Node", "name": m}]});
    let net = json!({
        "nodes": [{"meta": {"name": "a"}, "type": "Input", "max_flow": lit(s.num(1.0, 9.0, 0.5))}, {"meta": {"name": "b"}, "type": "Output", "cost": lit(-1.0)}],
        "edges": [{"from_node": "a", "to_node": "b"}],
        "metric_sets": [set("first", "a"), set("second", "b")],
        "outputs": [{"name": "out", "type": "Memory", "metric_set": "first"}, {"name": "out", "type": "Memory", "metric_set": other}],
    });
    let doc = document(crate::schema::time_section(crate::sim::gen_date(s).at(0, 0, 0, 0), 24, s.size(1, 5)), None, net);
    info.desc(&doc);
    info.nontrivial = true;
    let r = builder(&doc, None, None).and_then(|b| b.build().map_err(|e| full(&e)));
    match r {
        Err(e) if e.starts_with("panic") => fail("panic", format!("{e}: {doc}")),
        Err(e) if !e.contains("out") => fail("message", format!("`{e}` does not tell which name there is twice: {doc}")),
        Err(_) => Ok(()),
        Ok(m) => match run(&m) {
            Err(e) => fail("run", format!("{e}: {doc}")),
            Ok(_) => fail("memory-outputs-of-one-name", format!("one of two outputs is lost: {doc}")),
        },
    }
}

/// Add an output of all that the filters of a metric set give, and of the first metric set if there is one.
/// Some of it may be listed as well, which puts it first.
pub fn add_all(s: &mut Src, doc: &mut Value, dir: &Path) {
    let mut listed: Vec<Value> = Vec::new();
    if s.bool() {
        let of: Vec<Value> = keyed(doc).into_iter().map(|x| x.0).collect();
        for _ in 0..s.size(1, 4) {
            let m = s.pick(&of).clone();
            if !listed.contains(&m) {
                listed.push(m);
            }
        }
    }
    let net = &mut doc["network"];
    let mut sets = net["metric_sets"].as_array().cloned().unwrap_or_default();
    let mut names: Vec<Value> = sets.iter().map(|m| m["name"].clone()).collect();
    names.push(json!("everything"));
    sets.push(json!({"name": "everything",
        "filters": {"all_nodes": true, "all_virtual_nodes": true, "all_parameters": true, "all_edges": true}}));
    if !listed.is_empty() {
        sets.last_mut().unwrap()["metrics"] = json!(listed);
    }
    net["metric_sets"] = json!(sets);
    net["outputs"] = json!([{"name": "out", "type": "CSV", "format": "Long", "filename": dir.join("out.csv"), "metric_set": names}]);
}

/// (type, name, attribute) of everything in a document; edges by the names of their nodes.
fn everything(doc: &Value) -> Vec<(&'static str, String, String)> {
    let all = keyed(doc);
    let sets = doc["network"]["metric_sets"].as_array().cloned().unwrap_or_default();
    let listed = sets.last().and_then(|m| m["metrics"].as_array().cloned()).unwrap_or_default();
    let first = listed.iter().map(|m| all.iter().find(|x| x.0 == *m).unwrap());
    first.chain(all.iter().filter(|x| !listed.contains(&x.0))).map(|x| x.1.clone()).collect()
}

/// The metric of each of them in a document, with its (type, name, attribute)
fn keyed(doc: &Value) -> Vec<(Value, (&'static str, String, String))> {
    let net = &doc["network"];
    let list = |k: &str| net[k].as_array().cloned().unwrap_or_default();
    let text = |v: &Value| v.as_str().unwrap_or_default().to_string();
    let mut v = Vec::new();
    for n in list("nodes") {
        let a = match n["type"].as_str().unwrap() {
            "Output" => "Inflow",
            "Abstraction" => "Abstraction",
            "Reservoir" | "Storage" | "PiecewiseStorage" => "Volume",
            _ => "Outflow",
        };
        v.push((json!({"type": "Node", "name": n["meta"]["name"]}), ("Node", text(&n["meta"]["name"]), a.to_string())));
    }
    for n in list("virtual_nodes") {
        let a = if n["type"] == "Aggregated" { "Outflow" } else { "Volume" };
        v.push((json!({"type": "VirtualNode", "name": n["meta"]["name"]}), ("VirtualNode", text(&n["meta"]["name"]), a.to_string())));
    }
    for p in list("parameters") {
        let name = text(&p["meta"]["name"]);
        if p["type"] == "Python" && p["return_type"] == "Dict" {
            continue;
        }
        let phase = match p["type"].as_str().unwrap() {
            "Aggregated" | "AggregatedIndex" | "Division" => text(&p["phase"]),
            "HydropowerTarget" => match (p["target"].is_null(), p["actual_flow"].is_null()) {
                (false, false) => "Both".to_string(),
                (true, false) => "After".to_string(),
                _ => "Before".to_string(),
            },
            _ => "Before".to_string(),
        };
        if phase != "After" {
            v.push((json!({"type": "Parameter", "name": name, "return_value": "Before"}), ("Parameter", name.clone(), "before".to_string())));
        }
        if phase != "Before" {
            v.push((json!({"type": "Parameter", "name": name, "return_value": "After"}), ("Parameter", name, "after".to_string())));
        }
    }
    for e in list("edges") {
        v.push((json!({"type": "Edge", "edge": e}), ("Edge", format!("{}->{}", text(&e["from_node"]), text(&e["to_node"])), "Flow".to_string())));
    }
    v
}

/// Compare the output of everything with the values that are known.
pub fn check_all(
    doc: &Value,
    dir: &Path,
    steps: usize,
    scenarios: usize,
    ok: bool,
    info: &mut Info,
    known: &dyn Fn(usize, usize, &str, &str, &str) -> Option<f64>,
) -> Result<(), Fail> {
    let t = match std::fs::read_to_string(dir.join("out.csv")) {
        Ok(t) => t,
        Err(e) if ok => return fail("no-file", e.to_string()),
        Err(_) => return Ok(()),
    };
    let rows = parse_csv(&t);
    // Each step and scenario has a block of rows of each set.
    let mut blocks: std::collections::BTreeMap<(i128, usize), (Vec<&Vec<String>>, Vec<&Vec<String>>)> = Default::default();
    for r in rows.iter().skip(1) {
        if r.len() != 8 {
            check!(!ok, "columns", "{r:?}");
            continue;
        }
        let b = blocks.entry((when(&r[0])?, num(&r[2])? as usize)).or_default();
        if r[4] == "everything" { b.1.push(r) } else { b.0.push(r) }
    }
    let want = everything(doc);
    if ok {
        check!(blocks.len() == steps * scenarios, "blocks", "{} of {steps} steps by {scenarios} scenarios", blocks.len());
    }
    let times: Vec<i128> = blocks.keys().map(|k| k.0).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let mut compared = 0u64;
    for ((date, sim), (first, all)) in &blocks {
        let t = times.iter().position(|x| x == date).unwrap();
        if !ok && all.len() != want.len() {
            // Not all of the last rows were written.
            continue;
        }
        check!(all.len() == want.len(), "count", "{} values of {:?} at step {t}, expected {want:?}", all.len(), all.iter().map(|r| (&r[5], &r[6])).collect::<Vec<_>>());
        for (r, (ty, name, attr)) in all.iter().zip(&want) {
            let named = if *ty == "Edge" {
                let (a, b) = name.split_once("->").unwrap();
                r[5].starts_with(a) && r[5].contains(&format!("->{b}"))
            } else {
                r[5] == *name
            };
            check!(named && r[6] == *attr, "metric", "{} {} where {ty} {name} {attr} is expected", r[5], r[6]);
            let v = num(&r[7])?;
            if let Some(w) = known(t, *sim, ty, name, attr) {
                check!(close(v, w) || (v.is_nan() && w.is_nan()), "value", "{ty} {name} {attr} at step {t}, scenario {sim}: {v}, expected {w}");
                compared += 1;
            }
            // Edges between the same nodes share a name.
            let other: Vec<f64> = first.iter().filter(|x| x[5] == r[5] && x[6] == r[6]).map(|x| num(&x[7])).collect::<Result<_, _>>()?;
            if !other.is_empty() {
                check!(v.is_nan() || other.contains(&v), "value", "{ty} {name} {attr} at step {t}, scenario {sim}: {v}, and {other:?} in another metric set");
                compared += 1;
            }
        }
    }
    info.count("compared", compared);
    info.nontrivial = compared >= 4;
    Ok(())
}

/// Everything in the documents of C17: nodes of all types, virtual nodes and edges.
fn c27_nodes(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let y = crate::nodes::gen_system_of(s, false);
    let dir = scratch_dir("all");
    let mut doc = y.doc.clone();
    add_all(s, &mut doc, &dir);
    info.desc(&doc);
    let model = builder(&doc, None, None).and_then(|b| b.build().map_err(|e| full(&e)));
    let model = model.map_err(|e| Fail { sig: "refused".into(), msg: format!("{e}\n{doc}") })?;
    let r = crate::alloc::run_model(&model, crate::alloc::Sol::Highs);
    let steps = model.domain().time().timesteps().len();
    let ns = model.domain().scenarios().len();
    check_all(&doc, &dir, steps, ns, r.is_ok(), info, &|_, _, _, _, _| None).map_err(|f| Fail { msg: format!("{}\n{doc}", f.msg), ..f })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "at least one output of the arm's kind is compared, over two or more time-steps; or the description is wrong",
        arms: vec![
            Arm { name: "long", quick: 900, thorough: 8000, run: |s, i| c13_long_of(s, i, true) },
            Arm { name: "wide", quick: 600, thorough: 8000, run: |s, i| c13_wide_of(s, i, true) },
            Arm { name: "aggregate", quick: 600, thorough: 8000, run: |s, i| c13_aggregate_of(s, i, true) },
            Arm { name: "hdf5", quick: 200, thorough: 3000, run: |s, i| c13_hdf5_of(s, i, true) },
            Arm { name: "all-nodes", quick: 2000, thorough: 40000, run: c27_nodes },
            Arm { name: "all-parameters", quick: 800, thorough: 20000, run: crate::pdoc::with_all },
            Arm { name: "invalid", quick: 800, thorough: 8000, run: c27_invalid },
            Arm { name: "twins", quick: 30, thorough: 100, run: c27_twins },
            Arm { name: "raises", quick: 60, thorough: 400, run: c27_raises },
        ],
    }]
}
