//! C20: documents of version 1.
//!
//! `nodes`: generated systems (see C17) written as documents of version 1; the converted document must behave as the
//! system is described.

use crate::alloc::{Observed, Sol, full, run_model, verify};
use crate::nodes::{gen_system_of, plain_sig, run_system, write_plain};
use crate::params::*;
use crate::runner::{Arm, Fail, Info, Prop, fail, guarded, scratch_dir};
use crate::schema::{p_before, probed, time_section};
use crate::sim::{GenOpts, Kind, Rel, Reset, gen_spec, probe_metrics};
use crate::src::Src;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_schema::{ComponentConversionError, ModelSchema};
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;

/// One of the spellings of a type.
pub(crate) fn spelling(s: &mut Src, name: &str) -> String {
    if s.chance(2, 3) { name.to_lowercase() } else { name.to_string() }
}

/// One of the spellings of the type of a parameter.
pub(crate) fn p_type(s: &mut Src, name: &str) -> String {
    match s.below(4) {
        0 => name.to_string(),
        1 => format!("{name}Parameter"),
        2 => format!("{}parameter", name.to_lowercase()),
        _ => name.to_lowercase(),
    }
}

/// Writes a document of version 2 as one of version 1.
struct Down {
    global: BTreeMap<String, Value>,
    used: Vec<String>,
    named: usize,
}

impl Down {
    fn parameter(&mut self, s: &mut Src, p: &Value) -> Value {
        let t = p["type"].as_str().unwrap();
        let mut o = match t {
            "Constant" => {
                let key = if s.chance(1, 4) { "values" } else { "value" };
                json!({key: p["value"]["value"]})
            }
            "ConstantScenario" => json!({"scenario": p["scenario_group"], "values": p["values"]["values"]}),
            "MonthlyProfile" => json!({"values": p["values"]["values"]}),
            k => panic!("no version 1 form of {k}"),
        };
        o["type"] = json!(p_type(s, t));
        if s.chance(1, 6) {
            o["comment"] = json!("some \"text\"");
        }
        o
    }
    fn metric(&mut self, s: &mut Src, m: &Value, locals: &[Value]) -> Value {
        match m["type"].as_str().unwrap() {
            "Literal" => {
                let v = m["value"].as_f64().unwrap();
                // an integer is as good
                if v.fract() == 0.0 && s.bool() { json!(v as i64) } else { json!(v) }
            }
            "LocalParameter" => {
                let p = locals.iter().find(|l| l["meta"]["name"] == m["name"]).unwrap();
                self.inline(s, p)
            }
            "Parameter" => {
                let name = m["name"].as_str().unwrap();
                if s.bool() {
                    self.used.push(name.to_string());
                    json!(name)
                } else {
                    let p = self.global[name].clone();
                    self.inline(s, &p)
                }
            }
            k => panic!("no version 1 form of {k}"),
        }
    }
    fn inline(&mut self, s: &mut Src, p: &Value) -> Value {
        let mut o = self.parameter(s, p);
        if s.chance(1, 6) {
            o["name"] = json!(format!("inline {}", self.named));
            self.named += 1;
        }
        o
    }
}

fn volume(s: &mut Src, o: &mut Map<String, Value>, v: &Value) {
    if v["type"] == "Absolute" {
        o.insert("initial_volume".into(), v["volume"].clone());
    } else {
        o.insert("initial_volume_pc".into(), v["proportion"].clone());
        if s.chance(1, 3) {
            o.insert("initial_volume".into(), Value::Null);
        }
    }
}

fn downgrade(s: &mut Src, doc: &Value, hours: i64) -> Value {
    let net = &doc["network"];
    let mut d = Down { global: BTreeMap::new(), used: vec![], named: 0 };
    for p in net["parameters"].as_array().into_iter().flatten() {
        d.global.insert(p["meta"]["name"].as_str().unwrap().to_string(), p.clone());
    }
    let none = vec![];
    let mut nodes = Vec::new();
    // names of the first slot of the splits
    let mut rivers: BTreeMap<String, String> = BTreeMap::new();
    let all: Vec<&Value> =
        net["nodes"].as_array().unwrap().iter().chain(net["virtual_nodes"].as_array().into_iter().flatten()).collect();
    for n in all {
        let name = n["meta"]["name"].as_str().unwrap();
        let locals = n["parameters"].as_array().unwrap_or(&none);
        let mut o = Map::new();
        o.insert("name".into(), json!(name));
        let t = n["type"].as_str().unwrap();
        let put = |s: &mut Src, d: &mut Down, o: &mut Map<String, Value>, from: &str, to: &str| {
            if let Some(m) = n.get(from) {
                let v = d.metric(s, m, locals);
                o.insert(to.into(), v);
            } else if s.chance(1, 8) {
                o.insert(to.into(), Value::Null);
            }
        };
        let refs = |key: &str| -> Vec<Value> { n[key].as_array().unwrap().iter().map(|r| r["name"].clone()).collect() };
        let ty = match t {
            "Input" | "Output" | "Link" | "Catchment" | "LossLink" | "RiverGauge" | "Storage" => {
                let keys: &[(&str, &str)] = match t {
                    "Catchment" => &[("flow", "flow"), ("cost", "cost")],
                    "LossLink" => &[("max_net_flow", "max_flow"), ("min_net_flow", "min_flow"), ("net_cost", "cost")],
                    "RiverGauge" => &[("mrf", "mrf"), ("mrf_cost", "mrf_cost"), ("bypass_cost", "cost")],
                    "Storage" => &[("max_volume", "max_volume"), ("min_volume", "min_volume"), ("cost", "cost")],
                    _ => &[("max_flow", "max_flow"), ("min_flow", "min_flow"), ("cost", "cost")],
                };
                for (a, b) in keys {
                    put(s, &mut d, &mut o, a, b);
                }
                if t == "LossLink"
                    && let Some(l) = n.get("loss_factor")
                {
                    let v = d.metric(s, &l["factor"], locals);
                    o.insert("loss_factor".into(), v);
                }
                if t == "Storage" {
                    volume(s, &mut o, &n["initial_volume"]);
                }
                match t {
                    "Link" if s.chance(1, 3) => spelling(s, "BreakLink"),
                    "Storage" if s.bool() => spelling(s, "Reservoir"),
                    "LossLink" if s.chance(1, 4) => "Losslink".into(),
                    "RiverGauge" if s.chance(1, 4) => "Rivergauge".into(),
                    _ => spelling(s, t),
                }
            }
            "River" => spelling(s, "River"),
            "PiecewiseLink" => {
                let steps = n["steps"].as_array().unwrap();
                o.insert("nsteps".into(), json!(steps.len()));
                let limits: Vec<Value> =
                    steps.iter().map(|p| p.get("max_flow").map(|m| d.metric(s, m, locals)).unwrap_or(Value::Null)).collect();
                let costs: Vec<Value> = steps.iter().filter_map(|p| p.get("cost").map(|m| d.metric(s, m, locals))).collect();
                if limits.iter().any(|l| !l.is_null()) || s.bool() {
                    o.insert("max_flows".into(), json!(limits));
                }
                if !costs.is_empty() {
                    o.insert("costs".into(), json!(costs));
                }
                spelling(s, "PiecewiseLink")
            }
            "Delay" => {
                let k = n["delay"]["value"].as_i64().unwrap();
                if s.bool() {
                    o.insert("timesteps".into(), json!(k));
                } else {
                    o.insert("days".into(), json!(k * hours / 24));
                }
                let initial = n["initial_value"]["value"].as_f64().unwrap();
                if initial != 0.0 || s.bool() {
                    o.insert("initial_flow".into(), json!(initial));
                }
                s.pick(&["Delay", "DelayNode", "delaynode", "Delaynode"]).to_string()
            }
            "RiverSplitWithGauge" => {
                put(s, &mut d, &mut o, "mrf", "mrf");
                put(s, &mut d, &mut o, "mrf_cost", "mrf_cost");
                let splits = n["splits"].as_array().unwrap();
                let river = s.pick(&["river", "main", "spill"]).to_string();
                let total = *s.pick(&[1.0, 2.0, 10.0]);
                let f: Vec<f64> = splits.iter().map(|p| p["factor"]["value"].as_f64().unwrap()).collect();
                let mut factors = vec![json!((1.0 - f.iter().sum::<f64>()) * total)];
                factors.extend(f.iter().map(|v| json!(v * total)));
                let mut names = vec![json!(river)];
                names.extend(splits.iter().map(|p| p["slot_name"].clone()));
                o.insert("factors".into(), json!(factors));
                o.insert("slot_names".into(), json!(names));
                rivers.insert(name.to_string(), river);
                spelling(s, "RiverSplitWithGauge")
            }
            "Aggregated" => {
                o.insert("nodes".into(), json!(refs("nodes")));
                put(s, &mut d, &mut o, "max_flow", "max_flow");
                put(s, &mut d, &mut o, "min_flow", "min_flow");
                if let Some(r) = n.get("relationship") {
                    let f: Vec<Value> = r["factors"].as_array().unwrap().iter().map(|m| d.metric(s, m, locals)).collect();
                    o.insert("factors".into(), json!(f));
                }
                s.pick(&["Aggregated", "AggregatedNode", "aggregatednode"]).to_string()
            }
            "AggregatedStorage" => {
                o.insert("storage_nodes".into(), json!(refs("storage_nodes")));
                spelling(s, "AggregatedStorage")
            }
            "VirtualStorage" => {
                o.insert("nodes".into(), json!(refs("nodes")));
                if let Some(f) = n.get("factors") {
                    o.insert("factors".into(), f.clone());
                }
                for k in ["max_volume", "min_volume", "cost"] {
                    put(s, &mut d, &mut o, k, k);
                }
                volume(s, &mut o, &n["initial_volume"]);
                let to_max = n.get("reset_volume").is_some_and(|v| v == "Max");
                if !to_max {
                    o.insert("reset_to_initial_volume".into(), json!(true));
                } else if s.bool() {
                    o.insert("reset_to_initial_volume".into(), json!(false));
                }
                let none = json!({"type": "Never"});
                let r = n.get("reset").unwrap_or(&none);
                let mut set = |s: &mut Src, key: &str, v: &Value, default: i64| {
                    if v.as_i64() != Some(default) || s.bool() {
                        o.insert(key.into(), v.clone());
                    }
                };
                match r["type"].as_str().unwrap() {
                    "Annual" => {
                        set(s, "reset_day", &r["day"], 1);
                        set(s, "reset_month", &r["month"], 1);
                        spelling(s, "AnnualVirtualStorage")
                    }
                    "Seasonal" => {
                        set(s, "reset_day", &r["start_day"], 1);
                        set(s, "reset_month", &r["start_month"], 1);
                        set(s, "end_day", &r["end_day"], 31);
                        set(s, "end_month", &r["end_month"], 12);
                        spelling(s, "SeasonalVirtualStorage")
                    }
                    "Monthly" => {
                        set(s, "months", &r["months"], 1);
                        spelling(s, "MonthlyVirtualStorage")
                    }
                    _ => {
                        o.remove("reset_to_initial_volume");
                        match n.get("window") {
                            Some(w) if w["type"] == "Days" => {
                                o.insert("days".into(), w["days"].clone());
                                spelling(s, "RollingVirtualStorage")
                            }
                            Some(w) => {
                                o.insert("timesteps".into(), w["timesteps"].clone());
                                spelling(s, "RollingVirtualStorage")
                            }
                            None => spelling(s, "VirtualStorage"),
                        }
                    }
                }
            }
            k => panic!("no version 1 form of {k}"),
        };
        o.insert("type".into(), json!(ty));
        if s.chance(1, 6) {
            o.insert("comment".into(), json!(format!("this is {name}")));
        }
        if s.chance(1, 6) {
            o.insert("position".into(), json!({"schematic": [s.num(-9.0, 9.0, 0.5), 2.5]}));
        }
        if s.chance(1, 8) {
            o.insert("tags".into(), json!({"colour": "blue", "owner": ""}));
        }
        nodes.push(Value::Object(o));
    }
    s.shuffle(&mut nodes);
    let mut edges: Vec<Value> = net["edges"]
        .as_array()
        .unwrap()
        .iter()
        .map(|e| {
            let from = e["from_node"].as_str().unwrap();
            let mut v = vec![json!(from), e["to_node"].clone()];
            match e.get("from_slot") {
                Some(slot) => {
                    v.push(match slot["type"].as_str().unwrap() {
                        "River" => json!(rivers[from]),
                        "Abstraction" => json!("abstraction"),
                        "User" => slot["name"].clone(),
                        k => panic!("no version 1 form of {k}"),
                    });
                    if s.bool() {
                        v.push(Value::Null);
                    }
                }
                None => {
                    if s.chance(1, 4) {
                        v.extend([Value::Null, Value::Null]);
                    }
                }
            }
            json!(v)
        })
        .collect();
    s.shuffle(&mut edges);
    let mut v1 = json!({
        "metadata": {"title": "generated", "minimum_version": "0.1"},
        "timestepper": timestepper(s, &doc["time"]),
        "nodes": nodes,
        "edges": edges,
    });
    let mut params = Map::new();
    let global = d.global.clone();
    let used = d.used.clone();
    for (name, p) in &global {
        if used.contains(name) || s.bool() {
            params.insert(name.clone(), d.parameter(s, p));
        }
    }
    if !params.is_empty() || s.bool() {
        v1["parameters"] = Value::Object(params);
    }
    if let Some(g) = doc.get("scenarios") {
        v1["scenarios"] = g["groups"].clone();
    }
    if s.chance(1, 6) {
        v1["recorders"] = json!({"a recorder": {"type": "NumpyArrayNodeRecorder", "node": "x"}});
    }
    v1
}

/// A time section of version 1, of a number of days a step.
pub(crate) fn timestepper(s: &mut Src, time: &Value) -> Value {
    let day = |s: &mut Src, v: &Value| -> Value {
        let t = v.as_str().unwrap();
        match s.below(3) {
            0 => json!(t.split('T').next().unwrap()),
            1 => json!(t.replace('T', " ")),
            _ => json!(t),
        }
    };
    let n = time["timestep"]["days"].as_i64().unwrap();
    let step = match s.below(6) {
        0 if n == 1 => json!("D"),
        1 => json!(format!("{n}D")),
        2 => json!(format!("{n}d")),
        _ => json!(n),
    };
    json!({"start": day(s, &time["start"]), "end": day(s, &time["end"]), "timestep": step})
}

/// The document a document of version 1 is converted to.
pub(crate) fn upgrade(v1: &Value) -> Result<(Value, Vec<String>), String> {
    let text = v1.to_string();
    guarded(|| {
        let (m, errors) = ModelSchema::from_v1_str(&text).map_err(|e| format!("read: {e}"))?;
        let doc = serde_json::to_value(&m).map_err(|e| format!("write: {e}"))?;
        Ok((doc, errors.iter().map(|e| full(e)).collect()))
    })
    .map_err(|p| format!("panic: {p}"))?
}

/// The document of a model of version 1 which can be converted.
pub(crate) fn converted(v1: &Value) -> Result<Value, Fail> {
    match upgrade(v1) {
        Ok((doc, errors)) if errors.is_empty() => Ok(doc),
        Ok((_, errors)) => Err(Fail { sig: "v1-refused".into(), msg: format!("a model which can be converted was refused: {}\n{v1}", errors.join("; ")) }),
        Err(e) => Err(Fail { sig: "v1-refused".into(), msg: format!("a valid model was refused: {e}\n{v1}") }),
    }
}

/// What describes a node without changing its behaviour is kept.
fn meta_kept(v1: &Value, doc: &Value) -> Result<(), Fail> {
    let net = &doc["network"];
    let all: Vec<&Value> =
        net["nodes"].as_array().unwrap().iter().chain(net["virtual_nodes"].as_array().into_iter().flatten()).collect();
    for n in v1["nodes"].as_array().unwrap() {
        let found: Vec<&&Value> = all.iter().filter(|m| m["meta"]["name"] == n["name"]).collect();
        if found.len() != 1 {
            return fail("v1-node-lost", format!("{} nodes of the converted model are called {}\n{v1}\n{doc}", found.len(), n["name"]));
        }
        let m = &found[0]["meta"];
        for key in ["comment", "tags"] {
            if let Some(v) = n.get(key)
                && m.get(key) != Some(v)
            {
                return fail("v1-meta", format!("{key} of {} became {}\n{v1}\n{doc}", n["name"], m));
            }
        }
        if let Some(v) = n.get("position")
            && m["position"]["schematic"].as_array().map(|a| a.iter().map(|v| v.as_f64().unwrap()).collect::<Vec<_>>())
                != v["schematic"].as_array().map(|a| a.iter().map(|v| v.as_f64().unwrap()).collect::<Vec<_>>())
        {
            return fail("v1-meta", format!("position of {} became {}\n{v1}\n{doc}", n["name"], m));
        }
    }
    Ok(())
}

fn composite(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let y = gen_system_of(s, true);
    let hours = y.step_hours();
    let v1 = downgrade(s, &y.doc, hours);
    info.desc(v1.to_string());
    let mut doc = converted(&v1)?;
    meta_kept(&v1, &doc)?;
    doc["network"]["metric_sets"] = y.doc["network"]["metric_sets"].clone();
    run_system(&y, &doc, info).map_err(|f| Fail { sig: f.sig.replace("composite", "v1"), msg: format!("{}\nfrom {v1}", f.msg) })
}

fn plain(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let mut o = GenOpts { aggs: 1, vss: 2, subdaily: false, min_flows: s.chance(1, 3), ..Default::default() };
    if s.chance(1, 3) {
        o.max_t = 14;
    }
    let mut spec = gen_spec(s, &o);
    let kinds: Vec<Kind> = spec.nodes.iter().map(|n| n.kind).collect();
    spec.aggs.retain(|a| a.groups.iter().flatten().all(|i| kinds[*i] != Kind::Storage));
    for a in spec.aggs.iter_mut() {
        if !matches!(a.rel, Some(Rel::Ratio(_))) {
            a.rel = None;
        }
    }
    for v in spec.vss.iter_mut() {
        // a rolling virtual storage is not reset
        if v.window.is_some() {
            v.reset = Reset::Never;
            v.active = None;
        }
        if matches!(v.reset, Reset::Never) {
            v.reset_to_max = false;
        }
    }
    let doc = write_plain(s, &mut spec);
    let v1 = downgrade(s, &doc, spec.step_hours);
    info.desc(v1.to_string());
    let doc = converted(&v1)?;
    meta_kept(&v1, &doc)?;
    let (metrics, cols) = probe_metrics(&spec);
    let (model, data) = match probed(&doc, None, metrics, vec![]) {
        Ok(x) => x,
        Err(e) => return fail("v1-build", format!("the converted model was refused: {e}\n{doc}\nfrom {v1}")),
    };
    let outcome = run_model(&model, Sol::Highs);
    let ob = Observed { table: data.table(), cols, outcome };
    let (bad, st) = verify(&spec, &ob, 1e-6);
    info.nontrivial = st.moved && st.binding > 0;
    info.label(if ob.outcome.is_ok() { "completed" } else { "stopped" });
    match bad.first() {
        Some((c, m)) => fail(&plain_sig(*c).replace("plain", "v1"), format!("{m}\n{doc}\nfrom {v1}")),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- parameters

const STORES: [(&str, Nm, Nm); 3] = [("r1", Nm::Vol1, Nm::PVol1), ("r2", Nm::Vol2, Nm::PVol2), ("aggs", Nm::AggVol, Nm::AggPVol)];
const FLOWS: [(&str, Nm); 3] = [("in", Nm::InOut), ("out", Nm::OutIn), ("agg", Nm::AggOut)];

/// Generates parameters and writes them as objects of version 1.
struct Writer<'a> {
    s: &'a mut Src,
    net: PNet,
    dir: std::path::PathBuf,
    globals: Map<String, Value>,
    /// What has a name, and whether it is a parameter once it is converted.
    named: Vec<(usize, bool)>,
    /// One more than the greatest index of each parameter, if it is known.
    bound: Vec<Option<usize>>,
    files: usize,
    inlined: usize,
}

impl Writer<'_> {
    fn num(&mut self) -> f64 {
        self.s.num(0.0, 12.0, 0.25) * if self.s.chance(1, 5) { -1.0 } else { 1.0 }
    }
    fn push(&mut self, k: K, ty: Ty, bound: Option<usize>) -> usize {
        let i = self.net.ps.len();
        let cl = match k {
            K::Const(_) | K::ConstScen(..) => Cl::Const,
            _ => Cl::General,
        };
        self.net.ps.push(P { name: format!("(inline {i})"), k, ty, cl, before: true, after: false });
        self.bound.push(bound);
        i
    }
    fn literal(&mut self, v: f64) -> Value {
        if v.fract() == 0.0 && self.s.bool() { json!(v as i64) } else { json!(v) }
    }
    /// A value: a number, the name of a parameter, or a parameter.
    fn value(&mut self, depth: usize) -> (M, Value) {
        match self.s.below(8) {
            0..=2 if !self.named.is_empty() => {
                let k = self.named.len() - 1 - self.s.us(self.named.len()).min(self.s.us(self.named.len()));
                let (i, _) = self.named[k];
                (M::P(i, Ret::Before, None), json!(self.net.ps[i].name))
            }
            3..=5 if depth > 0 => {
                let (i, v) = self.parameter(depth - 1, false, None);
                self.inlined += 1;
                (M::P(i, Ret::Before, None), v)
            }
            _ => {
                let v = self.num();
                (M::Lit(v), self.literal(v))
            }
        }
    }
    fn values(&mut self, depth: usize, n: usize) -> (Vec<M>, Value) {
        let (a, b): (Vec<M>, Vec<Value>) = (0..n).map(|_| self.value(depth)).unzip();
        (a, json!(b))
    }
    /// An index, which is less than a limit almost always.
    fn index(&mut self, depth: usize, limit: Option<usize>) -> (MU, Value) {
        let fits = |b: Option<usize>| limit.is_none_or(|n| b.is_some_and(|b| b <= n));
        let found: Vec<usize> = self
            .named
            .iter()
            .map(|n| n.0)
            .filter(|i| self.net.ps[*i].ty == Ty::U && fits(self.bound[*i]))
            .collect();
        match self.s.below(6) {
            0..=1 if !found.is_empty() => {
                let i = *self.s.pick(&found);
                (MU::P(i, Ret::Before, None), json!(self.net.ps[i].name))
            }
            2..=4 if depth > 0 => {
                let (i, v) = self.parameter(depth - 1, true, limit);
                self.inlined += 1;
                (MU::P(i, Ret::Before, None), v)
            }
            _ => {
                let n = limit.unwrap_or(4) + self.s.chance(1, 20) as usize;
                let v = self.s.us(n.max(1));
                (MU::Lit(v as u64), self.literal(v as f64))
            }
        }
    }
    /// The state of a storage, and curves from the highest to the lowest.
    fn curves(&mut self, o: &mut Value, most: usize, single: bool) -> (M, Vec<M>) {
        let (name, _, pv) = *self.s.pick(&STORES);
        o["storage_node"] = json!(name);
        let n = self.s.size(1, most.max(1));
        let mut at: Vec<f64> = (0..n).map(|_| self.s.num(0.0, 1.0, 0.125)).collect();
        at.sort_by(|a, b| b.partial_cmp(a).unwrap());
        let mut ms = Vec::new();
        let mut vs = Vec::new();
        for k in 0..n {
            let low = at.get(k + 1).copied().unwrap_or(0.0);
            match self.s.below(4) {
                0 => {
                    let v: Vec<f64> = (0..12).map(|_| low + (at[k] - low) * self.s.num(0.0, 1.0, 0.25)).collect();
                    vs.push(json!({"type": p_type(self.s, "MonthlyProfile"), "values": v}));
                    ms.push(M::P(self.push(K::Monthly(v, Interp::No), Ty::F, None), Ret::Before, None));
                    self.inlined += 1;
                }
                1 => {
                    vs.push(json!({"type": p_type(self.s, "Constant"), "value": at[k]}));
                    ms.push(M::P(self.push(K::Const(at[k]), Ty::F, None), Ret::Before, None));
                    self.inlined += 1;
                }
                _ => {
                    vs.push(json!(at[k]));
                    ms.push(M::Lit(at[k]));
                }
            }
        }
        if n == 1 && single && self.s.bool() {
            o["control_curve"] = vs.remove(0);
        } else {
            o["control_curves"] = json!(vs);
        }
        (M::N(pv), ms)
    }
    fn predicate(&mut self, o: &mut Value) -> Pr {
        let (p, names) = self.s.pick(&[
            (Pr::Lt, ["<", "lt", "LT"]),
            (Pr::Gt, [">", "gt", "GT"]),
            (Pr::Eq, ["==", "eq", "EQ"]),
            (Pr::Le, ["<=", "le", "LE"]),
            (Pr::Ge, [">=", "ge", "GE"]),
        ]);
        if !matches!(p, Pr::Lt) || self.s.bool() {
            o["predicate"] = json!(self.s.pick(names));
        }
        *p
    }
    fn file(&mut self, cols: &[String], rows: &[Vec<f64>]) -> String {
        self.files += 1;
        let f = format!("f{}.csv", self.files);
        let mut out = format!("time,{}\n", cols.join(","));
        // a row more than there are steps
        for t in 0..=self.net.t {
            let r = &rows[t.min(rows.len() - 1)];
            out += &format!("{},{}\n", self.net.date(t), r.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(","));
        }
        std::fs::write(self.dir.join(&f), out).unwrap();
        f
    }
    fn kwarg(&mut self, o: &mut Value, strict: bool) {
        match (strict, self.s.below(3)) {
            (true, 0) => {}
            (true, 1) => o["interp_kwargs"] = json!({"kind": "linear"}),
            _ => o["interp_kwargs"] = json!({"bounds_error": strict, "fill_value": "extrapolate"}),
        }
    }
    /// A parameter, and its object.
    fn parameter(&mut self, depth: usize, index: bool, limit: Option<usize>) -> (usize, Value) {
        let mut o = json!({});
        let (t, sizes) = (self.net.t, self.net.sizes);
        let d = depth;
        let opt = |s: &mut Src, o: &mut Value, key: &str, v: &[f64]| -> Option<f64> {
            if s.bool() {
                let v = *s.pick(v);
                o[key] = json!(v);
                Some(v)
            } else {
                if s.chance(1, 6) {
                    o[key] = Value::Null;
                }
                None
            }
        };
        let most = limit.map(|n| n.saturating_sub(1)).unwrap_or(3).min(3);
        let (name, i) = if index {
            let two = limit.is_none_or(|n| n >= 2);
            loop {
                match self.s.below(7) {
                    0 if limit.is_none() => {
                        let n = self.s.size(1, 3);
                        let (ms, vs): (Vec<MU>, Vec<Value>) = (0..n).map(|_| self.index(d, None)).unzip();
                        let (f, name) = *self.s.pick(&[
                            (Au::Sum, "sum"),
                            (Au::Product, "product"),
                            (Au::Min, "min"),
                            (Au::Max, "max"),
                            (Au::Any, "any"),
                            (Au::All, "all"),
                        ]);
                        o["parameters"] = json!(vs);
                        o["agg_func"] = json!(name);
                        break ("AggregatedIndex", self.push(K::UAgg(Ph::Before, f, ms), Ty::U, None));
                    }
                    1 if two => {
                        let (a, x) = self.index(d, None);
                        let (b, y) = self.index(d, None);
                        o["on_index_parameter"] = x;
                        o["off_index_parameter"] = y;
                        break ("AsymmetricSwitchIndex", self.push(K::Asym(a, b), Ty::U, Some(2)));
                    }
                    2 if most > 0 => {
                        let (x, cc) = self.curves(&mut o, most, false);
                        let n = cc.len() + 1;
                        break ("ControlCurveIndex", self.push(K::CcIndex(x, cc), Ty::U, Some(n)));
                    }
                    3 if most > 0 => {
                        let (x, cc) = self.curves(&mut o, most, true);
                        let n = cc.len() + 1;
                        break ("ControlCurve", self.push(K::CcIndex(x, cc), Ty::U, Some(n)));
                    }
                    4 if two => {
                        let (name, x) = self.threshold_of(d, &mut o);
                        let (th, v) = self.value(d);
                        o["threshold"] = v;
                        let p = self.predicate(&mut o);
                        break (name, self.push(K::Thresh(x, th, p, false), Ty::U, Some(2)));
                    }
                    5..=6 if most > 0 => {
                        let n = self.s.size(1, most);
                        let (name, x) = if self.s.bool() {
                            let (m, v) = self.value(d);
                            o["parameter"] = v;
                            ("MultipleThresholdParameterIndex", m)
                        } else {
                            ("MultipleThresholdIndex", self.node(&mut o, "node"))
                        };
                        let (ths, vs) = self.values(d, n);
                        o["thresholds"] = vs;
                        break (name, self.push(K::MultiThresh(x, ths, Pr::Ge, false), Ty::U, Some(n + 1)));
                    }
                    _ => {
                        // always zero
                        if !two {
                            let (x, y) = (MU::Lit(0), MU::Lit(0));
                            o["on_index_parameter"] = json!(0);
                            o["off_index_parameter"] = json!(0);
                            break ("AsymmetricSwitchIndex", self.push(K::Asym(x, y), Ty::U, Some(1)));
                        }
                    }
                }
            }
        } else {
            match self.s.below(27) {
                0..=1 => {
                    let v = self.num();
                    let key = if self.s.chance(1, 4) { "values" } else { "value" };
                    o[key] = self.literal(v);
                    ("Constant", self.push(K::Const(v), Ty::F, None))
                }
                2 => {
                    let g = self.s.us(2);
                    let v: Vec<f64> = (0..sizes[g]).map(|_| self.num()).collect();
                    o["scenario"] = json!(format!("g{g}"));
                    o["values"] = json!(v);
                    ("ConstantScenario", self.push(K::ConstScen(v, g), Ty::F, None))
                }
                3 => {
                    let v: Vec<f64> = (0..12).map(|_| self.num()).collect();
                    o["values"] = json!(v);
                    let ip = *self.s.pick(&[Interp::No, Interp::First, Interp::Last]);
                    match ip {
                        Interp::First => o["interp_day"] = json!("first"),
                        Interp::Last => o["interp_day"] = json!("last"),
                        Interp::No => {}
                    }
                    ("MonthlyProfile", self.push(K::Monthly(v, ip), Ty::F, None))
                }
                4 => {
                    let n = 52 + self.s.us(2);
                    let v: Vec<f64> = (0..n).map(|_| self.num()).collect();
                    o["values"] = json!(v);
                    ("WeeklyProfile", self.push(K::Weekly(v, Interp::No), Ty::F, None))
                }
                5 => {
                    let a = self.num();
                    let v: Vec<f64> = (0..366).map(|d| d as f64 * 0.25 + a).collect();
                    o["values"] = json!(v);
                    ("DailyProfile", self.push(K::Daily(v), Ty::F, None))
                }
                6 => {
                    let day = opt(self.s, &mut o, "reset_day", &[1.0, 2.0, 15.0, 28.0]).unwrap_or(1.0);
                    let month = opt(self.s, &mut o, "reset_month", &[1.0, 2.0, 4.0, 12.0]).unwrap_or(1.0);
                    let rest = opt(self.s, &mut o, "residual_days", &[0.0, 1.0, 60.0]).map(|v| v as u8);
                    for k in ["reset_day", "reset_month", "residual_days"] {
                        if let Some(v) = o[k].as_f64() {
                            o[k] = json!(v as i64);
                        }
                    }
                    ("UniformDrawdownProfile", self.push(K::Drawdown(day as i8, month as i8, rest), Ty::F, None))
                }
                7 => {
                    let n = self.s.size(1, 6);
                    let mut at = self.s.below(40) as u32;
                    let mut pts = Vec::new();
                    for _ in 0..n {
                        pts.push((at, self.num()));
                        at += 20 + self.s.below(40) as u32;
                    }
                    o["days_of_year"] = json!(pts.iter().map(|p| p.0).collect::<Vec<_>>());
                    o["values"] = json!(pts.iter().map(|p| p.1).collect::<Vec<_>>());
                    let e = self.s.num(0.01, 0.05, 0.005);
                    let (f, name) = *self.s.pick(&[
                        (Rb::Mq(e), "multiquadric"),
                        (Rb::Imq(e), "inverse"),
                        (Rb::Gauss(e), "gaussian"),
                        (Rb::Linear, "linear"),
                        (Rb::Cubic, "cubic"),
                        (Rb::Thin, "thin_plate"),
                    ]);
                    o["rbf_kwargs"] = json!({"epsilon": e});
                    if name != "multiquadric" || self.s.bool() {
                        o["rbf_kwargs"]["function"] = json!(name);
                    }
                    ("RbfProfile", self.push(K::Rbf(pts, f), Ty::F, None))
                }
                8..=11 => {
                    let (m, v) = self.value(d);
                    o["parameter"] = v;
                    let c = opt(self.s, &mut o, "threshold", &[0.0, 1.5, -3.0, 6.0]);
                    let z = c.unwrap_or(0.0);
                    match self.s.below(5) {
                        0 => ("Max", self.push(K::Max(m, z), Ty::F, None)),
                        1 => ("Min", self.push(K::Min(m, z), Ty::F, None)),
                        2 => ("NegativeMax", self.push(K::NegMax(m, z), Ty::F, None)),
                        3 => ("NegativeMin", self.push(K::NegMin(m, z), Ty::F, None)),
                        _ => {
                            o = json!({"parameter": o["parameter"]});
                            ("Negative", self.push(K::Neg(m), Ty::F, None))
                        }
                    }
                }
                12 => {
                    let (name, vol, pv) = *self.s.pick(&STORES);
                    o["storage_node"] = json!(name);
                    let relative = self.s.bool();
                    o["use_proportional_volume"] = json!(relative);
                    let n = self.s.size(1, 4);
                    let c: Vec<f64> = (0..n).map(|_| self.s.num(-2.0, 2.0, 0.5)).collect();
                    o["coefficients"] = json!(c);
                    let scale = opt(self.s, &mut o, "scale", &[0.25, 0.5, 1.0]);
                    let offset = opt(self.s, &mut o, "offset", &[-1.0, 0.5, 2.0]);
                    let x = M::N(if relative { pv } else { vol });
                    ("Polynomial1D", self.push(K::Poly(x, c, scale, offset), Ty::F, None))
                }
                13 => {
                    let (a, x) = self.value(d);
                    let (b, y) = if self.s.chance(3, 4) {
                        let v = self.s.num(0.25, 8.0, 0.25);
                        (M::Lit(v), json!(v))
                    } else {
                        self.value(d)
                    };
                    o["numerator"] = x;
                    o["denominator"] = y;
                    ("Division", self.push(K::Div(Ph::Before, a, b), Ty::F, None))
                }
                14..=15 => {
                    let n = self.s.size(1, 4);
                    let (ms, vs) = self.values(d, n);
                    o["parameters"] = vs;
                    let (f, name) = *self.s.pick(&[(Af::Sum, "sum"), (Af::Product, "product"), (Af::Max, "max"), (Af::Min, "min")]);
                    o["agg_func"] = json!(name);
                    ("Aggregated", self.push(K::Agg(Ph::Before, f, ms), Ty::F, None))
                }
                16..=17 => {
                    let n = self.s.size(1, 4);
                    let (ms, vs) = self.values(d, n);
                    let (k, v) = self.index(d, Some(n));
                    o[if self.s.bool() { "params" } else { "parameters" }] = vs;
                    o["index_parameter"] = v;
                    ("IndexedArray", self.push(K::Indexed(k, ms), Ty::F, None))
                }
                18 => {
                    let strict = self.s.chance(1, 6);
                    let n = self.s.size(2, 4);
                    let mut at = if strict { -400.0 } else { self.s.num(-8.0, 4.0, 0.5) };
                    let mut pts = Vec::new();
                    let (mut xs, mut ys) = (Vec::new(), Vec::new());
                    for k in 0..n {
                        let (m, v) = self.value(d);
                        pts.push((at, m));
                        ys.push(v);
                        xs.push(if self.s.chance(1, 4) { json!({"type": p_type(self.s, "Constant"), "value": at}) } else { self.literal(at) });
                        at += self.s.num(0.5, 6.0, 0.5);
                        if strict && k + 2 == n {
                            at = 4000.0;
                        }
                    }
                    o["values"] = json!(ys);
                    self.kwarg(&mut o, strict);
                    if self.s.bool() {
                        o["flows"] = json!(xs);
                        let x = self.flow(&mut o, "node");
                        ("InterpolatedFlow", self.push(K::Interp(x, pts, strict), Ty::F, None))
                    } else {
                        o["volumes"] = json!(xs);
                        let (name, vol, _) = *self.s.pick(&STORES);
                        o["node"] = json!(name);
                        ("InterpolatedVolume", self.push(K::Interp(M::N(vol), pts, strict), Ty::F, None))
                    }
                }
                19 => {
                    let rate = self.s.num(0.0, 0.25, 0.015625);
                    let year = self.net.start.year() as i64 - self.s.int(-3, 12);
                    o["rate"] = json!(rate);
                    o["base_year"] = json!(year);
                    ("DiscountFactor", self.push(K::Discount(M::Lit(rate), year as i16), Ty::F, None))
                }
                20 => {
                    let n = self.s.size(1, 4);
                    o["timesteps"] = json!(n);
                    let x = self.flow(&mut o, "node");
                    let initial = opt(self.s, &mut o, "initial_flow", &[0.0, 2.5, 7.0]).unwrap_or(0.0);
                    ("RollingMeanFlowNode", self.push(K::Rolling(x, n, initial, 1, Af::Mean), Ty::F, None))
                }
                21 => {
                    let (x, cc) = self.curves(&mut o, 3, true);
                    let n = cc.len() + 2;
                    let vs = self.given(d, n, &mut o);
                    ("ControlCurveInterpolated", self.push(K::CcInterp(x, cc, vs), Ty::F, None))
                }
                22 => {
                    let (x, cc) = self.curves(&mut o, 3, true);
                    let vs: Vec<[f64; 2]> = (0..cc.len() + 1).map(|_| [self.num(), self.num()]).collect();
                    o["values"] = json!(vs);
                    let low = opt(self.s, &mut o, "minimum", &[0.0, 0.05, -1.0]).unwrap_or(0.0);
                    ("ControlCurvePiecewiseInterpolated", self.push(K::CcPiece(x, cc, vs, 1.0, low), Ty::F, None))
                }
                23 => {
                    let (x, cc) = self.curves(&mut o, 3, true);
                    let n = cc.len() + 1;
                    let vs = self.given(d, n, &mut o);
                    ("ControlCurve", self.push(K::Cc(x, cc, vs), Ty::F, None))
                }
                24 => {
                    let (target, v) = self.value(d);
                    o["target"] = v;
                    let mut part = |w: &mut Self, key: &str| -> Option<M> {
                        if w.s.bool() {
                            let (m, v) = w.value(d);
                            o[key] = v;
                            Some(m)
                        } else {
                            None
                        }
                    };
                    let water_elevation = part(self, "water_elevation_parameter");
                    let max_flow = part(self, "max_flow");
                    let min_flow = part(self, "min_flow");
                    let h = Hydro {
                        actual_flow: None,
                        target: Some(target),
                        water_elevation,
                        max_flow,
                        min_flow,
                        elevation: opt(self.s, &mut o, "turbine_elevation", &[1.0, 2.5]),
                        min_head: opt(self.s, &mut o, "min_head", &[0.5, 2.0]),
                        efficiency: opt(self.s, &mut o, "efficiency", &[0.85, 0.5]),
                        density: opt(self.s, &mut o, "density", &[1000.0, 998.0]),
                        flow_conv: opt(self.s, &mut o, "flow_unit_conversion", &[0.011574, 1.0]),
                        energy_conv: opt(self.s, &mut o, "energy_unit_conversion", &[1e-3, 1.0, 1e-6]),
                    };
                    ("HydropowerTarget", self.push(K::Hydro(Box::new(h)), Ty::F, None))
                }
                25 => {
                    let (name, x) = self.threshold_of(d, &mut o);
                    let (th, v) = self.value(d);
                    o["threshold"] = v;
                    let p = self.predicate(&mut o);
                    let choice = [self.num(), self.num()];
                    o["values"] = json!(choice);
                    let j = self.push(K::Thresh(x, th, p, false), Ty::U, Some(2));
                    (name, self.push(K::Indexed(MU::P(j, Ret::Before, None), choice.iter().map(|v| M::Lit(*v)).collect()), Ty::F, None))
                }
                _ => {
                    let k = if self.s.bool() {
                        let g = self.s.us(2);
                        let rows: Vec<Vec<f64>> = (0..t).map(|_| (0..sizes[g]).map(|_| self.num()).collect()).collect();
                        let cols: Vec<String> = (0..sizes[g]).map(|k| format!("c{k}")).collect();
                        o["url"] = json!(self.file(&cols, &rows));
                        o["scenario"] = json!(format!("g{g}"));
                        K::Array2(rows, g, None)
                    } else {
                        let rows: Vec<Vec<f64>> = (0..t).map(|_| vec![self.num(), self.num(), self.num()]).collect();
                        let c = self.s.us(3);
                        o["url"] = json!(self.file(&["a".into(), "b b".into(), "c".into()], &rows));
                        o["column"] = json!(["a", "b b", "c"][c]);
                        K::Array1(rows.iter().map(|r| r[c]).collect(), None)
                    };
                    o["index_col"] = json!("time");
                    if self.s.bool() {
                        o["parse_dates"] = json!(true);
                    }
                    ("DataFrame", self.push(k, Ty::F, None))
                }
            }
        };
        let alias = p_type(self.s, name);
        // one name is spelled in its own way
        o["type"] = json!(if alias == "MultipleThresholdParameterIndexParameter" { "MultipleThresholdParameterIndex".into() } else { alias });
        if self.s.chance(1, 6) {
            o["comment"] = json!("about this");
        }
        (i, o)
    }
    fn flow(&mut self, o: &mut Value, key: &str) -> M {
        let (name, m) = *self.s.pick(&FLOWS);
        o[key] = json!(name);
        M::N(m)
    }
    fn node(&mut self, o: &mut Value, key: &str) -> M {
        if self.s.chance(2, 3) {
            return self.flow(o, key);
        }
        let (name, vol, _) = *self.s.pick(&STORES);
        o[key] = json!(name);
        M::N(vol)
    }
    fn threshold_of(&mut self, d: usize, o: &mut Value) -> (&'static str, M) {
        match self.s.below(3) {
            0 => {
                let (m, v) = self.value(d);
                o["parameter"] = v;
                ("ParameterThreshold", m)
            }
            1 => ("NodeThreshold", self.node(o, "node")),
            _ => {
                let (name, vol, _) = *self.s.pick(&STORES);
                o["storage_node"] = json!(name);
                ("StorageThreshold", M::N(vol))
            }
        }
    }
    /// What a curve chooses from.
    fn given(&mut self, d: usize, n: usize, o: &mut Value) -> Vec<M> {
        if self.s.bool() {
            let (ms, vs) = self.values(d, n);
            o["parameters"] = vs;
            ms
        } else {
            let v: Vec<f64> = (0..n).map(|_| self.num()).collect();
            o["values"] = json!(v);
            v.into_iter().map(M::Lit).collect()
        }
    }
}

/// Files are read without Python.
fn without_pandas(doc: &mut Value) {
    for ts in doc["network"]["timeseries"].as_array_mut().into_iter().flatten() {
        if ts["type"] == "Pandas" {
            let mut v = json!({"type": "Polars", "meta": ts["meta"], "url": ts["url"]});
            if let Some(c) = ts.get("time_col") {
                v["time_col"] = c.clone();
            }
            *ts = v;
        }
    }
}

/// A generated document of parameters.
struct Written {
    v1: Value,
    net: PNet,
    named: Vec<(usize, bool)>,
    inlined: usize,
}

fn written(s: &mut Src, dir: &std::path::Path) -> Written {
    let mut net = gen_pnet(s, &[Tag::Const], &[Tag::Const], 6);
    net.ps.clear();
    net.order.clear();
    net.start = net.start.date().at(0, 0, 0, 0);
    net.step_hours = *s.pick(&[24, 24, 24, 48, 168]);
    let mut w = Writer {
        s,
        net,
        dir: dir.to_path_buf(),
        globals: Map::new(),
        named: vec![],
        bound: vec![],
        files: 0,
        inlined: 0,
    };
    let n = w.s.size(1, 6);
    let mut taken = vec![];
    for _ in 0..n {
        let index = w.s.chance(1, 4);
        let (i, v) = w.parameter(2, index, None);
        // Names which might be made up for others
        let mut name = match w.s.below(6) {
            0 => format!("unnamed-{}", w.s.us(4)),
            1 => format!("{}-p{}", w.s.pick(&["lk", "r1", "out"]), w.s.us(2)),
            2 if !taken.is_empty() => format!("{}-p{}", w.s.pick(&taken), w.s.us(3)),
            _ => format!("{} {}", w.s.pick(&["z", "a", "the"]), taken.len()),
        };
        if taken.contains(&name) {
            name = format!("parameter {}", taken.len());
        }
        taken.push(name.clone());
        let frame = v["type"].as_str().unwrap().to_lowercase().starts_with("dataframe");
        w.net.ps[i].name = name.clone();
        w.named.push((i, !frame));
        w.globals.insert(name, v);
    }
    let net = w.net.clone();
    // The water system
    let cols: Vec<String> = (0..net.sizes[0]).map(|c| format!("s{c}")).collect();
    let (win, wout) = (w.file(&cols, &net.inflow), w.file(&cols, &net.demand));
    let frame = |s: &mut Src, f: &str| json!({"type": p_type(s, "DataFrame"), "url": f, "scenario": "g0", "index_col": "time"});
    let mut in_flow = frame(w.s, &win);
    let mut out_flow = frame(w.s, &wout);
    if w.s.bool() {
        w.globals.insert("supply".into(), std::mem::replace(&mut in_flow, json!("supply")));
    }
    if w.s.bool() {
        w.globals.insert("demand".into(), std::mem::replace(&mut out_flow, json!("demand")));
    }
    let mut constant = |v: f64| if w.s.bool() { json!({"type": p_type(w.s, "Constant"), "value": v}) } else { json!(v) };
    let mut nodes = vec![
        json!({"name": "in", "type": "Input", "max_flow": in_flow, "cost": constant(-5.0)}),
        json!({"name": "lk", "type": "Link", "max_flow": constant(6.0)}),
        json!({"name": "out", "type": "Output", "max_flow": out_flow, "cost": constant(-20.0)}),
        json!({"name": "r1", "type": "Storage", "max_volume": constant(net.vmax[0]), "cost": constant(-1.0), "initial_volume": net.vinit[0]}),
        json!({"name": "r2", "type": "Reservoir", "max_volume": constant(net.vmax[1]), "cost": constant(-0.5), "initial_volume": net.vinit[1]}),
        json!({"name": "spill", "type": "Output", "cost": constant(1.0)}),
        json!({"name": "agg", "type": "Aggregated", "nodes": ["in", "out", "lk"]}),
        json!({"name": "aggs", "type": "AggregatedStorage", "storage_nodes": ["r1", "r2"]}),
    ];
    w.s.shuffle(&mut nodes);
    let time = time_section(net.start, net.step_hours, net.t);
    let v1 = json!({
        "metadata": {"title": "generated", "minimum_version": "0.1"},
        "timestepper": timestepper(w.s, &time),
        "scenarios": [{"name": "g0", "size": net.sizes[0]}, {"name": "g1", "size": net.sizes[1]}],
        "nodes": nodes,
        "edges": [["in", "r1"], ["r1", "lk"], ["lk", "r2"], ["r2", "out"], ["r1", "spill"]],
        "parameters": w.globals,
    });
    Written { v1, net, named: w.named, inlined: w.inlined }
}

fn parameters(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let scratch = scratch_dir("v1");
    let Written { v1, net, named, inlined } = written(s, &scratch);
    info.desc(v1.to_string());
    let mut doc = converted(&v1)?;
    without_pandas(&mut doc);
    let mut metrics: Vec<UnresolvedMetricF64> = NMS.iter().map(|n| nm_metric(*n)).collect();
    let mut cols = Vec::new();
    for (i, is) in &named {
        if *is {
            metrics.push(p_before(&net.ps[*i].name));
            cols.push((*i, false, None));
        }
    }
    info.count("inline", inlined as u64);
    let shown = |m: String| format!("{m}\n{}\n{doc}\nfrom {v1}", net.show());
    let r = guarded(|| -> Result<Seen, String> {
        let (model, data) = probed(&doc, Some(&scratch), metrics, vec![])?;
        let r = run_model(&model, Sol::Highs);
        Ok(Seen { rows: data.table(), err: r.err() })
    });
    let seen = match r {
        Err(p) => return fail("v1-parameter-panic", shown(format!("panic: {p}"))),
        Ok(Err(e)) => return fail("v1-parameter-refused", shown(format!("the converted model was refused: {e}"))),
        Ok(Ok(x)) => x,
    };
    let r = compare_pnet(&net, &seen, &cols, info);
    info.desc(v1.to_string());
    r.map_err(|f| Fail { sig: format!("v1-{}", f.sig), msg: shown(f.msg) })
}

// ---------------------------------------------------------------- refusals

/// A part of a document of version 1.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Part {
    Node(String),
    Parameter(String),
    Edge(String, String),
    Table(String),
    Time,
    Scenarios,
}

/// A parameter which has no equivalent, or which lacks what it needs.
fn bad_parameter(s: &mut Src, depth: usize) -> Value {
    macro_rules! c {
        ($s:expr, $name:expr, $v:expr) => {{
            let mut v = $v;
            v["type"] = json!(p_type($s, $name));
            v
        }};
    }
    let curve = json!({"storage_node": "r1", "control_curve": 0.5});
    let with = |mut v: Value, more: Value| {
        for (k, x) in more.as_object().unwrap() {
            v[k] = x.clone();
        }
        v
    };
    let n = if depth > 0 { 36 } else { 31 };
    match s.below(n) {
        0 => c!(s, "CurrentYearThreshold", json!({"threshold": 2020, "values": [1.0, 2.0], "predicate": "GT"})),
        1 => c!(s, "CurrentOrdinalDayThreshold", json!({"threshold": 700000, "values": [1.0, 2.0], "predicate": "<"})),
        2 => c!(s, "ScenarioWrapper", json!({"scenario": "g0", "parameters": [1.0, 2.0]})),
        3 => c!(s, "Deficit", json!({"node": "out"})),
        4 => c!(s, "Flow", json!({"node": "out"})),
        5 => c!(s, "Storage", json!({"storage_node": "r1"})),
        6 => json!({"type": "MyOwnParameter", "value": 1.0, "values": [1.0]}),
        7 => json!({"type": (["Max", "negative", "DivisionParameter", "constantscenario", "MonthlyProfile"][s.us(5)])}),
        8 => c!(s, "MonthlyProfile", json!({"url": "a.csv", "index": "x"})),
        9 => {
            let name = *s.pick(&["MonthlyProfile", "DailyProfile", "WeeklyProfile"]);
            c!(s, name, json!({}))
        }
        10 => c!(s, "ConstantScenario", json!({"scenario": "g0"})),
        11 => c!(s, "ConstantScenario", json!({"scenario": "g0", "url": "a.csv"})),
        12 => c!(s, "Constant", json!({"value": 1.0, "tags": {"n": ([json!(1), json!(null), json!(true), json!({}), json!([])][s.us(5)])}})),
        13 => c!(s, "ParameterThreshold", json!({"parameter": 1.0, "threshold": 0.5, "values": ([[1.0].as_slice(), &[1.0, 2.0, 3.0], &[]][s.us(3)])})),
        14 => c!(s, "StorageThreshold", json!({"storage_node": "r1", "threshold": 0.5, "values": [1.0, 2.0, 3.0]})),
        15 => c!(s, "NodeThreshold", json!({"node": "out", "threshold": 0.5, "values": [1.0]})),
        16 => c!(s, "DiscountFactor", json!({"rate": 0.1, "base_year": ([40000, 70000, 2147483647][s.us(3)])})),
        17 => c!(s, "RollingMeanFlowNode", json!({"node": "out", "timesteps": -s.int(1, 3)})),
        18 => {
            let more = ([json!({}), json!({"days": 3}), json!({"days": 3, "timesteps": 3})][s.us(3)]).clone();
            c!(s, "RollingMeanFlowNode", with(json!({"node": "out", "initial_flow": 0.0}), more))
        }
        19 => c!(s, "InterpolatedVolume", json!({"node": "r1", "volumes": [0.0, 5.0], "values": [0.0, 1.0], "interp_kwargs": {"kind": "cubic"}})),
        20 => c!(s, "InterpolatedFlow", json!({"node": "out", "flows": [0.0, 5.0], "values": [0.0, 1.0], "interp_kwargs": {"kind": "nearest"}})),
        21 => c!(s, "ControlCurveInterpolated", with(curve, ([json!({}), json!({"values": [1.0, 2.0, 3.0], "parameters": [1.0, 2.0, 3.0]})][s.us(2)]).clone())),
        22 => c!(s, "IndexedArray", json!({"index_parameter": ([1.5, -1.0, 0.25][s.us(3)]), "params": [1.0, 2.0]})),
        23 => c!(s, "DataFrame", json!({"url": "a.csv", "column": "a", "scenario": "g0"})),
        24 => c!(s, "DataFrame", json!({"column": "a"})),
        25 => c!(s, "DataFrame", json!({"url": "a.csv", "column": "a", "timestep_offset": ([1, -1][s.us(2)])})),
        26 => c!(s, "RbfProfile", json!({"days_of_year": [1, 90, 180], "values": [1.0, 2.0, 3.0], "rbf_kwargs": {"function": "quintic"}})),
        27 => {
            let key = *s.pick(&["smooth", "norm"]);
            c!(s, "RbfProfile", json!({"days_of_year": [1, 90, 180], "values": [1.0, 2.0, 3.0], "rbf_kwargs": {key: 0.5}}))
        }
        28 => c!(s, "RbfProfile", json!({"days_of_year": [1, 90, 180], "values": [1.0, 2.0, 3.0, 4.0], "rbf_kwargs": {}})),
        29 => {
            let key = *s.pick(&["min_value", "max_value"]);
            c!(s, "RbfProfile", json!({"days_of_year": [1, 90, 180], "values": [1.0, 2.0, 3.0], "rbf_kwargs": {}, key: 1.0}))
        }
        30 => c!(s, "ControlCurveInterpolated", json!({"storage_node": "r1", "values": [1.0, 2.0, 3.0]})),
        // within another
        31 => {
            let p = bad_parameter(s, depth - 1);
            let name = *s.pick(&["Negative", "Max", "Min", "NegativeMax", "NegativeMin"]);
            c!(s, name, json!({"parameter": p}))
        }
        32 => {
            let p = bad_parameter(s, depth - 1);
            let mut all = vec![json!(1.0), json!("some"), p];
            s.shuffle(&mut all);
            c!(s, "Aggregated", json!({"agg_func": "sum", "parameters": all}))
        }
        33 => {
            let p = bad_parameter(s, depth - 1);
            let v = if s.bool() { json!({"numerator": p, "denominator": 2.0}) } else { json!({"numerator": 2.0, "denominator": p}) };
            c!(s, "Division", v)
        }
        34 => {
            let p = bad_parameter(s, depth - 1);
            c!(s, "ControlCurveInterpolated", json!({"storage_node": "r1", "control_curves": [0.5, p], "values": [1.0, 2.0, 3.0]}))
        }
        _ => {
            let p = bad_parameter(s, depth - 1);
            c!(s, "IndexedArray", json!({"index_parameter": 1, "params": [1.0, p]}))
        }
    }
}

/// What of a node may be given by a parameter.
fn slots_of(n: &Value) -> Vec<(&'static str, Option<usize>)> {
    let t = n["type"].as_str().unwrap().to_lowercase();
    let mut keys = vec!["max_flow", "min_flow", "cost", "mrf", "mrf_cost", "max_volume", "min_volume", "flow", "loss_factor"];
    let mut lists = vec!["costs", "max_flows"];
    if t.starts_with("aggregated") || t.starts_with("riversplit") {
        lists.push("factors");
    }
    if t == "river" {
        keys.clear();
    }
    let mut all: Vec<(&'static str, Option<usize>)> = keys.into_iter().filter(|k| n.get(*k).is_some_and(|v| !v.is_null())).map(|k| (k, None)).collect();
    for k in lists {
        for i in 0..n.get(k).and_then(|v| v.as_array()).map(|a| a.len()).unwrap_or(0) {
            all.push((k, Some(i)));
        }
    }
    all
}

/// Makes a node one that cannot be converted.
fn spoil_node(s: &mut Src, n: &mut Value, days: i64) -> &'static str {
    let t = n["type"].as_str().unwrap().to_lowercase();
    loop {
        match s.below(14) {
            0 => {
                n["type"] = json!((["MultiSplitLink", "multisplitlink", "RiverSplit", "riversplit", "MyOwnNode", ""][s.us(6)]));
                if s.bool() {
                    n["factors"] = json!([1.0, 2.0]);
                }
                return "type";
            }
            1 => {
                n["tags"] = json!({"ok": "text", "n": ([json!(1), json!(null), json!(true), json!({}), json!([])][s.us(5)])});
                return "tags";
            }
            2 if n.get("initial_volume").is_some() || n.get("initial_volume_pc").is_some() => {
                n.as_object_mut().unwrap().remove("initial_volume");
                n.as_object_mut().unwrap().remove("initial_volume_pc");
                return "initial volume";
            }
            3 if t == "piecewiselink" && (n.get("costs").is_some() || n.get("max_flows").is_some()) => {
                let k = n["nsteps"].as_i64().unwrap();
                n["nsteps"] = json!(if k > 0 && s.bool() { k - 1 } else { k + 1 });
                return "steps";
            }
            4 if t == "riversplitwithgauge" => {
                match s.below(3) {
                    0 => n["slot_names"].as_array_mut().unwrap().push(json!("more")),
                    1 => {
                        n["slot_names"].as_array_mut().unwrap().pop();
                    }
                    _ => n["cost"] = json!(1.0),
                }
                return "split";
            }
            5 if t.starts_with("aggregated") && !t.starts_with("aggregatedstorage") => {
                let k = n["nodes"].as_array().unwrap().len();
                n["flow_weights"] = json!(vec![1.0; k]);
                return "weights";
            }
            6 if t == "annualvirtualstorage" => {
                let key = *s.pick(&["reset_day", "reset_month"]);
                n[key] = json!(*s.pick(&[128, 300, -1, 257, 513]));
                return "reset";
            }
            7 if t == "seasonalvirtualstorage" => {
                let key = *s.pick(&["reset_day", "reset_month", "end_day", "end_month"]);
                n[key] = json!(*s.pick(&[128, 300, -1, 257, 513]));
                return "reset";
            }
            8 if t == "rollingvirtualstorage" => {
                let o = n.as_object_mut().unwrap();
                o.remove("days");
                o.remove("timesteps");
                match s.below(3) {
                    0 => {}
                    1 => n["days"] = json!(-s.int(0, 3)),
                    _ => n["timesteps"] = json!(-s.int(0, 3)),
                }
                return "window";
            }
            9 if t.starts_with("delay") => {
                let o = n.as_object_mut().unwrap();
                o.remove("days");
                o.remove("timesteps");
                match s.below(4) {
                    0 => {}
                    1 => n["days"] = json!(-s.int(1, 30)),
                    2 if days > 1 => n["days"] = json!(days * s.int(0, 3) + s.int(1, days - 1)),
                    _ => n["timesteps"] = json!(-s.int(1, 3)),
                }
                return "delay";
            }
            10 if t == "river" => {
                let key = *s.pick(&["max_flow", "min_flow", "cost"]);
                n[key] = json!(1.0);
                return "extra";
            }
            11 if t == "aggregatedstorage" || t.contains("virtualstorage") => {
                let key = if t == "aggregatedstorage" { "storage_nodes" } else { "nodes" };
                n.as_object_mut().unwrap().remove(key);
                return "members";
            }
            12..=13 => {
                let all = slots_of(n);
                if all.is_empty() {
                    continue;
                }
                let (k, i) = *s.pick(&all);
                let p = bad_parameter(s, 2);
                match i {
                    None => n[k] = p,
                    Some(i) => n[k][i] = p,
                }
                return "attribute";
            }
            _ => {}
        }
    }
}

/// A part of a converted document, with what is referred to in place of references to what has no name of its own.
fn resolved(v: &Value, doc: &Value, own: &dyn Fn(&str) -> bool, gone: &[Part], depth: usize) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(|x| resolved(x, doc, own, gone, depth)).collect()),
        Value::Object(o) => {
            let name = o.get("name").and_then(|n| n.as_str());
            let ty = o.get("type").and_then(|t| t.as_str());
            if let (Some(name), Some("Node" | "VirtualNode")) = (name, ty)
                && gone.contains(&Part::Node(name.to_string()))
            {
                return json!({"gone": name});
            }
            if let (Some(name), Some(ty)) = (name, ty)
                && (ty == "Parameter" || ty == "Timeseries")
                && depth > 0
            {
                if gone.contains(&Part::Parameter(name.to_string())) {
                    return json!({"gone": name});
                }
                if !own(name) {
                    let key = if ty == "Parameter" { "parameters" } else { "timeseries" };
                    let all: Vec<&Value> =
                        doc["network"][key].as_array().into_iter().flatten().filter(|p| p["meta"]["name"] == name).collect();
                    let mut p = json!(all);
                    for q in p.as_array_mut().unwrap() {
                        q["meta"].as_object_mut().unwrap().remove("name");
                    }
                    let mut rest = o.clone();
                    rest.remove("name");
                    return json!({"is": resolved(&p, doc, own, gone, depth - 1), "as": rest});
                }
            }
            Value::Object(o.iter().map(|(k, x)| (k.clone(), resolved(x, doc, own, gone, depth))).collect())
        }
        x => x.clone(),
    }
}

fn by_name<'a>(doc: &'a Value, keys: &[&str], name: &str) -> Vec<&'a Value> {
    keys.iter().flat_map(|k| doc["network"][*k].as_array().into_iter().flatten()).filter(|n| n["meta"]["name"] == name).collect()
}

fn refused(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let scratch = scratch_dir("v1r");
    let good = match s.below(3) {
        0 => {
            let y = gen_system_of(s, true);
            let hours = y.step_hours();
            downgrade(s, &y.doc, hours)
        }
        1 => {
            let o = GenOpts { aggs: 1, vss: 2, subdaily: false, max_t: 3, ..Default::default() };
            let mut spec = gen_spec(s, &o);
            let kinds: Vec<Kind> = spec.nodes.iter().map(|n| n.kind).collect();
            spec.aggs.retain(|a| a.groups.iter().flatten().all(|i| kinds[*i] != Kind::Storage));
            for a in spec.aggs.iter_mut() {
                if !matches!(a.rel, Some(Rel::Ratio(_))) {
                    a.rel = None;
                }
            }
            for v in spec.vss.iter_mut() {
                if v.window.is_some() {
                    v.reset = Reset::Never;
                    v.active = None;
                }
                if matches!(v.reset, Reset::Never) {
                    v.reset_to_max = false;
                }
            }
            let doc = write_plain(s, &mut spec);
            downgrade(s, &doc, spec.step_hours)
        }
        _ => written(s, &scratch).v1,
    };
    let want = match upgrade(&good) {
        Ok((doc, errors)) if errors.is_empty() => doc,
        Ok((_, errors)) => return fail("v1-refused", format!("a model which can be converted was refused: {}\n{good}", errors.join("; "))),
        Err(e) => return fail("v1-refused", format!("a valid model was refused: {e}\n{good}")),
    };
    let days = want["time"]["timestep"]["days"].as_i64().unwrap();
    let mut v1 = good.clone();
    let mut bad: Vec<Part> = Vec::new();
    for _ in 0..s.size(1, 3) {
        match s.below(12) {
            0..=5 => {
                let nodes = v1["nodes"].as_array_mut().unwrap();
                let n = s.us(nodes.len());
                let name = nodes[n]["name"].as_str().unwrap().to_string();
                if bad.contains(&Part::Node(name.clone())) {
                    continue;
                }
                // without a step, a delay of any number of days is a number of steps
                let what = spoil_node(s, &mut nodes[n], if bad.contains(&Part::Time) { 1 } else { days });
                info.label(what);
                bad.push(Part::Node(name));
            }
            6..=7 => {
                let ps = v1.as_object_mut().unwrap().entry("parameters").or_insert(json!({}));
                let mut names: Vec<String> = ps.as_object().unwrap().keys().cloned().collect();
                names.push("a new one".into());
                let name = s.pick(&names).clone();
                let mut p = bad_parameter(s, 2);
                if s.chance(1, 8) {
                    p["comment"] = json!("wrong");
                }
                ps[&name] = p;
                info.label("parameter");
                bad.push(Part::Parameter(name));
            }
            8 => {
                let edges = v1["edges"].as_array_mut().unwrap();
                let e = s.us(edges.len());
                let (a, b) = (edges[e][0].as_str().unwrap().to_string(), edges[e][1].as_str().unwrap().to_string());
                edges[e] = match s.below(3) {
                    0 => json!([a, b, "no such slot", null]),
                    1 => json!([a, b, "no such slot"]),
                    _ => json!([a, b, null, "no such slot"]),
                };
                info.label("edge");
                bad.push(Part::Edge(a, b));
            }
            9 => {
                let name = format!("table {}", s.us(3));
                let ts = v1.as_object_mut().unwrap().entry("tables").or_insert(json!({}));
                ts[&name] = json!({"url": "a table.csv", "index_col": ([json!(0), json!("x"), json!(["a", "b"])][s.us(3)])});
                info.label("table");
                bad.push(Part::Table(name));
            }
            10 => {
                let has_delay = v1["nodes"].as_array().unwrap().iter().any(|n| n.get("days").is_some());
                if has_delay {
                    continue;
                }
                v1["timestepper"]["timestep"] = ([json!(0), json!("0D"), json!("0d")][s.us(3)]).clone();
                info.label("time");
                bad.push(Part::Time);
            }
            _ => {
                if bad.contains(&Part::Scenarios) {
                    continue;
                }
                match v1.get_mut("scenarios").and_then(|g| g.as_array_mut()) {
                    Some(g) if !g.is_empty() => {
                        let k = s.us(g.len());
                        g[k]["slice"] = json!([([json!(null), json!(0)][s.us(2)]), null, 0]);
                    }
                    Some(_) => continue,
                    None => v1["scenario_combinations"] = json!([[0], [1]]),
                }
                info.label("scenarios");
                bad.push(Part::Scenarios);
            }
        }
    }
    bad.sort();
    bad.dedup();
    info.desc(format!("{bad:?} {v1}"));
    let text = v1.to_string();
    let r = guarded(|| {
        let (m, errors) = ModelSchema::from_v1_str(&text).map_err(|e| format!("{e}"))?;
        let doc = serde_json::to_value(&m).map_err(|e| format!("write: {e}"))?;
        Ok::<_, String>((doc, errors))
    });
    let (doc, errors) = match r {
        Err(p) => return fail("v1-panic", format!("panic: {p}\n{v1}")),
        Ok(Err(e)) => return fail("v1-unread", format!("the document could not be read at all: {e}\nexpected {bad:?}\n{v1}")),
        Ok(Ok(x)) => x,
    };
    let mut said: Vec<Part> = errors
        .iter()
        .map(|e| match e {
            ComponentConversionError::Node { name, .. } => Part::Node(name.clone()),
            ComponentConversionError::Parameter { name, .. } => Part::Parameter(name.clone()),
            ComponentConversionError::Edge { from_node, to_node, .. } => Part::Edge(from_node.clone(), to_node.clone()),
            ComponentConversionError::Table { name, .. } => Part::Table(name.clone()),
            ComponentConversionError::Time { .. } => Part::Time,
            ComponentConversionError::Scenarios { .. } => Part::Scenarios,
        })
        .collect();
    said.sort();
    // the slots of a node that is not converted are not known
    said.retain(|p| !matches!(p, Part::Edge(a, _) if bad.contains(&Part::Node(a.clone())) && !bad.contains(p)));
    let shown = || {
        let e: Vec<String> = errors.iter().map(|e| full(e)).collect();
        format!("refused: {said:?}: {}\nwrong: {bad:?}\n{v1}\n{doc}", e.join("; "))
    };
    if said != bad {
        let sig = if bad.iter().any(|b| !said.contains(b)) { "v1-silent" } else { "v1-too-many" };
        return fail(sig, shown());
    }
    // Everything else is as if nothing were wrong
    let own = |name: &str| good["parameters"].get(name).is_some();
    let mut compared = 0;
    for n in good["nodes"].as_array().unwrap() {
        let name = n["name"].as_str().unwrap();
        let is = by_name(&doc, &["nodes", "virtual_nodes"], name);
        if bad.contains(&Part::Node(name.to_string())) {
            if !is.is_empty() {
                return fail("v1-kept", format!("{name} is in the converted document\n{}", shown()));
            }
            continue;
        }
        if bad.contains(&Part::Time) {
            continue;
        }
        let was = by_name(&want, &["nodes", "virtual_nodes"], name);
        let a = resolved(&json!(is), &doc, &own, &bad, 8);
        let b = resolved(&json!(was), &want, &own, &bad, 8);
        if a != b {
            return fail("v1-other-node", format!("{name} is {a}\nbut without what is wrong {b}\n{}", shown()));
        }
        compared += 1;
    }
    for name in good["parameters"].as_object().map(|o| o.keys().cloned().collect::<Vec<_>>()).unwrap_or_default() {
        if bad.contains(&Part::Parameter(name.clone())) {
            if !by_name(&doc, &["parameters"], &name).is_empty() {
                return fail("v1-kept", format!("{name} is in the converted document\n{}", shown()));
            }
            continue;
        }
        if bad.contains(&Part::Time) {
            continue;
        }
        let is = by_name(&doc, &["parameters", "timeseries"], &name);
        let was = by_name(&want, &["parameters", "timeseries"], &name);
        let a = resolved(&json!(is), &doc, &own, &bad, 8);
        let b = resolved(&json!(was), &want, &own, &bad, 8);
        if a != b || is.len() != 1 {
            return fail("v1-other-parameter", format!("{name} is {a}\nbut without what is wrong {b}\n{}", shown()));
        }
        compared += 1;
    }
    let edges = |d: &Value| -> Vec<String> {
        let mut v: Vec<String> = d["network"]["edges"]
            .as_array()
            .into_iter()
            .flatten()
            .filter(|e| {
                let at = |k: &str| e[k].as_str().unwrap().to_string();
                !bad.contains(&Part::Edge(at("from_node"), at("to_node"))) && !bad.contains(&Part::Node(at("from_node")))
            })
            .map(|e| e.to_string())
            .collect();
        v.sort();
        v
    };
    let (a, b) = (edges(&doc), edges(&want));
    if a != b {
        return fail("v1-other-edge", format!("edges {a:?}\nbut without what is wrong {b:?}\n{}", shown()));
    }
    if !bad.contains(&Part::Time) && doc["time"] != want["time"] {
        return fail("v1-other-time", shown());
    }
    if !bad.contains(&Part::Scenarios) && doc["scenarios"] != want["scenarios"] {
        return fail("v1-other-scenarios", shown());
    }
    info.nontrivial = compared >= 2;
    info.count("compared", compared as u64);
    Ok(())
}

// ---------------------------------------------------------------- slices

fn slices(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let n = s.size(1, 3);
    let mut groups = Vec::new();
    let mut kept: Vec<Vec<usize>> = Vec::new();
    let mut wrong = false;
    for g in 0..n {
        let size = s.size(1, 9);
        let mut o = json!({"name": format!("g{g}"), "size": size});
        let names: Vec<String> = (0..size).map(|k| format!("m{}", k * 7 % 10)).collect();
        if s.bool() {
            o["ensemble_names"] = json!(names);
        }
        let mut all: Vec<usize> = (0..size).collect();
        if s.chance(3, 4) {
            let len = s.size(1, 3);
            let parts: Vec<Option<usize>> =
                (0..len).map(|k| if s.chance(1, 4) { None } else if k == 2 { Some(s.us(4)) } else { Some(s.us(size + 3)) }).collect();
            o["slice"] = json!(parts);
            let (a, b, step) = match parts.len() {
                1 => (None, parts[0], None),
                2 => (parts[0], parts[1], None),
                _ => (parts[0], parts[1], parts[2]),
            };
            let step = step.unwrap_or(1);
            if step == 0 {
                wrong = true;
            } else {
                let (a, b) = (a.unwrap_or(0), b.unwrap_or(size));
                all.retain(|k| *k >= a && *k < b && (*k - a) % step == 0);
            }
        }
        kept.push(all);
        groups.push(o);
    }
    let mut v1 = json!({
        "metadata": {"title": "slices", "description": "text", "minimum_version": "0.1"},
        "timestepper": {"start": "2020-01-01", "end": "2020-01-03", "timestep": 1},
        "scenarios": groups,
        "nodes": [
            {"name": "in", "type": "input", "max_flow": 2.0},
            {"name": "out", "type": "output", "cost": -1.0, "max_flow": 1.0}
        ],
        "edges": [["in", "out"]],
    });
    let mut combos: Vec<Vec<usize>> = Vec::new();
    // All of the combinations are from what is kept
    if s.chance(1, 3) && kept.iter().all(|k| !k.is_empty()) {
        for _ in 0..s.size(1, 4) {
            let c: Vec<usize> = kept.iter().map(|k| *s.pick(k)).collect();
            if !combos.contains(&c) {
                combos.push(c);
            }
        }
        v1["scenario_combinations"] = json!(combos);
        for g in v1["scenarios"].as_array_mut().unwrap() {
            g.as_object_mut().unwrap().remove("slice");
        }
        wrong = false;
    }
    info.desc(v1.to_string());
    let (doc, errors) = match upgrade(&v1) {
        Ok(x) => x,
        Err(e) => return fail("v1-slice-unread", format!("{e}\n{v1}")),
    };
    if wrong {
        return match errors.len() {
            1 => Ok(()),
            _ => fail("v1-slice-silent", format!("a step of zero gave {errors:?}\n{v1}\n{doc}")),
        };
    }
    if !errors.is_empty() {
        return fail("v1-slice-refused", format!("{errors:?}\n{v1}"));
    }
    if doc["metadata"]["title"] != "slices" || doc["metadata"]["description"] != "text" {
        return fail("v1-metadata", format!("{doc}\n{v1}"));
    }
    // What is simulated
    let empty = combos.is_empty() && kept.iter().any(|k| k.is_empty());
    let r = guarded(|| -> Result<Vec<(Vec<usize>, Vec<String>)>, String> {
        let (model, _) = probed(&doc, None, vec![UnresolvedMetricF64::NodeOutFlow("in".into())], vec![])?;
        run_model(&model, Sol::Highs).map_err(|e| e.to_string())?;
        let all = model.domain().scenarios().indices();
        Ok(all.iter().map(|i| ((0..n).map(|g| i.schema_index_for_group(g)).collect(), i.labels().to_vec())).collect())
    });
    let seen = match r {
        Err(p) => return fail("v1-slice-panic", format!("{p}\n{v1}\n{doc}")),
        // nothing to simulate
        Ok(Err(_)) if empty => return Ok(()),
        Ok(Err(e)) => return fail("v1-slice-refused", format!("{e}\n{v1}\n{doc}")),
        Ok(Ok(x)) => x,
    };
    let mut want = combos;
    if want.is_empty() {
        want.push(vec![]);
        for k in &kept {
            want = want.iter().flat_map(|w| k.iter().map(move |x| w.iter().copied().chain([*x]).collect())).collect();
        }
    }
    let is: Vec<Vec<usize>> = seen.iter().map(|x| x.0.clone()).collect();
    if is != want {
        return fail("v1-slice", format!("simulated {is:?} of the members, expected {want:?}\n{v1}\n{doc}"));
    }
    for (w, l) in &seen {
        for (g, x) in w.iter().enumerate() {
            if let Some(names) = v1["scenarios"][g].get("ensemble_names")
                && names[*x] != json!(l[g])
            {
                return fail("v1-slice-name", format!("member {x} of group {g} is called {}\n{v1}\n{doc}", l[g]));
            }
        }
    }
    let sizes: Vec<usize> = v1["scenarios"].as_array().unwrap().iter().map(|g| g["size"].as_u64().unwrap() as usize).collect();
    info.nontrivial = want.len() > 1 && want.len() < sizes.iter().product();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        rule: "plain: water moves and a limit binds; composite: water moves; parameters: at least four of the values compared with the prediction; refused: at least two parts of the document are compared besides what was refused; slices: a slice leaves out some members and keeps others",
        arms: vec![
            Arm { name: "plain", quick: 5000, thorough: 200000, run: plain },
            Arm { name: "composite", quick: 6000, thorough: 250000, run: composite },
            Arm { name: "parameters", quick: 6000, thorough: 250000, run: parameters },
            Arm { name: "refused", quick: 8000, thorough: 300000, run: refused },
            Arm { name: "slices", quick: 3000, thorough: 60000, run: slices },
        ],
    }]
}

/// A document of version 1.
pub fn any_document(s: &mut Src, dir: &std::path::Path) -> Value {
    if s.bool() {
        written(s, dir).v1
    } else {
        let y = gen_system_of(s, true);
        downgrade(s, &y.doc, y.step_hours())
    }
}

/// A parameter of version 1, or what looks like one.
pub fn any_parameter(s: &mut Src) -> Value {
    if s.bool() {
        return bad_parameter(s, 1);
    }
    let dir = crate::runner::scratch_dir("v1p");
    let v1 = written(s, &dir).v1;
    let mut all: Vec<&Value> = v1["parameters"].as_object().unwrap().values().collect();
    all.extend(v1["nodes"].as_array().unwrap().iter().map(|n| &n["max_flow"]));
    (*s.pick(&all)).clone()
}
