//! Names carry no meaning: a document with other names gives the same results.

use crate::check;
use crate::alloc::{Sol, full, run_model};
use crate::docs::{models, short_time};
use crate::runner::{Fail, Info, fail, guarded};
use crate::schema::builder;
use crate::src::Src;
use pywr_core::network::{Network, ResolutionMaps};
use pywr_core::recorders::{MetricSetState, Recorder, RecorderBuilder, RecorderBuilderError, RecorderInternalState, RecorderMeta, RecorderSaveError};
use pywr_core::scenario::ScenarioIndex;
use pywr_core::state::State;
use pywr_core::timestep::Timestep;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ renaming

type Table = Arc<Mutex<Vec<BTreeMap<(String, String), Vec<f64>>>>>;

/// Records flow or volume of all nodes of the network by name.
#[derive(Debug, Clone)]
struct All {
    meta: RecorderMeta,
    data: Table,
}

impl RecorderBuilder for All {
    fn name(&self) -> &str {
        "__all"
    }
    fn build(self: Box<Self>, _maps: &ResolutionMaps) -> Result<Box<dyn Recorder>, RecorderBuilderError> {
        Ok(self)
    }
}

impl Recorder for All {
    fn meta(&self) -> &RecorderMeta {
        &self.meta
    }
    fn save(
        &self,
        _timestep: &Timestep,
        scenario_indices: &[ScenarioIndex],
        network: &Network,
        state: &[State],
        _metric_set_states: &[Vec<MetricSetState>],
        _internal_state: &mut Option<Box<dyn RecorderInternalState>>,
    ) -> Result<(), RecorderSaveError> {
        let mut row: BTreeMap<(String, String), Vec<f64>> = BTreeMap::new();
        for si in scenario_indices {
            for n in network.nodes() {
                let v = n.default_metric().get_value(network, &state[si.simulation_id()])?;
                row.entry((n.name().to_string(), n.sub_name().unwrap_or("").to_string())).or_default().push(v);
            }
        }
        self.data.lock().unwrap().push(row);
        Ok(())
    }
}

/// The document with all nodes and virtual nodes given other names.
fn rename(v: &mut Value, key: &str, names: &BTreeMap<String, String>) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| rename(x, key, names)),
        Value::Object(m) => {
            let refers = match m.get("type").and_then(|t| t.as_str()) {
                Some(t) => matches!(t, "Node" | "VirtualNode"),
                None => matches!(key, "nodes" | "storage_nodes" | "node"),
            };
            for (k, x) in m.iter_mut() {
                if matches!(k.as_str(), "from_node" | "to_node") || (k == "name" && refers) {
                    if let Some(n) = x.as_str().and_then(|n| names.get(n)) {
                        *x = json!(n);
                    }
                } else {
                    rename(x, k, names);
                }
            }
        }
        _ => {}
    }
}

fn run(doc: &Value, data: Option<&Path>) -> (Result<(), String>, Vec<BTreeMap<(String, String), Vec<f64>>>) {
    let rec = All { meta: RecorderMeta { name: "__all".into(), comment: String::new() }, data: Default::default() };
    let out = rec.data.clone();
    let r = (|| {
        let mut b = builder(doc, data, None)?;
        b.network_builder().recorder(Box::new(rec));
        let model = match guarded(|| b.build().map_err(|e| full(&e))) {
            Ok(r) => r?,
            Err(p) => return Err(format!("panic: {p}")),
        };
        run_model(&model, Sol::Highs)
    })();
    let rows = out.lock().unwrap().clone();
    (r, rows)
}

pub fn renamed(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let (mut doc, data) = if s.chance(1, 3) {
        let all = models();
        let (p, d) = *s.pick(&all);
        (d.clone(), p.parent().map(|p| p.to_path_buf()))
    } else {
        (crate::nodes::gen_system(s).doc, None)
    };
    short_time(&mut doc);
    if let Some(n) = doc["network"].as_object_mut() {
        n.remove("outputs");
    }
    let mut names = BTreeMap::new();
    let style = s.below(3);
    for key in ["nodes", "virtual_nodes"] {
        for n in doc["network"].get(key).and_then(|n| n.as_array()).into_iter().flatten() {
            let Some(name) = n["meta"]["name"].as_str() else { continue };
            let k = s.below(1000);
            let new = match style {
                0 => format!("{k:03} {name}"),
                1 => format!("{name} {k}"),
                _ => format!("N{k}-{}", names.len()),
            };
            names.insert(name.to_string(), new);
        }
    }
    info.desc(format!("{names:?} {doc}"));
    let (r0, a) = run(&doc, data.as_deref());
    if let Err(e) = &r0 {
        if a.is_empty() && (e.contains("ython") || e.contains("read:")) {
            info.label("not runnable");
            return Ok(());
        }
    }
    let mut other = doc.clone();
    rename(&mut other["network"], "", &names);
    for key in ["nodes", "virtual_nodes"] {
        for n in other["network"].get_mut(key).and_then(|n| n.as_array_mut()).into_iter().flatten() {
            if let Some(x) = n["meta"]["name"].as_str().and_then(|n| names.get(n)) {
                n["meta"]["name"] = json!(x);
            }
        }
    }
    let (r1, b) = run(&other, data.as_deref());
    check!(r0.is_ok() == r1.is_ok(), "renamed-outcome", "{r0:?} and with other names {r1:?}\n{names:?}\n{doc}\n{other}");
    check!(a.len() == b.len(), "renamed-outcome", "{} and {} timesteps\n{doc}", a.len(), b.len());
    info.label(if r0.is_ok() { "completed" } else { "stopped" });
    for (t, (x, y)) in a.iter().zip(&b).enumerate() {
        for ((n, sub), v) in x {
            let m = names.get(n).unwrap_or(n);
            let Some(w) = y.get(&(m.clone(), sub.clone())) else {
                return fail("renamed-nodes", format!("no node {m}/{sub} after renaming\n{doc}"));
            };
            info.nontrivial |= v.iter().any(|v| v.abs() > 1e-9);
            if v.len() != w.len() || v.iter().zip(w).any(|(v, w)| (v - w).abs() > 1e-6 * v.abs().max(1.0)) {
                return fail("renamed-values", format!("t={t} {n}/{sub}: {v:?} and with other names {w:?}\n{names:?}\n{doc}"));
            }
        }
        check!(x.len() == y.len(), "renamed-nodes", "{} and {} nodes\n{doc}", x.len(), y.len());
    }
    Ok(())
}
