//! Helpers to build and run models from JSON documents.

use crate::alloc::full;
use crate::runner::guarded;
use crate::sim::{Probe, ProbeData};
use pywr_core::metric::{UnresolvedMetricF64, UnresolvedMetricU64};
use pywr_core::models::{Model, ModelBuilder};
use pywr_core::parameters::ParameterName;
use pywr_schema::ModelSchema;
use serde_json::{Value, json};
use std::path::Path;

pub fn lit(v: f64) -> Value {
    json!({"type": "Literal", "value": v})
}

pub fn par(name: &str) -> Value {
    json!({"type": "Parameter", "name": name})
}

pub fn p_before(name: &str) -> UnresolvedMetricF64 {
    UnresolvedMetricF64::new_parameter_before(ParameterName::new(name, None))
}

pub fn u_before(name: &str) -> UnresolvedMetricU64 {
    UnresolvedMetricU64::new_parameter_before(ParameterName::new(name, None))
}

/// A document with the given time section and network.
pub fn document(time: Value, scenarios: Option<Value>, network: Value) -> Value {
    let mut v = json!({"metadata": {"title": "generated"}, "time": time, "network": network});
    if let Some(s) = scenarios {
        v["scenarios"] = s;
    }
    v
}

/// The time section of `n` steps of a number of hours.
pub fn time_section(start: jiff::civil::DateTime, hours: i64, n: usize) -> Value {
    let end = start.checked_add(jiff::Span::new().hours(hours * (n as i64 - 1))).unwrap();
    let step = if hours % 24 == 0 { json!({"type": "Days", "days": hours / 24}) } else { json!({"type": "Hours", "hours": hours}) };
    json!({"start": start.to_string(), "end": end.to_string(), "timestep": step})
}

pub fn read(doc: &Value) -> Result<ModelSchema, String> {
    let text = doc.to_string();
    match guarded(|| serde_json::from_str::<ModelSchema>(&text).map_err(|e| e.to_string())) {
        Ok(r) => r.map_err(|e| format!("read: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}

pub fn builder(doc: &Value, data: Option<&Path>, out: Option<&Path>) -> Result<ModelBuilder, String> {
    let m = read(doc)?;
    match guarded(|| m.create_model_builder(data, out).map_err(|e| full(&e))) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// Build the model of a document with a probe on the given metrics.
pub fn probed(
    doc: &Value,
    data: Option<&Path>,
    metrics: Vec<UnresolvedMetricF64>,
    umetrics: Vec<UnresolvedMetricU64>,
) -> Result<(Model, ProbeData), String> {
    let mut b = builder(doc, data, None)?;
    let (p, d) = Probe::new("__probe", metrics, umetrics);
    b.network_builder().recorder(Box::new(p));
    match guarded(|| b.build().map_err(|e| full(&e))) {
        Ok(r) => r.map(|m| (m, d)),
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// One CSV field, quoted where it must be (or may be, if `force`).
pub fn csv_field(s: &str, force: bool) -> String {
    if force || s.is_empty() || s.contains([',', '"', '\n', '\r']) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}
