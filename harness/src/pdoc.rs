//! Parameters of documents: a generated network of parameters is written as a document (as global or local
//! parameters, timeseries, tables and arrays), and the values of the model built from it are compared with the
//! prediction.

use crate::alloc::{Sol, run_model};
use crate::params::*;
use crate::recorders::outdoc;
use crate::runner::{Arm, Fail, Info, Prop, fail, guarded, scratch_dir};
use crate::schema::{csv_field, document, lit, probed, time_section};
use crate::src::Src;
use crate::tables::checksum;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::parameters::{ParameterName, ParameterReturnValue};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::Path;

const HOSTS: [&str; 7] = ["in", "lk", "out", "r1", "r2", "spill", "agg"];

const PRELUDE: &str = "
def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b
";

fn py_list(v: &[Value]) -> String {
    format!("[{}]", v.iter().map(py_value).collect::<Vec<_>>().join(", "))
}

fn py_value(v: &Value) -> String {
    match v {
        Value::Null => "None".into(),
        Value::Bool(true) => "True".into(),
        Value::Bool(false) => "False".into(),
        Value::Array(a) => py_list(a),
        Value::Object(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", Value::String(k.clone()), py_value(v))).collect::<Vec<_>>().join(", ")),
        // Numbers and text are written as in JSON
        other => other.to_string(),
    }
}

/// How a parameter is written.
#[derive(Clone, Debug, PartialEq)]
enum Place {
    Global,
    Local(&'static str),
    /// A timeseries, and the file's column (or none: a column for each scenario).
    Series(String, Option<String>),
    /// Part of another parameter.
    Fused,
}

struct Writer<'a> {
    s: &'a mut Src,
    net: &'a PNet,
    dir: &'a Path,
    place: Vec<Place>,
    name: Vec<String>,
    series: Vec<Value>,
    tables: Vec<Value>,
    numbers: Vec<(String, String)>,
    files: usize,
    python: BTreeMap<String, String>,
    use_python: bool,
    /// Whether a file has a checksum, and whether one of them is wrong.
    checksum: bool,
    wrong: bool,
}

fn doc_kinds(all: &[Tag]) -> Vec<Tag> {
    use Tag as T;
    all.iter().copied().filter(|t| !matches!(t, T::Vector | T::Diff | T::Deficit | T::Apportion | T::VolBetween | T::Muskingum)).collect()
}

/// Change what documents cannot express.
fn expressible(net: &mut PNet) {
    let t = net.t;
    for (i, p) in net.ps.iter_mut().enumerate() {
        match &mut p.k {
            K::UArray1(v, o) => {
                *o = None;
                while v.len() < t {
                    v.push(v[v.len() - 1]);
                }
            }
            K::UArray2(v, _, o) => {
                *o = None;
                while v.len() < t {
                    v.push(v[v.len() - 1].clone());
                }
            }
            K::Agg(_, f, _) | K::Rolling(.., f) if matches!(f, Af::CountPos) => *f = Af::CountNonZero,
            K::Agg(_, f, _) | K::Rolling(.., f) if matches!(f, Af::AnyNonZero(_)) && i % 2 == 1 => *f = Af::AnyNonZero(1e-6),
            _ => {}
        }
        each_m(&mut p.k, &mut |m| {
            if let M::N(n) = m {
                *n = match *n {
                    Nm::MultiIn | Nm::MaxFlowOut => Nm::OutIn,
                    Nm::MultiOut => Nm::InOut,
                    Nm::MultiEdge => Nm::EdgeR2Out,
                    other => other,
                }
            }
        });
    }
}

/// The parameters each parameter uses.
fn uses(net: &PNet) -> Vec<Vec<usize>> {
    net.ps
        .iter()
        .map(|p| {
            let mut v = Vec::new();
            let mut k = p.k.clone();
            each_m(&mut k, &mut |m| {
                if let M::P(i, ..) = m {
                    v.push(*i);
                }
            });
            each_mu(&mut k, &mut |m| {
                if let MU::P(i, ..) = m {
                    v.push(*i);
                }
            });
            v
        })
        .collect()
}

impl Writer<'_> {
    fn file(&mut self, ext: &str) -> String {
        self.files += 1;
        format!("f{}.{ext}", self.files)
    }
    fn times(&self, n: usize) -> Vec<String> {
        (0..n).map(|t| format!("{}", self.net.date(t))).collect()
    }
    /// A timeseries of the values (rows by column), with a row more than there are steps.
    fn add_series(&mut self, cols: &[String], rows: &[Vec<String>]) -> String {
        let f = self.file("csv");
        let name = format!("series {}", self.files);
        let n = self.net.t + 1;
        let mut out = format!("time,{}\n", cols.iter().map(|c| csv_field(c, false)).collect::<Vec<_>>().join(","));
        for (t, d) in self.times(n).iter().enumerate() {
            let r = &rows[t.min(rows.len() - 1)];
            out += &format!("{d},{}\n", r.join(","));
        }
        std::fs::write(self.dir.join(&f), out).unwrap();
        let mut v = json!({"type": "Polars", "meta": {"name": name}, "url": f, "time_col": "time"});
        self.checksum(&mut v);
        self.series.push(v);
        name
    }
    /// A number as a constant: written out, or from a table.
    fn constant(&mut self, v: f64) -> Value {
        if self.s.chance(1, 4) {
            let k = format!("row {}", self.numbers.len());
            self.numbers.push((k.clone(), format!("{v:?}")));
            json!({"type": "Table", "table": "numbers", "row": k})
        } else {
            lit(v)
        }
    }
    fn whole(&mut self, v: u64) -> Value {
        if self.s.chance(1, 4) {
            let k = format!("row {}", self.numbers.len());
            self.numbers.push((k.clone(), format!("{v}")));
            json!({"type": "Table", "table": "numbers", "row": k})
        } else {
            json!({"type": "Literal", "value": v})
        }
    }
    fn vector(&mut self, v: &[f64]) -> Value {
        if self.s.chance(1, 4) {
            let f = self.file("csv");
            let name = format!("table {}", self.files);
            let r: Vec<String> = v.iter().map(|x| format!("{x:?}")).collect();
            let head: Vec<String> = (0..v.len()).map(|i| format!("c{i}")).collect();
            let (text, lookup) = if self.s.bool() {
                (format!("key,{}\nother,{}\nme,{}\n", head.join(","), vec!["7.0"; v.len()].join(","), r.join(",")), json!({"type": "Row", "cols": 1}))
            } else {
                let lines: Vec<String> = r.iter().map(|x| format!("7.0,{x}")).collect();
                (format!("other,me\n{}\n", lines.join("\n")), json!({"type": "Col", "rows": 1}))
            };
            let col = lookup["type"] == "Col";
            std::fs::write(self.dir.join(&f), text).unwrap();
            self.tables.push(json!({"meta": {"name": name}, "type": "Array", "format": "CSV", "lookup": lookup, "url": f}));
            let mut r = json!({"type": "Table", "table": name});
            r[if col { "column" } else { "row" }] = json!("me");
            r
        } else {
            json!({"type": "Literal", "values": v})
        }
    }
    fn parameter(&mut self, i: usize, r: Ret, key: Option<&str>) -> Value {
        match self.place[i].clone() {
            Place::Series(n, c) => {
                let mut v = json!({"type": "Timeseries", "name": n});
                v["columns"] = match c {
                    Some(c) => json!({"type": "Column", "name": c}),
                    None => match &self.net.ps[i].k {
                        K::Array2(_, g, _) | K::UArray2(_, g, _) => json!({"type": "Scenario", "name": format!("g{g}")}),
                        _ => unreachable!(),
                    },
                };
                v
            }
            place => {
                let t = if matches!(place, Place::Local(_)) { "LocalParameter" } else { "Parameter" };
                let mut v = json!({"type": t, "name": self.name[i]});
                if let Some(k) = key {
                    v["key"] = json!(k);
                }
                match r {
                    Ret::Before => {
                        if self.s.chance(1, 3) {
                            v["return_value"] = json!("Before");
                        }
                    }
                    Ret::After => v["return_value"] = json!("After"),
                    Ret::AfterElse => v["return_value"] = json!("AfterOrElseInitial"),
                }
                v
            }
        }
    }
    fn node(&mut self, kind: &str, name: &str, attr: &str, default: bool) -> Value {
        let mut v = json!({"type": kind, "name": name});
        if !default || self.s.bool() {
            v["attribute"] = json!(attr);
        }
        v
    }
    fn m(&mut self, m: &M) -> Value {
        match m {
            M::Lit(v) => self.constant(*v),
            M::P(i, r, key) => self.parameter(*i, *r, *key),
            M::N(n) => match n {
                Nm::Vol1 => self.node("Node", "r1", "Volume", true),
                Nm::Vol2 => self.node("Node", "r2", "Volume", true),
                Nm::PVol1 => self.node("Node", "r1", "ProportionalVolume", false),
                Nm::PVol2 => self.node("Node", "r2", "ProportionalVolume", false),
                Nm::MaxVol1 => self.node("Node", "r1", "MaxVolume", false),
                Nm::OutIn => self.node("Node", "out", "Inflow", true),
                Nm::InOut => self.node("Node", "in", "Outflow", true),
                Nm::EdgeR2Out => json!({"type": "Edge", "edge": {"from_node": "r2", "to_node": "out"}}),
                Nm::AggIn => self.node("VirtualNode", "agg", "Inflow", false),
                Nm::AggOut => self.node("VirtualNode", "agg", "Outflow", true),
                Nm::AggVol => self.node("VirtualNode", "aggs", "Volume", true),
                Nm::AggPVol => self.node("VirtualNode", "aggs", "ProportionalVolume", false),
                Nm::MultiIn | Nm::MultiOut | Nm::MultiEdge | Nm::MaxFlowOut => unreachable!(),
            },
        }
    }
    fn ms(&mut self, v: &[M]) -> Value {
        Value::Array(v.iter().map(|m| self.m(m)).collect())
    }
    fn mu(&mut self, m: &MU) -> Value {
        match m {
            MU::Lit(v) => {
                if self.s.chance(1, 4) {
                    let k = format!("row {}", self.numbers.len());
                    self.numbers.push((k.clone(), format!("{v}")));
                    json!({"type": "Table", "table": "numbers", "row": k})
                } else {
                    json!({"type": "Constant", "value": v})
                }
            }
            MU::P(i, r, k) => self.parameter(*i, *r, *k),
        }
    }
    fn af(&mut self, f: Af, some: bool) -> Value {
        let body = match f {
            Af::Sum => "sum(values)".into(),
            Af::Mean => "sum(values) / len(values)".into(),
            Af::Product => "__import__('math').prod(values)".into(),
            Af::Min => "min(values)".into(),
            Af::Max => "max(values)".into(),
            Af::CountNonZero | Af::CountPos => "sum(v != 0 for v in values)".into(),
            Af::AnyNonZero(t) => format!("float(any(abs(v) > {t:?} for v in values))"),
        };
        if let Some(o) = self.py_agg("aggregate", body, some) {
            return o;
        }
        match f {
            Af::AnyNonZero(t) if t == 1e-6 && self.s.bool() => json!({"type": "AnyNonZero"}),
            Af::AnyNonZero(t) => json!({"type": "AnyNonZero", "tolerance": t}),
            f => json!({"type": format!("{f:?}")}),
        }
    }
    fn au(&mut self, f: Au, some: bool) -> Value {
        let body = match f {
            Au::Sum => "sum(values)",
            Au::Product => "__import__('math').prod(values)",
            Au::Min => "min(values)",
            Au::Max => "max(values)",
            Au::Any => "int(any(values))",
            Au::All => "int(all(values))",
        };
        match self.py_agg("choose", body.to_string(), some) {
            Some(o) => o,
            None => json!({"type": format!("{f:?}")}),
        }
    }
    fn pr(&mut self, p: Pr) -> Value {
        let (a, b) = match p {
            Pr::Lt => ("LT", "<"),
            Pr::Gt => ("GT", ">"),
            Pr::Eq => ("EQ", "=="),
            Pr::Le => ("LE", "<="),
            Pr::Ge => ("GE", ">="),
        };
        json!(if self.s.bool() { a } else { b })
    }
    /// Write an attribute, or leave it out where it has its default value.
    fn or(&mut self, o: &mut Value, key: &str, v: f64, default: f64) {
        if v != default || self.s.bool() {
            o[key] = json!(v);
        }
    }
    fn interp(&mut self, o: &mut Value, i: Interp) {
        match i {
            Interp::No => {}
            Interp::First => o["interp_day"] = json!("First"),
            Interp::Last => o["interp_day"] = json!("Last"),
        }
    }
    fn hdf(&mut self, rows: usize, cols: usize, at: impl Fn(usize, usize) -> f64) -> (String, String, String) {
        let f = self.file("h5");
        let file = hdf5_metno::File::create(self.dir.join(&f)).unwrap();
        let (group, node) = ("the/group", "data set");
        let g = file.create_group(group).unwrap();
        let a = ndarray::Array2::from_shape_fn((rows, cols), |(t, c)| at(t, c));
        g.new_dataset_builder().with_data(&a).create(node).unwrap();
        (f, format!("/{group}"), node.to_string())
    }
    /// A Python object in a file.
    fn python(&mut self, i: usize, y: &Py) -> Value {
        let (path, place) = self.py_file();
        let obj = format!("Object{i}");
        let mut o = json!({
            "type": "Python",
            "source": {"type": "Path", "path": path},
            "object": if y.class { json!({"type": "Class", "class": obj}) } else { json!({"type": "Function", "function": obj}) },
        });
        let ty = self.net.ps[i].ty;
        match ty {
            Ty::F => {
                if self.s.bool() {
                    o["return_type"] = json!("Float");
                }
            }
            Ty::U => o["return_type"] = json!("Int"),
            Ty::Multi(_) => o["return_type"] = json!("Dict"),
        }
        if !y.args.is_empty() || self.s.bool() {
            o["args"] = json!(y.args);
        }
        let kw: serde_json::Map<String, Value> = y.kwargs.iter().cloned().collect();
        if !kw.is_empty() || self.s.bool() {
            o["kwargs"] = json!(kw);
        }
        let ms: serde_json::Map<String, Value> = y.ms.iter().enumerate().map(|(k, m)| (format!("m {k}"), self.m(&m.0))).collect();
        if !ms.is_empty() || self.s.bool() {
            o["metrics"] = json!(ms);
        }
        let us: serde_json::Map<String, Value> = y.us.iter().enumerate().map(|(k, m)| (format!("m {k}"), self.mu(&m.0))).collect();
        if !us.is_empty() || self.s.bool() {
            o["indices"] = json!(us);
        }
        // The code
        let num = if ty == Ty::U { |v: f64| format!("{}", v as i64) } else { |v: f64| format!("{v:?}") };
        let parts = [
            "1",
            "info.timestep.index",
            "info.timestep.day",
            "info.timestep.month",
            "info.timestep.date.hour",
            "info.timestep.days",
            "info.scenario_index.simulation_id",
            "info.scenario_index.simulation_indices[1]",
            "info.timestep.is_first",
            "info.timestep.year",
            "info.timestep.day_of_year",
            "info.timestep.day_of_year_index",
            "info.timestep.fractional_day_of_year",
            "info.timestep.is_leap_year",
            "info.timestep.date.year",
        ];
        let mut sum: Vec<String> = y.w.iter().zip(parts).filter(|(w, _)| **w != 0.0).map(|(w, p)| format!("{} * {p}", num(*w))).collect();
        sum.extend(y.ms.iter().enumerate().map(|(k, m)| format!("{:?} * info.get_metric('m {k}')", m.1)));
        sum.extend(y.us.iter().enumerate().map(|(k, m)| format!("{} * info.get_index('m {k}')", m.1)));
        sum.push(if ty == Ty::U { "0" } else { "0.0" }.to_string());
        let wrap = match ty {
            Ty::F => "WRAP",
            Ty::U => "WRAP",
            Ty::Multi(_) => "{'one': float(WRAP), 'the two': -2.0 * (WRAP) + 1.0, 'n': INDEX}",
        };
        let args = format!("PLACE == {place} and same(list(args), {}) and same(kwargs, {})", py_list(&y.args), py_value(&Value::Object(kw)));
        let mut code = String::new();
        let raise = y.raise.map(|t| format!("if info.timestep.index == {t}:\n@raise ValueError('no')\n")).unwrap_or_default();
        let mut index = vec!["3 * info.timestep.index + info.scenario_index.simulation_id".to_string()];
        index.extend(y.us.iter().enumerate().map(|(k, m)| format!("{} * info.get_index('m {k}')", m.1)));
        let body = |bump: &str| -> String {
            let index = format!("{}{}", index.join(" + "), if bump.ends_with("+ 100") { " + 50" } else { "" });
            let total = format!("{}{bump}", sum.join(" + "));
            format!(
                "{raise}try:\n@info.get_metric('nothing')\nexcept KeyError:\n@pass\nelse:\n@raise RuntimeError('no such metric')\nTOTAL = {total}\nreturn {}\n",
                wrap.replace("WRAP", "TOTAL").replace("INDEX", &index)
            )
        };
        let indent = |text: &str, n: usize| -> String { text.lines().map(|l| format!("{}{}\n", "    ".repeat(n), l.replace('@', "    "))).collect() };
        if y.class {
            code += &format!("class {obj}:\n    def __init__(self, *args, **kwargs):\n        assert {args}\n        self.count = 0\n");
            for (name, on, bump) in [("before", y.ph != Ph::After, ""), ("after", y.ph != Ph::Before, " + 100")] {
                if on {
                    let b = body(&format!(" + {} * self.count{bump}", num(y.count)));
                    code += &format!("    def {name}(self, info):\n{}", indent(&b.replace("return ", "self.count += 1\nreturn "), 2));
                }
            }
        } else {
            code += &format!("def {obj}(info, *args, **kwargs):\n    assert {args}\n{}", indent(&body(""), 1));
        }
        *self.python.get_mut(&path).unwrap() += &format!("\n{code}");
        o
    }
    /// A Python file, and what its PLACE is: files of one name in several folders, and several objects in one file.
    fn py_file(&mut self) -> (String, String) {
        let folder = self.s.us(3);
        let file = *self.s.pick(&["calc", "my_parameters"]);
        let path = format!("{}{file}.py", ["", "a/", "a/b/"][folder]);
        let place = format!("'{folder} {file}'");
        self.python.entry(path.clone()).or_insert_with(|| format!("{PRELUDE}\nPLACE = {place}\n"));
        (path, place)
    }
    /// An aggregation function, which Python may compute.
    fn py_agg(&mut self, name: &str, body: String, some: bool) -> Option<Value> {
        if !self.use_python || !some || self.s.bool() {
            return None;
        }
        let (path, place) = self.py_file();
        let obj = format!("{name}_{}", self.files);
        self.files += 1;
        let (args, kwargs) = if self.s.bool() { (vec![json!(2), json!("x")], json!({"k": 1.5})) } else { (vec![], json!({})) };
        let code = format!(
            "\ndef {obj}(values, *args, **kwargs):\n    assert PLACE == {place} and same(list(args), {}) and same(kwargs, {})\n    assert type(values) is list\n    return {body}\n",
            py_list(&args),
            py_value(&kwargs)
        );
        *self.python.get_mut(&path).unwrap() += &code;
        let mut o = json!({"type": "Python", "source": {"type": "Path", "path": path}, "object": obj});
        if !args.is_empty() || self.s.bool() {
            o["args"] = json!(args);
            o["kwargs"] = kwargs;
        }
        Some(o)
    }
    fn checksum(&mut self, v: &mut Value) {
        if self.s.chance(1, 40) {
            let (c, w) = checksum(self.s, &self.dir.join(v["url"].as_str().unwrap()));
            v["checksum"] = c;
            self.checksum = true;
            self.wrong |= w;
        }
    }
    /// The document's parameter.
    fn write(&mut self, i: usize) -> Value {
        let net = self.net;
        let p = &net.ps[i];
        let ph = |p: &Ph| json!(format!("{p:?}"));
        let mut o = match &p.k {
            K::Const(v) => {
                let c = self.constant(*v);
                json!({"type": "Constant", "value": c})
            }
            K::ConstScen(v, g) => {
                let c = self.vector(v);
                json!({"type": "ConstantScenario", "values": c, "scenario_group": format!("g{g}")})
            }
            K::Array1(v, o) => {
                let extra = self.s.us(2);
                let (f, wh, node) = self.hdf(v.len(), 1 + extra, |t, c| if c == 0 { v[t] } else { -77.0 });
                let mut r = json!({"type": "TablesArray", "node": node, "where": wh, "url": f});
                if let Some(o) = o {
                    r["timestep_offset"] = json!(o);
                }
                self.checksum(&mut r);
                r
            }
            K::Array2(v, g, o) => {
                let (f, wh, node) = self.hdf(v.len(), v[0].len(), |t, c| v[t][c]);
                let mut r = json!({"type": "TablesArray", "node": node, "where": wh, "url": f, "scenario": format!("g{g}")});
                if let Some(o) = o {
                    r["timestep_offset"] = json!(o);
                }
                self.checksum(&mut r);
                r
            }
            K::Neg(x) => json!({"type": "Negative", "parameter": self.m(x)}),
            K::Max(x, t) => {
                let mut o = json!({"type": "Max", "parameter": self.m(x)});
                self.or(&mut o, "threshold", *t, 0.0);
                o
            }
            K::Min(x, t) => {
                let mut o = json!({"type": "Min", "parameter": self.m(x)});
                self.or(&mut o, "threshold", *t, 0.0);
                o
            }
            K::NegMax(x, t) => {
                let mut o = json!({"type": "NegativeMax", "metric": self.m(x)});
                self.or(&mut o, "threshold", *t, 0.0);
                o
            }
            K::NegMin(x, t) => {
                let mut o = json!({"type": "NegativeMin", "metric": self.m(x)});
                self.or(&mut o, "threshold", *t, 0.0);
                o
            }
            K::Offset(x, v) => {
                let c = self.constant(*v);
                json!({"type": "Offset", "metric": self.m(x), "offset": c})
            }
            K::Poly(x, c, sc, of) => {
                let mut o = json!({"type": "Polynomial1D", "metric": self.m(x), "coefficients": c});
                if let Some(v) = sc {
                    o["scale"] = json!(v);
                }
                if let Some(v) = of {
                    o["offset"] = json!(v);
                }
                o
            }
            K::Div(p, a, b) => json!({"type": "Division", "phase": ph(p), "numerator": self.m(a), "denominator": self.m(b)}),
            K::Agg(p, f, ms) => json!({"type": "Aggregated", "phase": ph(p), "agg_func": self.af(*f, true), "metrics": self.ms(ms)}),
            K::UAgg(p, f, ms) => {
                let v: Vec<Value> = ms.iter().map(|m| self.mu(m)).collect();
                json!({"type": "AggregatedIndex", "phase": ph(p), "agg_func": self.au(*f, true), "metrics": v})
            }
            K::Indexed(ix, ms) => {
                if let MU::P(j, ..) = ix
                    && self.place[*j] == Place::Fused
                {
                    let mut o = self.write(*j);
                    o["returned_metrics"] = self.ms(ms);
                    o
                } else {
                    json!({"type": "IndexedArray", "index_parameter": self.mu(ix), "metrics": self.ms(ms)})
                }
            }
            K::Interp(x, pts, e) => {
                let xp: Vec<Value> = pts.iter().map(|p| self.constant(p.0)).collect();
                let fp: Vec<Value> = pts.iter().map(|p| self.m(&p.1)).collect();
                let mut o = json!({"type": "Interpolated", "x": self.m(x), "xp": xp, "fp": fp});
                if !*e || self.s.bool() {
                    o["error_on_bounds"] = json!(e);
                }
                o
            }
            K::Discount(x, y) => json!({"type": "DiscountFactor", "discount_rate": self.m(x), "base_year": y}),
            K::Delay(x, d, v) => json!({"type": "Delay", "metric": self.m(x), "delay": d, "initial_value": v}),
            K::UDelay(x, d, v) => json!({"type": "DelayIndex", "metric": self.mu(x), "delay": d, "initial_value": v}),
            K::Rolling(x, w, v, mv, f) => {
                let mut o = json!({"type": "Rolling", "metric": self.m(x), "window_size": w, "initial_value": v, "agg_func": self.af(*f, *mv > 0)});
                if mv != w || self.s.bool() {
                    o["min_values"] = json!(mv);
                }
                o
            }
            K::URolling(x, w, v, mv, f) => {
                let mut o = json!({"type": "RollingIndex", "metric": self.mu(x), "window_size": w, "initial_value": v, "agg_func": self.au(*f, *mv > 0)});
                if mv != w || self.s.bool() {
                    o["min_values"] = json!(mv);
                }
                o
            }
            K::CcInterp(x, cc, vs) => {
                json!({"type": "ControlCurveInterpolated", "storage_metric": self.m(x), "control_curves": self.ms(cc), "values": self.ms(vs)})
            }
            K::Cc(x, cc, vs) => json!({"type": "ControlCurve", "storage_metric": self.m(x), "control_curves": self.ms(cc), "values": self.ms(vs)}),
            K::CcIndex(x, cc) => json!({"type": "ControlCurveIndex", "storage_metric": self.m(x), "control_curves": self.ms(cc)}),
            K::CcPiece(x, cc, vs, max, min) => {
                let mut o = json!({"type": "ControlCurvePiecewiseInterpolated", "storage_metric": self.m(x), "control_curves": self.ms(cc), "values": vs});
                self.or(&mut o, "maximum", *max, 1.0);
                self.or(&mut o, "minimum", *min, 0.0);
                o
            }
            K::Hydro(h) => {
                let mut o = json!({"type": "HydropowerTarget"});
                for (k, v) in [
                    ("actual_flow", &h.actual_flow),
                    ("target", &h.target),
                    ("water_elevation", &h.water_elevation),
                    ("max_flow", &h.max_flow),
                    ("min_flow", &h.min_flow),
                ] {
                    if let Some(m) = v {
                        o[k] = self.m(m);
                    }
                }
                for (k, v) in [
                    ("turbine_elevation", h.elevation),
                    ("min_head", h.min_head),
                    ("efficiency", h.efficiency),
                    ("water_density", h.density),
                    ("flow_unit_conversion", h.flow_conv),
                    ("energy_unit_conversion", h.energy_conv),
                ] {
                    if let Some(v) = v {
                        o[k] = json!(v);
                    }
                }
                o
            }
            K::Daily(v) => json!({"type": "DailyProfile", "values": self.vector(v)}),
            K::Diurnal(v) => json!({"type": "DiurnalProfile", "values": self.vector(v)}),
            K::Monthly(v, ip) => {
                let mut o = json!({"type": "MonthlyProfile", "values": self.vector(v)});
                self.interp(&mut o, *ip);
                o
            }
            K::Weekly(v, ip) => {
                let mut o = json!({"type": "WeeklyProfile", "values": self.vector(v)});
                self.interp(&mut o, *ip);
                o
            }
            K::Drawdown(d, mo, r) => {
                let mut o = json!({"type": "UniformDrawdownProfile"});
                if *d != 1 || self.s.bool() {
                    o["reset_day"] = self.whole(*d as u64);
                }
                if *mo != 1 || self.s.bool() {
                    o["reset_month"] = self.whole(*mo as u64);
                }
                if let Some(r) = r {
                    o["residual_days"] = self.whole(*r as u64);
                }
                o
            }
            K::Rbf(pts, f) => {
                let f = match f {
                    Rb::Linear => json!({"type": "Linear"}),
                    Rb::Cubic => json!({"type": "Cubic"}),
                    Rb::Quintic => json!({"type": "Quintic"}),
                    Rb::Thin => json!({"type": "ThinPlateSpline"}),
                    Rb::Gauss(e) => json!({"type": "Gaussian", "epsilon": e}),
                    Rb::Mq(e) => json!({"type": "MultiQuadric", "epsilon": e}),
                    Rb::Imq(e) => json!({"type": "InverseMultiQuadric", "epsilon": e}),
                };
                json!({"type": "RbfProfile", "points": pts, "function": f})
            }
            K::Asym(a, b) => json!({"type": "AsymmetricSwitchIndex", "on_index_parameter": self.mu(a), "off_index_parameter": self.mu(b)}),
            K::Thresh(x, th, p, r) => {
                let mut o = json!({"type": "Threshold", "metric": self.m(x), "threshold": self.m(th), "predicate": self.pr(*p)});
                if *r || self.s.bool() {
                    o["ratchet"] = json!(r);
                }
                o
            }
            K::MultiThresh(x, ths, p, r) => {
                let mut o = json!({"type": "MultiThreshold", "metric": self.m(x), "thresholds": self.ms(ths), "predicate": self.pr(*p)});
                if *r || self.s.bool() {
                    o["ratchet"] = json!(r);
                }
                o
            }
            K::Py(y) => self.python(i, y),
            K::Vector(_) | K::Diff(..) | K::Deficit(..) | K::VolBetween(..) | K::UArray1(..) | K::UArray2(..) | K::Apportion(..) | K::Muskingum(..) => unreachable!(),
        };
        o["meta"] = json!({"name": self.name[i]});
        o
    }
}

/// Documents whose parameters are predicted.
fn values(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    document_values(s, info, false, false)
}

/// As above, with Python objects.
fn python(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    document_values(s, info, true, false)
}

/// The files of a model are moved, and the paths in the document are changed through the visitor.
pub fn moved(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let python = s.bool();
    document_values(s, info, python, true)
}

/// Move everything in the folder one level down, and change the paths accordingly
fn move_files(doc: &Value, dir: &std::path::Path) -> Result<Value, String> {
    let to = dir.join("elsewhere");
    let files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    std::fs::create_dir(&to).unwrap();
    for f in files {
        std::fs::rename(&f, to.join(f.file_name().unwrap())).unwrap();
    }
    let mut m = crate::schema::read(doc)?;
    pywr_schema::VisitPaths::visit_paths_mut(&mut m, &mut |p: &mut std::path::PathBuf| {
        if p.is_relative() {
            *p = std::path::Path::new("elsewhere").join(&*p);
        }
    });
    Ok(serde_json::to_value(&m).unwrap())
}

fn document_values(s: &mut Src, info: &mut Info, python: bool, moved: bool) -> Result<(), Fail> {
    document_values_of(s, info, python, moved, false)
}

/// With an output of everything.
pub fn with_all(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let python = s.chance(1, 4);
    document_values_of(s, info, python, false, true)
}

fn document_values_of(s: &mut Src, info: &mut Info, python: bool, moved: bool, all: bool) -> Result<(), Fail> {
    let (main, tmax): (&[Tag], usize) = match if python { 8 } else { s.us(8) } {
        8 => (&[Tag::Py, Tag::Py, Tag::Py, Tag::Agg, Tag::UAgg, Tag::Rolling, Tag::URolling], 6),
        0..=3 => (FUNCS, 6),
        4 => (STATEFUL, 9),
        5..=6 => (CURVES, 6),
        _ => (CALENDAR, 5),
    };
    let extra: Vec<Tag> = BASE.iter().chain(&[Tag::Monthly, Tag::Thresh, Tag::MultiThresh, Tag::Const, Tag::Offset, Tag::Delay, Tag::CcIndex]).copied().collect();
    let mut net = gen_pnet(s, &doc_kinds(main), &extra, tmax);
    expressible(&mut net);
    // Choices made by a threshold
    let known = uses(&net);
    for i in 0..net.ps.len() {
        let count = match &net.ps[i].k {
            K::Thresh(..) => 2,
            K::MultiThresh(_, ths, ..) => ths.len() + 1,
            _ => continue,
        };
        if !known.iter().any(|u| u.contains(&i)) && s.chance(2, 3) {
            let ms = (0..count)
                .map(|_| {
                    let j = s.us(net.ps.len());
                    if net.ps[j].ty == Ty::F && net.ps[j].before && s.bool() {
                        M::P(j, Ret::Before, None)
                    } else {
                        M::Lit(s.num(-9.0, 9.0, 0.25))
                    }
                })
                .collect();
            let name = format!("chosen-{i}");
            net.order.push(net.ps.len());
            net.ps.push(P { name, k: K::Indexed(MU::P(i, Ret::Before, None), ms), ty: Ty::F, cl: Cl::General, before: true, after: false });
        }
    }
    let n = net.ps.len();
    let uses = uses(&net);
    let mut users: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, u) in uses.iter().enumerate() {
        for j in u {
            users[*j].push(i);
        }
    }
    let scratch = scratch_dir("pdoc");
    let dir = scratch.to_path_buf();
    let mut w = Writer {
        s,
        net: &net,
        dir: &dir,
        place: vec![Place::Global; n],
        name: net.ps.iter().map(|p| p.name.clone()).collect(),
        series: vec![],
        tables: vec![],
        numbers: vec![],
        files: 0,
        python: BTreeMap::new(),
        use_python: python,
        checksum: false,
        wrong: false,
    };
    // Timeseries
    let mut shared: Vec<(usize, String, Vec<String>)> = Vec::new();
    for i in 0..n {
        match &net.ps[i].k {
            K::Array1(v, None) if v.len() >= net.t && w.s.bool() => {
                shared.push((i, format!("column {i}"), v.iter().take(net.t).map(|x| format!("{x:?}")).collect()));
            }
            K::UArray1(v, None) => shared.push((i, format!("column {i}"), v.iter().take(net.t).map(|x| x.to_string()).collect())),
            K::Array2(v, _, None) if v.len() >= net.t && w.s.bool() => {
                let cols: Vec<String> = (0..v[0].len()).map(|c| format!("s{c}")).collect();
                let rows: Vec<Vec<String>> = v.iter().take(net.t).map(|r| r.iter().map(|x| format!("{x:?}")).collect()).collect();
                let name = w.add_series(&cols, &rows);
                w.place[i] = Place::Series(name, None);
            }
            K::UArray2(v, _, None) => {
                let cols: Vec<String> = (0..v[0].len()).map(|c| format!("s{c}")).collect();
                let rows: Vec<Vec<String>> = v.iter().take(net.t).map(|r| r.iter().map(|x| x.to_string()).collect()).collect();
                let name = w.add_series(&cols, &rows);
                w.place[i] = Place::Series(name, None);
            }
            _ => {}
        }
    }
    if !shared.is_empty() {
        let cols: Vec<String> = shared.iter().map(|x| x.1.clone()).collect();
        let rows: Vec<Vec<String>> = (0..net.t).map(|t| shared.iter().map(|x| x.2[t].clone()).collect()).collect();
        let name = w.add_series(&cols, &rows);
        for (i, c, _) in &shared {
            w.place[*i] = Place::Series(name.clone(), Some(c.clone()));
        }
    }
    // A threshold and the values it chooses from, as one parameter
    for i in 0..n {
        if let K::Indexed(MU::P(j, Ret::Before, _), ms) = &net.ps[i].k
            && users[*j].len() == 1
            && (matches!(&net.ps[*j].k, K::Thresh(..)) && ms.len() == 2 || matches!(net.ps[*j].k, K::MultiThresh(..)))
            && w.s.chance(3, 4)
        {
            w.place[*j] = Place::Fused;
            info.label("returned-metrics");
        }
    }
    // Local parameters: everything that uses one belongs to the same node
    for i in (0..n).rev() {
        if w.place[i] != Place::Global {
            continue;
        }
        let host = match users[i].first() {
            None => {
                if w.s.chance(2, 3) {
                    continue;
                }
                HOSTS[w.s.us(HOSTS.len())]
            }
            Some(u) => {
                let mut p = *u;
                while w.place[p] == Place::Fused {
                    p = users[p][0];
                }
                match w.place[p] {
                    Place::Local(h) => h,
                    _ => continue,
                }
            }
        };
        let all = users[i].iter().all(|u| {
            let mut p = *u;
            while w.place[p] == Place::Fused {
                p = users[p][0];
            }
            w.place[p] == Place::Local(host)
        });
        if all && w.s.chance(4, 5) {
            w.place[i] = Place::Local(host);
            info.label(if users[i].is_empty() { "local" } else { "local-used-by-local" });
        }
    }
    // A local parameter may share its name with parameters elsewhere
    for i in 0..n {
        if matches!(w.place[i], Place::Local(_)) && w.s.bool() {
            let name = w.name[w.s.us(n)].clone();
            if !(0..n).any(|j| w.place[j] == w.place[i] && w.name[j] == name) {
                w.name[i] = name;
            }
        }
    }
    let mut params = Vec::new();
    let mut hosted: Vec<Vec<Value>> = vec![vec![]; HOSTS.len()];
    for i in net.order.iter().copied() {
        match w.place[i] {
            Place::Global => {
                let v = w.write(i);
                params.push(v);
            }
            Place::Local(h) => {
                let v = w.write(i);
                hosted[HOSTS.iter().position(|x| *x == h).unwrap()].push(v);
            }
            _ => {}
        }
    }
    for (path, text) in &w.python {
        let p = dir.join(path);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
        info.label("python");
    }
    for p in &net.ps {
        let mut k = p.k.clone();
        each_mu(&mut k, &mut |m| {
            if let MU::P(_, r, Some(_)) = m {
                info.label(if *r == Ret::Before { "index-of-dictionary" } else { "index-of-dictionary-after" });
            }
        });
    }
    // The water system
    let rows = |v: &Vec<Vec<f64>>| -> Vec<Vec<String>> { v.iter().take(net.t).map(|r| r.iter().map(|x| format!("{x:?}")).collect()).collect() };
    let cols: Vec<String> = (0..net.sizes[0]).map(|c| format!("s{c}")).collect();
    let (win, wout) = (w.add_series(&cols, &rows(&net.inflow)), w.add_series(&cols, &rows(&net.demand)));
    let ts = |n: &str| json!({"type": "Timeseries", "name": n, "columns": {"type": "Scenario", "name": "g0"}});
    let storage = |k: usize| {
        json!({"meta": {"name": (["r1", "r2"][k])}, "type": "Storage", "max_volume": lit(net.vmax[k]), "cost": lit([-1.0, -0.5][k]),
            "initial_volume": {"type": "Absolute", "volume": net.vinit[k]}})
    };
    let mut nodes = [
        json!({"meta": {"name": "in"}, "type": "Input", "max_flow": ts(&win), "cost": lit(-5.0)}),
        json!({"meta": {"name": "lk"}, "type": "Link", "max_flow": lit(6.0)}),
        json!({"meta": {"name": "out"}, "type": "Output", "max_flow": ts(&wout), "cost": lit(-20.0)}),
        storage(0),
        storage(1),
        json!({"meta": {"name": "spill"}, "type": "Output", "cost": lit(1.0)}),
        json!({"meta": {"name": "agg"}, "type": "Aggregated", "nodes": [{"name": "in"}, {"name": "out"}, {"name": "lk"}]}),
    ];
    for (k, h) in hosted.into_iter().enumerate() {
        if !h.is_empty() {
            nodes[k]["parameters"] = json!(h);
        }
    }
    let edges = [["in", "r1"], ["r1", "lk"], ["lk", "r2"], ["r2", "out"], ["r1", "spill"]].map(|e| json!({"from_node": e[0], "to_node": e[1]}));
    let mut net_doc = json!({
        "nodes": nodes[..6],
        "virtual_nodes": [nodes[6], {"meta": {"name": "aggs"}, "type": "AggregatedStorage", "storage_nodes": [{"name": "r1"}, {"name": "r2"}]}],
        "edges": edges,
        "timeseries": w.series,
    });
    if !params.is_empty() {
        net_doc["parameters"] = json!(params);
    }
    if !w.numbers.is_empty() {
        let mut t = "key,value\n".to_string();
        for (k, v) in &w.numbers {
            t += &format!("{k},{v}\n");
        }
        std::fs::write(dir.join("numbers.csv"), t).unwrap();
        w.tables.push(json!({"meta": {"name": "numbers"}, "type": "Scalar", "format": "CSV", "lookup": {"type": "Row", "cols": 1}, "url": "numbers.csv"}));
    }
    if !w.tables.is_empty() {
        net_doc["tables"] = json!(w.tables);
    }
    let groups = json!({"groups": [{"name": "g0", "size": net.sizes[0]}, {"name": "g1", "size": net.sizes[1]}]});
    let mut doc = document(time_section(net.start, net.step_hours, net.t), Some(groups), net_doc);
    if moved {
        doc = move_files(&doc, &dir).map_err(|e| Fail { sig: "unread".into(), msg: format!("{e}: {doc}") })?;
    }
    let late_only = (0..n).any(|i| net.ps[i].after && !net.ps[i].before && matches!(net.ps[i].k, K::Py(..)));
    if all {
        // What a Python class has is not known to the filter.
        if late_only || w.wrong {
            return Ok(());
        }
        outdoc::add_all(w.s, &mut doc, &dir);
    }
    // What is observed
    let mut metrics: Vec<UnresolvedMetricF64> = NMS.iter().map(|n| nm_metric(*n)).collect();
    let mut cols = Vec::new();
    for i in 0..n {
        let parent = match w.place[i] {
            Place::Global => None,
            Place::Local(h) => Some(h),
            _ => continue,
        };
        let name = ParameterName::new(&w.name[i], parent);
        let keys: Vec<Option<&'static str>> = match net.ps[i].ty {
            Ty::Multi(k) => k.iter().map(|k| Some(*k)).collect(),
            _ => vec![None],
        };
        for k in keys {
            for (on, after) in [(net.ps[i].before, false), (net.ps[i].after, true)] {
                if on {
                    let return_value = if after { ParameterReturnValue::After } else { ParameterReturnValue::Before };
                    metrics.push(match k {
                        Some(k) => UnresolvedMetricF64::MultiParameterValue { name: name.clone(), key: k.to_string(), return_value },
                        None => UnresolvedMetricF64::ParameterValue { name: name.clone(), return_value },
                    });
                    cols.push((i, after, k));
                }
            }
        }
    }
    let r = guarded(|| -> Result<Seen, String> {
        let (model, data) = probed(&doc, Some(&dir), metrics, vec![])?;
        let r = run_model(&model, Sol::Highs);
        Ok(Seen { rows: data.table(), err: r.err() })
    });
    let shown = |m: String| format!("{m}\n{}\n{doc}", net.show());
    if w.checksum {
        info.label(if w.wrong { "wrong-checksum" } else { "checksum" });
    }
    if w.wrong {
        return match r {
            Err(p) => fail("panic", shown(format!("panic: {p}"))),
            Ok(Err(e)) if e.to_lowercase().contains("checksum") => {
                info.nontrivial = true;
                Ok(())
            }
            Ok(Err(e)) => fail("refused", shown(format!("a wrong checksum should be what is refused: {e}"))),
            Ok(Ok(_)) => fail("checksum", shown("a wrong checksum was accepted".to_string())),
        };
    }
    let seen = match r {
        Err(p) => return fail("panic", shown(format!("panic: {p}"))),
        Ok(Err(e)) => return fail("refused", shown(format!("a valid document was refused: {e}"))),
        Ok(Ok(x)) => x,
    };
    if all {
        let base = NMS.len();
        let mut known: std::collections::HashMap<(String, String), usize> = Default::default();
        for (c, (i, after, key)) in cols.iter().enumerate() {
            if matches!(w.place[*i], Place::Global) && key.is_none() {
                known.insert((w.name[*i].clone(), if *after { "after" } else { "before" }.to_string()), base + c);
            }
        }
        let ok = seen.err.is_none();
        let r = outdoc::check_all(&doc, &dir, net.t, net.scen(), ok, info, &|t, sim, ty, name, attr| {
            (ty == "Parameter").then(|| known.get(&(name.to_string(), attr.to_string())).and_then(|c| seen.rows.get(t).map(|r| r[sim][*c])))?
        });
        info.desc(doc.to_string());
        return r.map_err(|f| Fail { sig: f.sig, msg: format!("{}\n{doc}", f.msg) });
    }
    let r = compare_pnet(&net, &seen, &cols, info);
    info.desc(doc.to_string());
    r.map_err(|f| Fail { sig: f.sig, msg: format!("{}\n{doc}", f.msg) })
}

/// One Python object and what reads it, with one thing that is wrong at one timestep of one scenario, or with the
/// object as such, or with the reference to it: until then every value is right, and then there is an error.
fn faults(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let scratch = scratch_dir("pyfault");
    let (steps, scenarios) = (s.size(2, 6), s.size(1, 4));
    let (at, sim) = (s.us(steps), s.us(scenarios));
    let kind = *s.pick(&["Float", "Int", "Dict"]);
    let class = s.bool();
    let phase = if class { *s.pick(&["Before", "After", "Both"]) } else { "Before" };
    // What is read of it
    let index = kind == "Int" || kind == "Dict" && s.bool();
    let key = (kind == "Dict").then(|| if index { "n" } else { "one" });
    let after = phase == "After" || phase == "Both" && s.bool();
    let (fl, whole) = ("2.0 * info.timestep.index + 0.5 * info.scenario_index.simulation_id + 1.0", "info.timestep.index + 2 * info.scenario_index.simulation_id");
    let dict = |one: &str, n: &str| format!("{{'one': {one}, 'two': -1.0, 'n': {n}, 'm': 3}}");
    let mut result = match kind {
        // A whole number is a number
        "Float" if s.chance(1, 5) => format!("int({fl})"),
        "Float" => fl.to_string(),
        "Int" => whole.to_string(),
        _ => dict(fl, whole),
    };
    let rounded = result.starts_with("int(");
    // Faults
    let mut bad: Option<String> = None;
    let mut what = "none";
    let mut broken = None;
    let (mut name, mut read_key, mut read_after) = ("P", key, after);
    match s.us(8) {
        0 => {}
        1..=4 => {
            what = "result";
            let any = ["'text'", "None", "[1.0]", "(1.0, 2.0)", "object()", "info", "1 / 0", "undefined", "info.get_metric('x')", "info.get_index('x')", "info.no_such", "raises()"];
            let own: Vec<String> = match kind {
                "Float" => vec!["{'one': 1.0}".into(), "2 ** 2000".into(), "'1.0'".into(), "1j".into()],
                "Int" => ["1.5", "1.0", "-1", "'2'", "2 ** 64", "{'n': 1}"].map(String::from).to_vec(),
                _ => {
                    let mut v: Vec<String> = vec!["1.0".into(), "7".into(), dict("'x'", "1"), dict("None", "1"), dict("1.0", "-1"), dict("1.0", "2 ** 64"), dict("1.0", "'1'"), "[('one', 1.0), ('n', 1)]".into(), "{}".into()];
                    v.push(if index { dict("1.0", "1.0") } else { dict("1", "1") });
                    v.push(if index { "{'one': 1.0, 'N': 2}".into() } else { "{'One': 1.0, 'n': 2}".into() });
                    v
                }
            };
            bad = Some(if s.bool() { s.pick(&own).clone() } else { s.pick(&any).to_string() });
        }
        5..=6 => {
            let f = ["missing-object", "not-callable", "missing-file", "syntax", "module-raises", "arguments", "no-methods", "init-raises"];
            let f = f[s.us(if class { 8 } else { 6 })];
            what = f;
            broken = Some(f);
        }
        _ => {
            what = match s.us(4) {
                0 => {
                    name = "Q";
                    "unknown-name"
                }
                1 if key.is_some() => {
                    read_key = if s.bool() { None } else { Some(if index { "one" } else { "n" }) };
                    "wrong-key"
                }
                1 => {
                    read_key = Some("one");
                    "key-of-a-number"
                }
                2 if phase != "Both" => {
                    read_after = !after;
                    "wrong-phase"
                }
                _ => {
                    read_key = Some("nothing");
                    "unknown-key"
                }
            }
        }
    }
    let ok = what == "none";
    let condition = format!("info.timestep.index == {at} and info.scenario_index.simulation_id == {sim}");
    if let Some(b) = &bad {
        result = format!("({b}) if {condition} else ({result})");
    }
    let (args, kwargs) = if broken == Some("arguments") { (json!([1, 2]), json!({"k": 2})) } else { (json!([]), json!({})) };
    let mut code = "def raises():\n    raise RuntimeError('no')\n\n".to_string();
    if broken == Some("module-raises") {
        code += "raises()\n";
    }
    if broken == Some("syntax") {
        code += "def (\n";
    }
    if broken == Some("not-callable") {
        code += "Thing = 3\n";
    } else if broken != Some("missing-object") {
        let tail = if broken == Some("arguments") { *s.pick(&["", ", a", ", a, b", ", a, b, c, k", ", *a"]) } else { "" };
        if class {
            code += &format!("class Thing:\n    def __init__(self{tail}):\n        {}\n", if broken == Some("init-raises") { "raises()" } else { "pass" });
            for m in ["before", "after"] {
                if (phase.to_lowercase() == m || phase == "Both") && broken != Some("no-methods") {
                    code += &format!("    def {m}(self, info):\n        return {result}\n");
                }
            }
        } else {
            code += &format!("def Thing(info{tail}):\n    return {result}\n");
        }
    }
    // Files of one path are one module with one set of globals, as long as the process lives
    static FILES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let file = format!("thing{}.py", FILES.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
    if broken != Some("missing-file") {
        std::fs::write(scratch.join(&file), &code).unwrap();
    }
    let mut p = json!({"meta": {"name": "P"}, "type": "Python", "source": {"type": "Path", "path": file},
        "object": if class { json!({"type": "Class", "class": "Thing"}) } else { json!({"type": "Function", "function": "Thing"}) },
        "return_type": kind, "args": args, "kwargs": kwargs});
    if kind == "Float" && s.bool() {
        p.as_object_mut().unwrap().remove("return_type");
    }
    let mut m = json!({"type": "Parameter", "name": name});
    if let Some(k) = read_key {
        m["key"] = json!(k);
    }
    if read_after || s.bool() {
        m["return_value"] = json!(if read_after { "After" } else { "Before" });
    }
    let ph = if read_after { "After" } else { *s.pick(&["Before", "After"]) };
    let c = if index {
        json!({"meta": {"name": "C"}, "type": "AggregatedIndex", "phase": ph, "agg_func": {"type": "Sum"}, "metrics": [m]})
    } else {
        json!({"meta": {"name": "C"}, "type": "Aggregated", "phase": ph, "agg_func": {"type": "Sum"}, "metrics": [m]})
    };
    let mut params = vec![p, c];
    if s.bool() {
        params.reverse();
    }
    let network = json!({
        "nodes": [{"meta": {"name": "in"}, "type": "Input", "max_flow": lit(9.0), "cost": lit(0.0)}, {"meta": {"name": "out"}, "type": "Output", "max_flow": lit(5.0), "cost": lit(-1.0)}],
        "edges": [{"from_node": "in", "to_node": "out"}],
        "parameters": params,
    });
    let start = crate::sim::gen_date(s);
    let groups = json!({"groups": [{"name": "g", "size": scenarios}]});
    let doc = document(time_section(start.at(0, 0, 0, 0), 24, steps), Some(groups), network);
    let shown = |m: String| format!("{what}: {m}\n{doc}\n{code}");
    let cname: ParameterName = "C".into();
    let return_value = if ph == "After" { ParameterReturnValue::After } else { ParameterReturnValue::Before };
    let out = guarded(|| -> Result<(Vec<Vec<f64>>, Option<String>), String> {
        let (ms, us) = if index {
            (vec![], vec![pywr_core::metric::UnresolvedMetricU64::ParameterValue { name: cname, return_value }])
        } else {
            (vec![UnresolvedMetricF64::ParameterValue { name: cname, return_value }], vec![])
        };
        let (model, data) = probed(&doc, Some(&scratch), ms, us)?;
        let r = run_model(&model, Sol::Highs);
        let rows = if index {
            data.itable().iter().map(|r| r.iter().map(|v| v[0] as f64).collect()).collect()
        } else {
            data.table().iter().map(|r| r.iter().map(|v| v[0]).collect()).collect()
        };
        Ok((rows, r.err()))
    });
    info.desc(format!("{what}\n{doc}\n{code}"));
    let want = |t: usize, j: usize| {
        let v = if index { (t + 2 * j) as f64 } else { 2.0 * t as f64 + 0.5 * j as f64 + 1.0 };
        if rounded && !index { v.trunc() } else { v }
    };
    let (rows, err) = match out {
        Err(p) => return fail("panic", shown(format!("panic: {p}"))),
        Ok(Err(e)) if ok || what == "result" => return fail("refused", shown(format!("a valid document was refused: {e}"))),
        Ok(Err(e)) if e.starts_with("panic") => return fail("panic", shown(e)),
        Ok(Err(_)) => (vec![], Some(String::new())),
        Ok(Ok(r)) => r,
    };
    let done = match &err {
        None if ok => steps,
        None => return fail("accepted", shown("there was no error".into())),
        Some(e) if ok => return fail("failed", shown(format!("a valid document failed: {e}"))),
        Some(_) if what == "result" => at,
        Some(_) => 0,
    };
    if rows.len() != done {
        return fail("steps", shown(format!("{} timesteps were recorded, and not {done}", rows.len())));
    }
    for (t, row) in rows.iter().enumerate() {
        for (j, v) in row.iter().enumerate() {
            if *v != want(t, j) {
                return fail("value", shown(format!("timestep {t} of scenario {j}: {v} and not {}", want(t, j))));
            }
        }
    }
    info.nontrivial = true;
    info.label(what);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "at least four parameter values compared with the prediction, not all of them constants",
        arms: vec![Arm { name: "values", quick: 6000, thorough: 400000, run: values }],
    },
    Prop {
        id: "C23",
        rule: "at least four parameter values compared with the prediction; or an object, or a reference to one, that is right or has one fault",
        arms: vec![
            Arm { name: "values", quick: 3000, thorough: 200000, run: python },
            Arm { name: "faults", quick: 3000, thorough: 100000, run: faults },
        ],
    }]
}
