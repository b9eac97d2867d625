//! Documents: C16 reading and writing, C21 rejected models.

use crate::alloc::{Sol, full, run_model};
use crate::check;
use crate::runner::{Arm, Fail, Info, Prop, fail, guarded, scratch_dir};
use crate::src::Src;
use pywr_schema::ModelSchema;
use pywr_schema::model::MultiNetworkModelSchema;
use serde_json::{Map, Value, json};
use std::path::{Path, PathBuf};
use std::collections::BTreeMap;
use std::sync::{Mutex, OnceLock};

pub fn published() -> &'static Value {
    static S: OnceLock<Value> = OnceLock::new();
    S.get_or_init(|| serde_json::to_value(schemars::schema_for!(ModelSchema)).unwrap())
}

pub fn dump() {
    println!("{}", serde_json::to_string_pretty(published()).unwrap());
}

/// The schema a reference stands for, with what is written next to the reference.
fn resolve(v: &'static Value) -> &'static Value {
    static MERGED: Mutex<BTreeMap<usize, &'static Value>> = Mutex::new(BTreeMap::new());
    let Some(r) = v.get("$ref").and_then(|r| r.as_str()) else { return v };
    let target = resolve(&published()["$defs"][r.rsplit('/').next().unwrap()]);
    let mine: Vec<&str> = v.as_object().unwrap().keys().map(|k| k.as_str()).filter(|k| !matches!(*k, "$ref" | "description" | "default")).collect();
    if mine.is_empty() {
        return target;
    }
    let key = v as *const Value as usize;
    if let Some(m) = MERGED.lock().unwrap().get(&key) {
        return m;
    }
    let mut m = target.clone();
    for k in mine {
        match (k, m.get(k).cloned()) {
            ("properties", Some(Value::Object(mut p))) => {
                p.extend(v[k].as_object().unwrap().clone());
                m[k] = Value::Object(p);
            }
            ("required", Some(Value::Array(mut a))) => {
                a.extend(v[k].as_array().unwrap().iter().cloned());
                m[k] = Value::Array(a);
            }
            _ => m[k] = v[k].clone(),
        }
    }
    let m: &'static Value = Box::leak(Box::new(m));
    MERGED.lock().unwrap().insert(key, m);
    m
}

/// Makes documents that fit the published JSON schema.
pub struct Maker<'a> {
    pub s: &'a mut Src,
    /// Names are drawn from small pools, so that references find something
    pub linked: bool,
    pub budget: i64,
    /// No foreign code or other file formats
    pub plain: bool,
    /// Chance (of 8) that an optional key is present
    pub optional: u64,
    /// Where the document being made is, and what of interest was made where
    pub at: Vec<String>,
    pub marks: Vec<(String, String)>,
}

const ODD: &[&str] = &["", "a", "a b", "é", "\"q\"", "a\\b", "new\nline", "null", "0", "名前", "\u{1}", "x/y", "🜄", "true", "Node", "type"];

impl Maker<'_> {
    fn text(&mut self, key: &str) -> Value {
        if self.linked {
            let x: &[&str] = match key {
                "from_node" | "to_node" => &["n0", "n1", "n2", "n3"],
                "from_slot" | "to_slot" => &["a", "n1"],
                "url" | "path" => &["t.csv", "absent.csv"],
                "filename" => &["o.csv", "o.h5"],
                "metric_set" => &["m0", "m1"],
                "scenario_group" => &["g0", "g1", "absent"],
                "table" => &["t0", "t1"],
                "freq" => &["1d", "1mo", "7d", "P1M", "x", "1h"],
                "row" | "column" => &["a", "b", "c"],
                "time_col" => &["time", "a"],
                _ => &["n0", "n1", "n2", "n3", "p0", "p1", "p2", "v0", "t0", "g0", "a"],
            };
            return json!(self.s.pick(x));
        }
        if self.s.bool() { json!(format!("s{}", self.s.below(5))) } else { json!(self.s.pick(ODD)) }
    }

    fn number(&mut self, schema: &Value) -> Value {
        let f = schema.get("format").and_then(|f| f.as_str()).unwrap_or("double");
        if f == "float" {
            return json!(self.s.num(-10.0, 10.0, 0.25));
        }
        let v = match self.s.below(if self.linked { 3 } else { 5 }) {
            0 => self.s.int(-2, 12) as f64,
            1 => self.s.num(0.0, 30.0, 0.25),
            2 => *self.s.pick(&[0.0, 1.0, -1.0, 0.5, 100.0, 0.1]),
            3 => self.s.real(-1.0, 1.0),
            _ => self.s.real(-1.0, 1.0) * 10f64.powi(self.s.int(-300, 300) as i32),
        };
        // Whole numbers may be written without a point
        if v.fract() == 0.0 && v.abs() < 1e9 && self.s.bool() { json!(v as i64) } else { json!(v) }
    }

    fn integer(&mut self, schema: &Value) -> Value {
        let lo = schema.get("minimum").and_then(|x| x.as_f64()).unwrap_or(-5.0) as i64;
        let hi = schema.get("maximum").and_then(|x| x.as_f64()).map(|x| x as i64).unwrap_or(lo.saturating_add(12));
        if !self.linked && self.s.chance(1, 10) {
            let m: i128 = match schema.get("format").and_then(|f| f.as_str()).unwrap_or("") {
                "uint64" | "uint" => u64::MAX as i128,
                "uint32" => u32::MAX as i128,
                "int32" => i32::MAX as i128,
                "int64" => i64::MAX as i128,
                "int16" => i16::MAX as i128,
                _ => hi as i128,
            };
            let m = schema.get("maximum").and_then(|x| x.as_i64()).map(|x| x as i128).unwrap_or(m);
            return if m > i64::MAX as i128 { json!(m as u64) } else { json!(m as i64) };
        }
        let v = json!(self.s.int(lo, hi.min(lo.saturating_add(12))));
        if excluded(&v, schema) { json!(1) } else { v }
    }

    fn usable(&self, alt: &'static Value) -> bool {
        if !self.plain {
            return true;
        }
        let r = resolve(alt);
        match r.get("properties").and_then(|p| p.get("type")).and_then(|t| t.get("const")).and_then(|t| t.as_str()) {
            Some(t) => !matches!(t, "Python" | "Pandas"),
            None => true,
        }
    }

    fn pointer(&self) -> String {
        self.at.iter().map(|k| format!("/{}", k.replace('~', "~0").replace('/', "~1"))).collect()
    }

    fn child(&mut self, step: String, schema: &'static Value, key: &str, depth: usize) -> Value {
        self.at.push(step);
        let v = self.make(schema, key, depth);
        self.at.pop();
        v
    }

    pub fn make(&mut self, schema: &'static Value, key: &str, depth: usize) -> Value {
        self.budget -= 1;
        let schema0 = schema;
        if let Some(r) = schema.get("$ref").and_then(|r| r.as_str()) {
            self.marks.push((r.rsplit('/').next().unwrap().to_string(), self.pointer()));
        }
        let schema = resolve(schema);
        if let Some(c) = schema.get("const") {
            return c.clone();
        }
        if let Some(e) = schema.get("enum").and_then(|e| e.as_array()) {
            return self.s.pick(e).clone();
        }
        let mut base = Map::new();
        for k in ["oneOf", "anyOf"] {
            if let Some(a) = schema.get(k).and_then(|a| a.as_array()) {
                let alts: Vec<&'static Value> = a.iter().filter(|x| self.usable(x)).collect();
                let nulls: Vec<&&'static Value> = alts.iter().filter(|x| x.get("type").and_then(|t| t.as_str()) == Some("null")).collect();
                let short = depth > 9 || self.budget < 0;
                let c = if short && !nulls.is_empty() { *nulls[0] } else { *self.s.pick(&alts) };
                let v = self.make(c, key, depth);
                // Keys given next to the alternatives
                if schema.get("properties").is_none() {
                    return v;
                }
                if let Value::Object(m) = v {
                    base = m;
                } else {
                    return v;
                }
            }
        }
        let ty = match schema.get("type") {
            Some(Value::String(t)) => t.clone(),
            Some(Value::Array(a)) => {
                let a: Vec<&str> = a.iter().filter_map(|x| x.as_str()).collect();
                self.s.pick(&a).to_string()
            }
            _ if schema.get("properties").is_some() => "object".to_string(),
            _ => {
                // Anything goes
                return match self.s.below(4) {
                    0 => json!(1),
                    1 => json!("x"),
                    2 => json!(true),
                    _ => json!([1, 2]),
                };
            }
        };
        match ty.as_str() {
            "null" => Value::Null,
            "boolean" => json!(self.s.bool()),
            "number" => self.number(schema),
            "integer" => self.integer(schema),
            "string" => match schema.get("format").and_then(|f| f.as_str()) {
                Some("partial-date-time") => {
                    let d = crate::sim::gen_date(self.s);
                    json!(format!("{d}T{:02}:00:00", self.s.below(24)))
                }
                _ => {
                    if matches!(key, "url" | "path" | "filename") {
                        self.marks.push(("path".into(), self.pointer()));
                    }
                    self.text(key)
                }
            },
            "array" => {
                if let Some(p) = schema.get("prefixItems").and_then(|p| p.as_array()) {
                    return Value::Array(p.iter().enumerate().map(|(i, x)| self.child(i.to_string(), x, key, depth + 1)).collect());
                }
                let lo = schema.get("minItems").and_then(|x| x.as_u64()).unwrap_or(0) as usize;
                let hi = schema.get("maxItems").and_then(|x| x.as_u64()).map(|x| x as usize).unwrap_or(lo + 3);
                let n = if depth > 9 || self.budget < 0 { lo } else { self.s.size(lo, hi) };
                match schema.get("items") {
                    Some(i) => Value::Array((0..n).map(|k| self.child(k.to_string(), i, key, depth + 1)).collect()),
                    None => json!([]),
                }
            }
            "object" => {
                let mut m = base;
                let none = vec![];
                let req: Vec<&str> = schema.get("required").and_then(|r| r.as_array()).unwrap_or(&none).iter().filter_map(|x| x.as_str()).collect();
                if let Some(p) = schema.get("properties").and_then(|p| p.as_object()) {
                    for (k, sub) in p {
                        let short = depth > 9 || self.budget < 0;
                        if req.contains(&k.as_str()) || (!short && self.s.chance(self.optional, 8)) {
                            let v = self.child(k.clone(), sub, k, depth + 1);
                            m.insert(k.clone(), v);
                        }
                    }
                }
                match schema.get("additionalProperties") {
                    Some(a @ Value::Object(_)) => {
                        for _ in 0..self.s.size(0, 2) {
                            let k = self.text("name").as_str().unwrap().to_string();
                            if m.contains_key(&k) {
                                continue;
                            }
                            let v = self.child(k.clone(), a, key, depth + 1);
                            m.insert(k, v);
                        }
                    }
                    Some(Value::Bool(true)) if schema0.get("properties").is_none() => {
                        if self.s.bool() {
                            m.insert("x".into(), json!(1));
                        }
                    }
                    _ => {}
                }
                Value::Object(m)
            }
            t => panic!("schema type {t}"),
        }
    }
}

/// A document of one section in depth, and little else.
fn gen_doc(s: &mut Src, linked: bool, plain: bool) -> Value {
    gen_marked(s, linked, plain).0
}

/// The document, and the places of it that were made from a definition of the schema or are a path
pub fn gen_marked(s: &mut Src, linked: bool, plain: bool) -> (Value, Vec<(String, String)>) {
    let root = published();
    let network = resolve(&root["properties"]["network"]);
    let optional = s.size(1, 6) as u64;
    let mut mk = Maker { s, linked, budget: 400, plain, optional, at: vec![], marks: vec![] };
    let mut net = Map::new();
    let props = network["properties"].as_object().unwrap();
    let required: Vec<&str> = network["required"].as_array().map(|a| a.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
    for (k, sub) in props {
        if required.contains(&k.as_str()) || mk.s.chance(1, 2) {
            mk.budget = *mk.s.pick(&[20, 60, 200]);
            mk.at = vec!["network".into()];
            let v = mk.child(k.clone(), sub, k, 1);
            net.insert(k.clone(), v);
        }
    }
    mk.budget = 60;
    mk.at.clear();
    let mut doc = Map::new();
    for (k, sub) in root["properties"].as_object().unwrap() {
        if k == "network" {
            doc.insert(k.clone(), Value::Object(net.clone()));
        } else if k != "scenarios" || mk.s.chance(1, 2) {
            let v = mk.child(k.clone(), sub, k, 1);
            doc.insert(k.clone(), v);
        }
    }
    let marks = mk.marks;
    (Value::Object(doc), marks)
}

/// Is this the one value that the schema rules out?
fn excluded(v: &Value, schema: &Value) -> bool {
    schema.get("not").and_then(|n| n.get("const")).is_some_and(|c| c == v)
}

fn number_eq(a: &Value, b: &Value) -> bool {
    if let (Some(x), Some(y)) = (a.as_i64(), b.as_i64()) {
        return x == y;
    }
    if let (Some(x), Some(y)) = (a.as_u64(), b.as_u64()) {
        return x == y;
    }
    match (a.as_f64(), b.as_f64()) {
        // The last digits of a decimal number may be read differently
        (Some(x), Some(y)) => (x - y).abs() <= 1e-14 * x.abs(),
        _ => false,
    }
}

/// Where something of `x` is not in `y`.
fn lost(x: &Value, y: &Value, at: &str) -> Option<String> {
    match (x, y) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, v) in a {
                match b.get(k) {
                    Some(w) => {
                        if let Some(l) = lost(v, w, &format!("{at}/{k}")) {
                            return Some(l);
                        }
                    }
                    None if v.is_null() || v.as_object().is_some_and(|m| m.is_empty()) || v.as_array().is_some_and(|m| m.is_empty()) => {}
                    None => return Some(format!("{at}/{k} = {v}")),
                }
            }
            // Keys that were not there can only be empty or false
            for (k, w) in b {
                if !a.contains_key(k) && !blank(w) {
                    return Some(format!("{at}/{k} appeared as {w}"));
                }
            }
            None
        }
        (Value::Array(a), Value::Array(b)) => {
            if a.len() != b.len() {
                return Some(format!("{at}: {} items became {}", a.len(), b.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (v, w))| lost(v, w, &format!("{at}/{i}")))
        }
        (Value::Number(_), Value::Number(_)) if number_eq(x, y) => None,
        _ if x == y => None,
        _ => Some(format!("{at}: {x} became {y}")),
    }
}

fn blank(v: &Value) -> bool {
    match v {
        Value::Null | Value::Bool(_) | Value::String(_) | Value::Number(_) => true,
        Value::Array(a) => a.is_empty(),
        Value::Object(m) => m.values().all(blank),
    }
}

fn read_text(t: &str) -> Result<ModelSchema, String> {
    match guarded(|| serde_json::from_str::<ModelSchema>(t).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    }
}

fn written(m: &ModelSchema, pretty: bool) -> Result<String, Fail> {
    let r = guarded(|| if pretty { serde_json::to_string_pretty(m) } else { serde_json::to_string(m) });
    match r {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => fail("write", e.to_string()),
        Err(p) => fail("write-panic", p),
    }
}

fn c16_generated(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let doc = gen_doc(s, false, false);
    let pretty = s.bool();
    let text = if s.bool() { doc.to_string() } else { serde_json::to_string_pretty(&doc).unwrap() };
    info.desc(&doc);
    let m = match read_text(&text) {
        Ok(m) => m,
        Err(e) => return fail("refused", format!("{e}: {doc}")),
    };
    let t1 = written(&m, pretty)?;
    let y: Value = serde_json::from_str(&t1).map_err(|e| Fail { sig: "json".into(), msg: format!("{e}: {t1}") })?;
    if let Some(l) = lost(&doc, &y, "") {
        return fail("lost", format!("{l}: {doc} written as {y}"));
    }
    let m2 = match read_text(&t1) {
        Ok(m) => m,
        Err(e) => return fail("unreadable", format!("{e}: {doc} written as {y}")),
    };
    let y2: Value = serde_json::from_str(&written(&m2, false)?).unwrap();
    let l = lost(&y, &y2, "").or(lost(&y2, &y, ""));
    check!(l.is_none(), "unstable", "{l:?}: {y} became {y2}");
    note_kinds(&doc, info);
    info.nontrivial = text.len() > 600;
    info.count("bytes", text.len() as u64);
    Ok(())
}

fn note_kinds(doc: &Value, info: &mut Info) {
    match doc {
        Value::Object(m) => {
            if let Some(t) = m.get("type").and_then(|t| t.as_str()) {
                if t.len() < 40 && t.chars().all(|c| c.is_ascii_alphanumeric()) && t.chars().next().is_some_and(|c| c.is_ascii_uppercase()) {
                    info.label(crate::params::leak(t));
                }
            }
            m.values().for_each(|v| note_kinds(v, info));
        }
        Value::Array(a) => a.iter().for_each(|v| note_kinds(v, info)),
        _ => {}
    }
}

/// All places of a document: pointers.
fn places(v: &Value, at: String, out: &mut Vec<String>) {
    out.push(at.clone());
    match v {
        Value::Object(m) => m.iter().for_each(|(k, x)| places(x, format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| places(x, format!("{at}/{i}"), out)),
        _ => {}
    }
}

/// Does the value fit the published schema?
fn fits(v: &Value, schema: &'static Value) -> bool {
    let schema = resolve(schema);
    if schema == &Value::Bool(true) {
        return true;
    }
    if let Some(c) = schema.get("const") {
        if v != c {
            return false;
        }
    }
    if excluded(v, schema) {
        return false;
    }
    if let Some(e) = schema.get("enum").and_then(|e| e.as_array()) {
        if !e.contains(v) {
            return false;
        }
    }
    for k in ["oneOf", "anyOf"] {
        if let Some(a) = schema.get(k).and_then(|a| a.as_array()) {
            if !a.iter().any(|x| fits(v, x)) {
                return false;
            }
        }
    }
    if let Some(t) = schema.get("type") {
        let ok = |t: &str| match t {
            "null" => v.is_null(),
            "boolean" => v.is_boolean(),
            "number" => v.is_number(),
            "integer" => v.is_i64() || v.is_u64(),
            "string" => v.is_string(),
            "array" => v.is_array(),
            "object" => v.is_object(),
            _ => true,
        };
        let r = match t {
            Value::String(t) => ok(t),
            Value::Array(a) => a.iter().filter_map(|x| x.as_str()).any(ok),
            _ => true,
        };
        if !r {
            return false;
        }
    }
    if let Some(x) = v.as_f64() {
        if schema.get("minimum").and_then(|m| m.as_f64()).is_some_and(|m| x < m) || schema.get("maximum").and_then(|m| m.as_f64()).is_some_and(|m| x > m) {
            return false;
        }
    }
    if let Value::Array(a) = v {
        if let Some(p) = schema.get("prefixItems").and_then(|p| p.as_array()) {
            if a.len() != p.len() || !a.iter().zip(p).all(|(x, p)| fits(x, p)) {
                return false;
            }
        } else if let Some(i) = schema.get("items") {
            if !a.iter().all(|x| fits(x, i)) {
                return false;
            }
        }
        let n = a.len() as u64;
        if schema.get("minItems").and_then(|m| m.as_u64()).is_some_and(|m| n < m) || schema.get("maxItems").and_then(|m| m.as_u64()).is_some_and(|m| n > m) {
            return false;
        }
    }
    if let Value::Object(m) = v {
        let p = schema.get("properties").and_then(|p| p.as_object());
        if let Some(r) = schema.get("required").and_then(|r| r.as_array()) {
            if !r.iter().filter_map(|x| x.as_str()).all(|k| m.contains_key(k)) {
                return false;
            }
        }
        for (k, x) in m {
            match p.and_then(|p| p.get(k)) {
                Some(sub) => {
                    if !fits(x, sub) {
                        return false;
                    }
                }
                None => match schema.get("additionalProperties") {
                    Some(Value::Bool(false)) => return false,
                    Some(a @ Value::Object(_)) => {
                        if !fits(x, a) {
                            return false;
                        }
                    }
                    _ => {}
                },
            }
        }
    }
    true
}

/// A document that does not fit the published schema is refused with an error; none is changed silently.
fn c16_strict(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let mut doc = gen_doc(s, false, false);
    let mut all = Vec::new();
    places(&doc, String::new(), &mut all);
    let at = s.pick(&all).clone();
    let v = doc.pointer_mut(&at).unwrap();
    let what = match v {
        Value::Object(m) => match s.below(3) {
            // A type without settings of its own takes no notice of others
            0 if !(m.len() == 1 && m.contains_key("type")) => {
                m.insert(s.pick(&["unknown", "Type", "", "comments", "value2"]).to_string(), json!(1));
                "unknown key"
            }
            1 if !m.is_empty() => {
                let k = m.keys().nth(s.us(m.len())).unwrap().clone();
                m.remove(&k);
                "removed key"
            }
            _ => {
                *v = json!(1);
                "number for an object"
            }
        },
        Value::Array(a) => {
            if s.bool() && !a.is_empty() {
                a.pop();
                "shorter list"
            } else {
                *v = json!({"a": 1});
                "object for a list"
            }
        }
        Value::String(_) => {
            *v = if s.bool() { json!(1.5) } else { json!("Other Thing") };
            "other string"
        }
        Value::Number(_) => {
            *v = match s.below(4) {
                0 => json!("1"),
                1 => json!(-1),
                2 => json!(0.5),
                _ => json!(300),
            };
            "other number"
        }
        Value::Bool(_) => {
            *v = json!("yes");
            "text for a flag"
        }
        Value::Null => {
            *v = json!([null]);
            "list for nothing"
        }
    };
    info.desc(format!("{what} at {at}: {doc}"));
    info.label(what);
    let fit = fits(&doc, published());
    let r = read_text(&doc.to_string());
    match r {
        Err(e) if e.starts_with("panic") => return fail("read-panic", format!("{e}: {what} at {at}: {doc}")),
        Err(_) => {
            info.label("refused");
            info.nontrivial = true;
        }
        Ok(m) => {
            check!(fit, "accepted", "{what} at {at}: {doc}");
            let y: Value = serde_json::from_str(&written(&m, false)?).unwrap();
            // A key the schema does not speak of may be left out
            if let Some(l) = (what != "unknown key").then(|| lost(&doc, &y, "")).flatten() {
                return fail("lost", format!("{l}: {what} at {at}: {doc} written as {y}"));
            }
        }
    }
    Ok(())
}

fn example_files() -> &'static Vec<(PathBuf, Value)> {
    static F: OnceLock<Vec<(PathBuf, Value)>> = OnceLock::new();
    F.get_or_init(|| {
        let mut v = Vec::new();
        let mut dirs = vec![PathBuf::from("/repo/pywr-schema/tests"), PathBuf::from("/repo/pywr-schema/src")];
        while let Some(d) = dirs.pop() {
            let Ok(rd) = std::fs::read_dir(&d) else { continue };
            let mut es: Vec<PathBuf> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            es.sort();
            for p in es {
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().is_some_and(|e| e == "json") {
                    if let Ok(x) = serde_json::from_str::<Value>(&std::fs::read_to_string(&p).unwrap_or_default()) {
                        v.push((p, x));
                    }
                }
            }
        }
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    })
}

/// Whole models of the repository (version 2).
pub fn models() -> Vec<&'static (PathBuf, Value)> {
    example_files()
        .iter()
        .filter(|(p, v)| v.get("network").is_some() && v.get("time").is_some() && !p.components().any(|c| matches!(c.as_os_str().to_str(), Some("v1" | "invalid"))))
        .collect()
}

fn c16_examples(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let all = example_files();
    let (p, v) = s.pick(all);
    info.desc(p.display());
    let text = v.to_string();
    if v.get("networks").is_some() {
        let Ok(m) = serde_json::from_str::<MultiNetworkModelSchema>(&text) else { return Ok(()) };
        let t1 = serde_json::to_string(&m).unwrap();
        let y: Value = serde_json::from_str(&t1).unwrap();
        let m2 = match serde_json::from_str::<MultiNetworkModelSchema>(&t1) {
            Ok(m) => m,
            Err(e) => return fail("unreadable", format!("{e}: {} written as {y}", p.display())),
        };
        check!(serde_json::to_value(&m2).unwrap() == y, "unstable", "{}", p.display());
        info.label("networks");
    } else {
        let Ok(m) = read_text(&text) else { return Ok(()) };
        let t1 = written(&m, false)?;
        let y: Value = serde_json::from_str(&t1).unwrap();
        let m2 = match read_text(&t1) {
            Ok(m) => m,
            Err(e) => return fail("unreadable", format!("{e}: {} written as {y}", p.display())),
        };
        check!(serde_json::to_value(&m2).unwrap() == y, "unstable", "{}", p.display());
        info.label("model");
    }
    info.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- C21

fn forbidden(v: &Value) -> bool {
    match v {
        Value::String(t) => t.starts_with('/') || t.contains("..") || t == "Python" || t == "Pandas",
        Value::Array(a) => a.iter().any(forbidden),
        Value::Object(m) => m.values().any(forbidden) || m.contains_key("python"),
        _ => false,
    }
}

/// Panics are told apart by where they come from.
fn place_of(p: &str) -> String {
    let at = p.rsplit(" at ").next().unwrap_or("");
    let file = at.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("");
    let msg: String = p.chars().take_while(|c| *c != '`' && *c != '"' && !c.is_ascii_digit()).take(40).collect();
    format!("panic {file}: {msg}")
}

fn attempt(doc: &Value, dir: &Path, info: &mut Info) -> Result<(), Fail> {
    let m = match read_text(&doc.to_string()) {
        Ok(m) => m,
        Err(e) if e.starts_with("panic: ") => return fail(&place_of(&e[7..]), format!("reading: {e}: {doc}")),
        Err(_) => {
            info.label("unread");
            return Ok(());
        }
    };
    let r = guarded(|| m.validate().is_ok());
    if let Err(p) = r {
        return fail(&place_of(&p), format!("validating: {p}: {doc}"));
    }
    let valid = r.unwrap();
    let b = match guarded(|| m.create_model_builder(Some(dir), Some(dir)).map_err(|e| full(&e))) {
        Err(p) => return fail(&place_of(&p), format!("loading: {p}: {doc}")),
        Ok(Err(e)) => {
            info.label("not-loaded");
            info.nontrivial = true;
            check!(!e.is_empty(), "empty-error", "{doc}");
            return Ok(());
        }
        Ok(Ok(b)) => b,
    };
    let model = match guarded(|| b.build().map_err(|e| full(&e))) {
        Err(p) => return fail(&place_of(&p), format!("building: {p}: {doc}")),
        Ok(Err(_)) => {
            info.label("not-built");
            info.nontrivial = true;
            return Ok(());
        }
        Ok(Ok(m)) => m,
    };
    info.label(if valid { "built" } else { "built-invalid" });
    match run_model(&model, Sol::Highs) {
        Ok(()) => info.label("ran"),
        Err(e) if e.starts_with("panic: ") => return fail(&place_of(&e[7..]), format!("running: {e}: {doc}")),
        Err(_) => info.label("run-error"),
    }
    info.nontrivial = true;
    Ok(())
}

fn names_of(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => m.iter().for_each(|(k, x)| match x {
            Value::String(t) if k == "name" => out.push(t.clone()),
            x => names_of(x, out),
        }),
        Value::Array(a) => a.iter().for_each(|x| names_of(x, out)),
        _ => {}
    }
}

fn mutate(s: &mut Src, doc: &mut Value, info: &mut Info) {
    let mut all = Vec::new();
    places(&doc["network"], "/network".to_string(), &mut all);
    if s.chance(1, 12) && doc.get("scenarios").is_some() {
        all.clear();
        places(&doc["scenarios"], "/scenarios".to_string(), &mut all);
    }
    let mut names = Vec::new();
    names_of(doc, &mut names);
    if names.is_empty() {
        names.push("absent".into());
    }
    let at = s.pick(&all).clone();
    let other = doc.pointer(s.pick(&all)).unwrap().clone();
    let in_scenarios = at.starts_with("/scenarios");
    let Some(v) = doc.pointer_mut(&at) else { return };
    match v {
        Value::Object(m) => match s.below(4) {
            0 if !m.is_empty() => {
                let k = m.keys().nth(s.us(m.len())).unwrap().clone();
                m.remove(&k);
                info.label("removed key");
            }
            1 => {
                if other.is_object() {
                    *v = other;
                    info.label("other object");
                }
            }
            2 => {
                if m.get("type").is_some_and(|t| ["Literal", "Parameter", "Node", "Table", "Timeseries", "VirtualNode"].contains(&t.as_str().unwrap_or(""))) {
                    let n = s.pick(&names).clone();
                    *v = match s.below(8) {
                        0 => json!({"type": "Parameter", "name": n}),
                        1 => json!({"type": "Node", "name": n}),
                        2 => json!({"type": "Node", "name": n, "attribute": s.pick(&["Inflow", "Outflow", "Volume", "ProportionalVolume", "MaxVolume", "Loss", "Deficit", "Power"])}),
                        3 => json!({"type": "VirtualNode", "name": n}),
                        4 => json!({"type": "Timeseries", "name": n}),
                        5 => json!({"type": "InterNetworkTransfer", "name": n}),
                        6 => json!({"type": "LocalParameter", "name": n}),
                        _ => json!({"type": "Literal", "value": s.pick(&[0.0, -1.0, 1e30, 1e-30, 0.5])}),
                    };
                    info.label("other metric");
                }
            }
            _ => {
                let k = s.pick(&["parameters", "max_flow", "min_flow", "cost", "factors", "initial_volume", "rainfall", "slots", "meta"]).to_string();
                m.insert(k, other);
                info.label("added key");
            }
        },
        Value::Array(a) => match s.below(5) {
            0 => {
                a.clear();
                info.label("emptied list");
            }
            1 if !a.is_empty() => {
                let i = s.us(a.len());
                a.remove(i);
                info.label("removed item");
            }
            2 if !a.is_empty() => {
                let i = s.us(a.len());
                let x = a[i].clone();
                a.push(x);
                info.label("repeated item");
            }
            3 => {
                s.shuffle(a);
                info.label("shuffled list");
            }
            _ => {
                if let Value::Array(o) = other {
                    *v = Value::Array(o);
                    info.label("other list");
                }
            }
        },
        Value::String(_) => {
            *v = match s.below(4) {
                0 => json!("absent"),
                2.. if !names.is_empty() => json!(s.pick(&names)),
                _ => json!(""),
            };
            info.label("other name");
        }
        Value::Number(_) => {
            let small = in_scenarios;
            *v = match s.below(7) {
                0 => json!(0),
                1 => json!(-1),
                2 => json!(1),
                3 if !small => json!(1e30),
                4 => json!(0.5),
                5 => json!(7),
                _ => json!(0.0),
            };
            info.label("other number");
        }
        Value::Bool(b) => *b = !*b,
        Value::Null => *v = json!(1),
    }
}

pub fn short_time(doc: &mut Value) {
    let start = doc["time"]["start"].as_str().unwrap_or("2020-01-01").chars().take(10).collect::<String>();
    let d: jiff::civil::Date = start.parse().unwrap_or(jiff::civil::date(2020, 1, 1));
    let ts = doc["time"]["timestep"].clone();
    let hours = match ts["type"].as_str() {
        Some("Days") => ts["days"].as_i64().unwrap_or(1) * 24,
        Some("Hours") => ts["hours"].as_i64().unwrap_or(1),
        _ => 24,
    };
    let e = d.at(0, 0, 0, 0).checked_add(jiff::Span::new().hours(hours.clamp(1, 24 * 400) * 3)).unwrap();
    doc["time"]["end"] = json!(e.to_string());
}

fn c21_mutated(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let all = models();
    check!(all.len() > 50, "harness", "only {} models in /repo/pywr-schema/tests", all.len());
    let (p, v) = *s.pick(&all);
    if forbidden(v) {
        return Ok(());
    }
    let mut doc = v.clone();
    short_time(&mut doc);
    let k = s.size(1, 3);
    for _ in 0..k {
        mutate(s, &mut doc, info);
    }
    if forbidden(&doc) || doc.get("network").is_none() {
        return Ok(());
    }
    info.desc(format!("{}: {doc}", p.display()));
    // Data files are read from copies
    let dir = scratch_dir("c21");
    for f in std::fs::read_dir(p.parent().unwrap()).unwrap().flatten() {
        let x = f.path();
        if x.extension().is_some_and(|e| e == "csv") && doc.to_string().contains(x.file_name().unwrap().to_str().unwrap()) {
            std::fs::copy(&x, dir.join(x.file_name().unwrap())).unwrap();
        }
    }
    let r = attempt(&doc, &dir, info);
    drop(dir);
    r
}

/// Where a document refers to something by name.
fn references(v: &Value, at: String, out: &mut Vec<(String, &'static str)>) {
    match v {
        Value::Object(m) => {
            let kind = m.get("type").and_then(|t| t.as_str()).unwrap_or("");
            let refers = ["Parameter", "LocalParameter", "Node", "VirtualNode", "Timeseries", "InterNetworkTransfer"];
            if refers.contains(&kind) && m.get("name").is_some_and(|n| n.is_string()) && !m.contains_key("meta") {
                out.push((format!("{at}/name"), "metric"));
            }
            if kind == "Timeseries" && m.get("columns").and_then(|c| c.get("name")).is_some_and(|n| n.is_string()) {
                out.push((format!("{at}/columns/name"), "column"));
            }
            for (k, x) in m {
                let here = format!("{at}/{}", k.replace('~', "~0").replace('/', "~1"));
                match k.as_str() {
                    "from_node" | "to_node" if x.is_string() => out.push((here, "edge")),
                    "metric_set" if x.is_string() => out.push((here, "metric set")),
                    "table" if x.is_string() => out.push((here, "table")),
                    "scenario_group" if x.is_string() => out.push((here, "scenario group")),
                    "nodes" if x.is_array() && at.contains("/nodes/") => {
                        for (i, y) in x.as_array().unwrap().iter().enumerate() {
                            if y.get("name").is_some_and(|n| n.is_string()) {
                                out.push((format!("{here}/{i}/name"), "member"));
                            }
                        }
                    }
                    _ => references(x, here, out),
                }
            }
        }
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| references(x, format!("{at}/{i}"), out)),
        _ => {}
    }
}

/// A reference to something that is not there, or a second thing of the same name, is an error before the run.
fn c21_refused(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let all = models();
    let (p, v) = *s.pick(&all);
    if forbidden(v) {
        return Ok(());
    }
    let mut doc = v.clone();
    short_time(&mut doc);
    let load = |doc: &Value| -> Result<Result<(), String>, String> {
        guarded(|| {
            let m = read_text(&doc.to_string())?;
            m.validate().map_err(|e| e.to_string())?;
            let out = scratch_dir("c21-out");
            let b = m.create_model_builder(p.parent(), Some(&out)).map_err(|e| full(&e))?;
            b.build().map(|_| ()).map_err(|e| full(&e))
        })
    };
    match load(&doc) {
        Ok(Ok(())) => {}
        _ => {
            info.label("unusable model");
            return Ok(());
        }
    }
    let what;
    if s.chance(3, 4) {
        let mut refs = Vec::new();
        references(&doc["network"], "/network".into(), &mut refs);
        if refs.is_empty() {
            return Ok(());
        }
        let (at, kind) = s.pick(&refs).clone();
        let old = doc.pointer(&at).unwrap().as_str().unwrap().to_string();
        let new = match s.below(4) {
            0 => format!("{old} "),
            1 => format!("not {old}"),
            2 if !old.is_empty() && old.is_ascii() => old[..old.len() - 1].to_string(),
            _ => if old.to_uppercase() == old { old.to_lowercase() } else { old.to_uppercase() },
        };
        let mut names = Vec::new();
        names_of(&doc, &mut names);
        if new == old || names.contains(&new) {
            return Ok(());
        }
        what = format!("{at}: {old:?} replaced by {new:?}");
        *doc.pointer_mut(&at).unwrap() = json!(new);
        info.label(kind);
    } else {
        let lists = ["nodes", "virtual_nodes", "parameters", "tables", "timeseries", "metric_sets"];
        let l = *s.pick(&lists);
        let Some(a) = doc["network"].get_mut(l).and_then(|x| x.as_array_mut()).filter(|a| !a.is_empty()) else { return Ok(()) };
        let x = s.pick(a).clone();
        let i = s.us(a.len() + 1);
        a.insert(i, x);
        what = format!("duplicated an entry of {l} at {i}");
        info.label(l);
    }
    info.desc(format!("{}: {what}", p.display()));
    info.nontrivial = true;
    match load(&doc) {
        Err(e) => fail(&place_of(&e), format!("{}: {what}: {e}", p.display())),
        Ok(Ok(())) => fail(&format!("accepted {}", info.labels.iter().copied().collect::<Vec<_>>().join(",")), format!("{}: {what}: the model is built", p.display())),
        Ok(Err(_)) => Ok(()),
    }
}

fn rename(v: &mut Value, prefix: &str, s: &mut Src) {
    if let Some(a) = v.as_array_mut() {
        for (i, x) in a.iter_mut().enumerate() {
            if s.chance(1, 20) {
                continue;
            }
            if x.get("meta").is_some() {
                x["meta"]["name"] = json!(format!("{prefix}{i}"));
            } else if x.get("name").is_some() {
                x["name"] = json!(format!("{prefix}{i}"));
            }
        }
    }
}

fn c21_generated(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let mut doc = gen_doc(s, true, true);
    doc["time"] = json!({"start": "2020-02-27", "end": "2020-03-01", "timestep": {"type": "Days", "days": 1}});
    if s.chance(1, 20) {
        doc["time"]["timestep"] = json!({"type": "Frequency", "freq": s.pick(&["1d", "1mo", "7d", "P1M", "x", "", "-1d", "1"])});
    }
    let net = &mut doc["network"];
    rename(&mut net["nodes"], "n", s);
    rename(&mut net["parameters"], "p", s);
    rename(&mut net["virtual_nodes"], "v", s);
    rename(&mut net["tables"], "t", s);
    rename(&mut net["timeseries"], "t", s);
    rename(&mut net["metric_sets"], "m", s);
    for k in ["parameters", "virtual_nodes", "tables", "timeseries", "metric_sets", "outputs"] {
        if net[k].is_null() {
            net.as_object_mut().unwrap().remove(k);
        }
    }
    // Inputs and files mostly exist
    if s.chance(3, 4) {
        if let Some(a) = net["nodes"].as_array_mut() {
            a.insert(0, json!({"meta": {"name": "n8"}, "type": "Input", "max_flow": {"type": "Literal", "value": 5}}));
            a.push(json!({"meta": {"name": "n9"}, "type": "Output", "max_flow": {"type": "Literal", "value": 4}, "cost": {"type": "Literal", "value": -1}}));
        }
        let n = net["nodes"].as_array().map(|a| a.len()).unwrap_or(0);
        if let Some(e) = net["edges"].as_array_mut() {
            for i in 0..n.saturating_sub(2) {
                e.push(json!({"from_node": "n8", "to_node": format!("n{i}")}));
                e.push(json!({"from_node": format!("n{i}"), "to_node": "n9"}));
            }
        }
    }
    if forbidden(&doc) {
        return Ok(());
    }
    if let Some(g) = doc.get_mut("scenarios").and_then(|x| x.get_mut("groups")) {
        rename(g, "g", s);
        if let Some(a) = g.as_array_mut() {
            for x in a {
                if x["size"].as_u64().unwrap_or(0) > 3 {
                    x["size"] = json!(2);
                }
            }
        }
    }
    info.desc(&doc);
    let dir = scratch_dir("c21");
    std::fs::write(dir.join("t.csv"), "time,a,b\n2020-02-27,1,2\n2020-02-28,2,3\n2020-02-29,3,4\n2020-03-01,4,5\n").unwrap();
    let r = attempt(&doc, &dir, info);
    drop(dir);
    note_kinds(&doc, info);
    r
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            rule: "generated: a document of more than 600 bytes; strict: the document is refused; examples: a file that is a model",
            arms: vec![
                Arm { name: "generated", quick: 4000, thorough: 120_000, run: c16_generated },
                Arm { name: "strict", quick: 4000, thorough: 120_000, run: c16_strict },
                Arm { name: "examples", quick: 400, thorough: 2000, run: c16_examples },
            ],
        },
        Prop {
            id: "C21",
            rule: "the document is read, and the model is loaded, built or run",
            arms: vec![
                Arm { name: "mutated", quick: 12_000, thorough: 500_000, run: c21_mutated },
                Arm { name: "generated", quick: 24_000, thorough: 1_000_000, run: c21_generated },
                Arm { name: "refused", quick: 2000, thorough: 60_000, run: c21_refused },
            ],
        },
    ]
}
