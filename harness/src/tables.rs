//! C18 data tables.

use crate::alloc::{Sol, full, run_model};
use crate::check;
use crate::runner::{Arm, Fail, Info, Prop, fail, guarded, scratch_dir};
use crate::schema::{csv_field, document, lit, p_before, probed, time_section, u_before};
use crate::src::Src;
use jiff::civil::date;
use pywr_schema::data_tables::{DataTable, LoadedTable, TableError};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Lookup {
    /// Key columns
    Row(usize),
    /// Header rows
    Col(usize),
    /// Header rows and key columns
    Both(usize, usize),
}

#[derive(Clone, Debug)]
struct Cell {
    text: String,
    /// None: not a number
    value: Option<f64>,
}

#[derive(Clone, Debug)]
struct Table {
    name: String,
    lookup: Lookup,
    array: bool,
    /// Key (row parts, then column parts) and its values; one value for scalar tables
    entries: Vec<(Vec<String>, Vec<Cell>)>,
    /// The lines of the file
    lines: Vec<Vec<String>>,
    crlf: bool,
    quote: bool,
    /// Sub-directory of the file
    file: String,
}

const NAMES: &[&str] = &[
    "a", "b", "A", "c d", "1", "2", "01", "1.0", "é", "x,y", "say \"q\"", "", " a", "a ", "line\nbreak", "NaN", "key", "value", "-", "長い",
];

fn part(s: &mut Src) -> String {
    if s.chance(3, 5) { format!("k{}", s.below(6)) } else { s.pick(NAMES).to_string() }
}

fn tuples(s: &mut Src, n: usize, len: usize) -> Vec<Vec<String>> {
    let mut seen = BTreeSet::new();
    let mut out = Vec::new();
    for _ in 0..n * 2 {
        if out.len() == n {
            break;
        }
        let k: Vec<String> = (0..len).map(|_| part(s)).collect();
        if seen.insert(k.clone()) {
            out.push(k);
        }
    }
    out
}

fn cell(s: &mut Src, whole: bool, gaps: bool) -> Cell {
    if gaps && s.chance(1, 8) {
        return Cell { text: s.pick(&["", "n/a", "-", "1,5", "x1", "1 2"]).to_string(), value: None };
    }
    if whole {
        let v = *s.pick(&[0i64, 1, 2, 3, 7, 12, 365, 1_000_000, (1 << 53) - 1]);
        let text = match s.below(3) {
            0 => format!("{v}"),
            1 => format!("{v}.0"),
            _ => format!("{v}"),
        };
        return Cell { text, value: Some(v as f64) };
    }
    let v = match s.below(4) {
        0 => s.num(-20.0, 100.0, 0.25),
        1 => s.real(-1.0, 1.0),
        2 => s.real(-1.0, 1.0) * 10f64.powi(s.int(-300, 300) as i32),
        _ => *s.pick(&[0.0, -0.0, 0.1, 1.0 / 3.0, 1e20, 2e19, 1e300, 5e-324, f64::MAX, f64::INFINITY, 9.5, -3.0]),
    };
    let text = match s.below(3) {
        0 => format!("{v}"),
        1 => format!("{v:e}"),
        _ => format!("{v:?}"),
    };
    Cell { text, value: Some(v) }
}

fn gen_table(s: &mut Src, name: &str, array: bool, whole: bool, gaps: bool) -> Table {
    let lookup = match s.below(if array { 2 } else { 3 }) {
        0 => Lookup::Row(s.size(1, 4)),
        1 => Lookup::Col(s.size(1, 4)),
        _ => Lookup::Both(s.size(1, 2), s.size(1, 2)),
    };
    let m = if array { s.size(1, 13) } else { 1 };
    let mut lines: Vec<Vec<String>> = Vec::new();
    let mut entries = Vec::new();
    match lookup {
        Lookup::Row(n) => {
            let nk = s.size(1, 8);
            let keys = tuples(s, nk, n);
            lines.push((0..n + m).map(|_| part(s)).collect());
            for k in keys {
                let cells: Vec<Cell> = (0..m).map(|_| cell(s, whole, gaps && !array)).collect();
                lines.push(k.iter().cloned().chain(cells.iter().map(|c| c.text.clone())).collect());
                entries.push((k, cells));
            }
        }
        Lookup::Col(n) => {
            let nk = s.size(1, 8);
            let keys = tuples(s, nk, n);
            for i in 0..n {
                lines.push(keys.iter().map(|k| k[i].clone()).collect());
            }
            let mut cols: Vec<Vec<Cell>> = vec![vec![]; keys.len()];
            for _ in 0..m {
                let row: Vec<Cell> = keys.iter().map(|_| cell(s, whole, gaps && !array)).collect();
                lines.push(row.iter().map(|c| c.text.clone()).collect());
                for (c, x) in cols.iter_mut().zip(row) {
                    c.push(x);
                }
            }
            entries = keys.into_iter().zip(cols).collect();
        }
        Lookup::Both(r, c) => {
            let nr = s.size(1, 5);
            let nc = s.size(1, 5);
            let rk = tuples(s, nr, c);
            let ck = tuples(s, nc, r);
            for i in 0..r {
                lines.push((0..c).map(|_| part(s)).chain(ck.iter().map(|k| k[i].clone())).collect());
            }
            for k in &rk {
                let mut line = k.clone();
                for h in &ck {
                    let x = cell(s, whole, gaps);
                    line.push(x.text.clone());
                    entries.push((k.iter().chain(h).cloned().collect(), vec![x]));
                }
                lines.push(line);
            }
        }
    }
    Table {
        name: name.to_string(),
        lookup,
        array,
        entries,
        lines,
        crlf: s.chance(1, 4),
        quote: s.chance(1, 4),
        file: if s.chance(1, 4) { format!("sub/{name}.csv") } else { format!("{name}.csv") },
    }
}

impl Table {
    fn text(&self) -> String {
        let nl = if self.crlf { "\r\n" } else { "\n" };
        let mut t = String::new();
        for l in &self.lines {
            let f: Vec<String> = l.iter().map(|x| csv_field(x, self.quote)).collect();
            t.push_str(&f.join(","));
            t.push_str(nl);
        }
        t
    }
    fn write(&self, dir: &Path) {
        let p = dir.join(&self.file);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, self.text()).unwrap();
    }
    fn json(&self, absolute: Option<&Path>) -> Value {
        let lookup = match self.lookup {
            Lookup::Row(n) => json!({"type": "Row", "cols": n}),
            Lookup::Col(n) => json!({"type": "Col", "rows": n}),
            Lookup::Both(r, c) => json!({"type": "Both", "rows": r, "cols": c}),
        };
        let url = match absolute {
            Some(d) => d.join(&self.file).to_string_lossy().to_string(),
            None => self.file.clone(),
        };
        json!({
            "meta": {"name": self.name},
            "type": if self.array { "Array" } else { "Scalar" },
            "format": "CSV",
            "lookup": lookup,
            "url": url,
        })
    }
    fn nkey(&self) -> usize {
        match self.lookup {
            Lookup::Row(n) | Lookup::Col(n) => n,
            Lookup::Both(r, c) => r + c,
        }
    }
}

/// A checksum of a file, and whether it is wrong.
pub fn checksum(s: &mut Src, file: &Path) -> (serde_json::Value, bool) {
    let (ty, tool) = *s.pick(&[("MD5", "md5sum"), ("SHA256", "sha256sum")]);
    let mut h = digest(tool, file);
    let wrong = s.bool();
    if wrong {
        // One digit is different, or the file changed afterwards
        if s.bool() {
            let i = s.us(h.len());
            let c = h.as_bytes()[i];
            h.replace_range(i..i + 1, if c == b'0' { "1" } else { "0" });
        } else {
            let mut x = std::fs::read(file).unwrap();
            x.push(if file.extension().is_some_and(|e| e == "h5") { 0 } else { b' ' });
            std::fs::write(file, x).unwrap();
        }
    }
    (json!({"type": ty, "hash": h}), wrong)
}

fn digest(tool: &str, file: &Path) -> String {
    let o = std::process::Command::new(tool).arg(file).output().expect("digest tool");
    String::from_utf8(o.stdout).unwrap().split_whitespace().next().unwrap().trim_start_matches('\\').to_string()
}

fn load(def: &Value, dir: Option<&Path>) -> Result<Result<LoadedTable, TableError>, Fail> {
    let t: DataTable = match serde_json::from_value(def.clone()) {
        Ok(t) => t,
        Err(e) => return fail("definition", format!("{def}: {e}")),
    };
    match guarded(|| t.load(dir)) {
        Ok(r) => Ok(r),
        Err(p) => fail("load-panic", format!("{def}: {p}")),
    }
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a == b
}

fn look_up(s: &mut Src, info: &mut Info, t: &Table, l: &LoadedTable) -> Result<(), Fail> {
    let map: BTreeMap<Vec<String>, Vec<Cell>> = t.entries.iter().cloned().collect();
    let shown = || format!("{t:?}");
    for (k, cells) in &t.entries {
        let key: Vec<&str> = k.iter().map(|x| x.as_str()).collect();
        if t.array {
            let got = l.get_vec_f64(&key);
            let want: Vec<f64> = cells.iter().map(|c| c.value.unwrap()).collect();
            match got {
                Ok(v) => check!(
                    v.len() == want.len() && v.iter().zip(&want).all(|(a, b)| same(*a, *b)),
                    "array",
                    "{key:?}: {v:?}, the file has {want:?}: {}",
                    shown()
                ),
                Err(e) => return fail("array-missing", format!("{key:?}: {e}: {}", shown())),
            }
            check!(matches!(l.get_scalar_f64(&key), Err(TableError::WrongTableFormat(_))), "format", "scalar of an array table: {}", shown());
            check!(matches!(l.get_scalar_u64(&key), Err(TableError::WrongTableFormat(_))), "format", "scalar of an array table: {}", shown());
        } else {
            let got = l.get_scalar_f64(&key);
            match (cells[0].value, got) {
                (Some(w), Ok(v)) => check!(same(v, w), "scalar", "{key:?}: {v}, the file has {w}: {}", shown()),
                (None, Err(TableError::EntryNotFound)) => info.label("empty-cell"),
                (w, g) => return fail("scalar", format!("{key:?}: {g:?}, the file has {w:?}: {}", shown())),
            }
            let u = l.get_scalar_u64(&key);
            match (cells[0].value, u) {
                (Some(w), Ok(v)) => check!(
                    w >= 0.0 && w.fract() == 0.0 && w < 18446744073709551616.0 && v == w as u64,
                    "whole",
                    "{key:?}: {v} as a whole number, the file has {w}: {}",
                    shown()
                ),
                (Some(w), Err(TableError::U64ConversionError)) => {
                    check!(!(w >= 0.0 && w.fract() == 0.0 && w <= 9007199254740992.0), "whole", "{key:?}: no whole number, the file has {w}: {}", shown());
                    info.label("not-whole");
                }
                (None, Err(TableError::EntryNotFound)) => {}
                (w, g) => return fail("whole", format!("{key:?}: {g:?}, the file has {w:?}: {}", shown())),
            }
            check!(matches!(l.get_vec_f64(&key), Err(TableError::WrongTableFormat(_))), "format", "array of a scalar table: {}", shown());
        }
    }
    // Keys that are not there
    for _ in 0..4 {
        let mut k: Vec<String> = t.entries[s.us(t.entries.len())].0.clone();
        match s.below(4) {
            0 => {
                let i = s.us(k.len());
                k[i] = part(s);
            }
            1 => {
                s.shuffle(&mut k);
            }
            2 => {
                k.pop();
            }
            _ => k.push(part(s)),
        }
        let key: Vec<&str> = k.iter().map(|x| x.as_str()).collect();
        let e = if t.array { l.get_vec_f64(&key).map(|_| ()) } else { l.get_scalar_f64(&key).map(|_| ()) };
        if k.len() != t.nkey() {
            check!(matches!(e, Err(TableError::WrongKeySize(a, b)) if a == t.nkey() && b == k.len()), "key-size", "{key:?}: {e:?}: {}", shown());
            info.label("wrong-size");
        } else if !map.contains_key(&k) {
            check!(matches!(e, Err(TableError::EntryNotFound)), "absent", "{key:?}: {e:?}: {}", shown());
            info.label("absent-key");
        }
    }
    Ok(())
}

fn c18_lookup(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let array = s.bool();
    let whole = !array && s.chance(1, 3);
    let t = gen_table(s, "tbl", array, whole, true);
    info.desc(format!("{t:?}"));
    let dir = scratch_dir("c18");
    t.write(&dir);
    let absolute = s.bool();
    let mut def = t.json(absolute.then_some(dir.as_path()));
    let base = if absolute { if s.bool() { Some(Path::new("/nonexistent")) } else { None } } else { Some(dir.as_path()) };
    let mut wrong = false;
    if s.chance(1, 4) {
        let (v, w) = checksum(s, &dir.join(&t.file));
        wrong = w;
        def["checksum"] = v;
        info.label("checksum");
    }
    let r = load(&def, base)?;
    let res = match r {
        Ok(_) if wrong => fail("checksum", format!("a wrong checksum was accepted: {def}")),
        Err(TableError::ChecksumError(_)) if wrong => Ok(()),
        Ok(l) => look_up(s, info, &t, &l),
        Err(e) => fail("load", format!("{}: {t:?}", full(&e))),
    };
    drop(dir);
    info.nontrivial = t.entries.len() > 1 && !wrong;
    info.label(match t.lookup {
        Lookup::Row(_) => "rows",
        Lookup::Col(_) => "columns",
        Lookup::Both(..) => "both",
    });
    if t.nkey() > 2 {
        info.label("3-4 keys");
    }
    info.count("entries", t.entries.len() as u64);
    res
}

/// Files that do not fit their definition are refused.
fn c18_malformed(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let array = s.bool();
    let mut t = gen_table(s, "tbl", array, false, false);
    let dir = scratch_dir("c18m");
    let n = t.nkey();
    let mut raw: Option<String> = None;
    let what = match s.below(9) {
        0 => {
            // The values are gone
            match t.lookup {
                Lookup::Row(k) => t.lines.iter_mut().for_each(|l| l.truncate(k)),
                Lookup::Col(k) => t.lines.truncate(k),
                Lookup::Both(_, c) => t.lines.iter_mut().for_each(|l| l.truncate(c)),
            }
            "no values"
        }
        1 => {
            // Fewer columns or header rows than the key
            match t.lookup {
                Lookup::Row(k) => t.lines.iter_mut().for_each(|l| l.truncate(k - 1)),
                Lookup::Col(k) | Lookup::Both(k, _) => t.lines.truncate(k - 1),
            }
            "short key"
        }
        2 => {
            // A second value
            match t.lookup {
                Lookup::Row(_) => t.lines.iter_mut().for_each(|l| l.push("1".into())),
                Lookup::Col(_) => {
                    let l = t.lines.last().unwrap().clone();
                    t.lines.push(l);
                }
                Lookup::Both(..) => {
                    t.lines.last_mut().unwrap().push("1".into());
                }
            }
            "more values"
        }
        3 => {
            // A ragged line
            let i = s.us(t.lines.len());
            // An empty line is no line at all
            if s.bool() || t.lines[i].len() < 2 {
                t.lines[i].push("1".into());
            } else {
                t.lines[i].pop();
            }
            "ragged"
        }
        4 => {
            t.lookup = match t.lookup {
                Lookup::Row(_) => Lookup::Row(*s.pick(&[0, 5, 7])),
                Lookup::Col(_) => Lookup::Col(*s.pick(&[0, 5, 7])),
                Lookup::Both(..) => *s.pick(&[Lookup::Both(0, 1), Lookup::Both(1, 0), Lookup::Both(3, 1), Lookup::Both(1, 3), Lookup::Both(0, 0)]),
            };
            "key count"
        }
        5 => {
            t.file = "absent.csv".into();
            "no file"
        }
        6 => {
            raw = Some(s.pick(&["", "\n", "\"", "a", "a,b\n\"", "a,b\n1,2\n3\n", ",,,\n,,,\n", "\u{feff}a,b\nk,1\n", "a\0b,c\n1,2"]).to_string());
            "odd file"
        }
        7 => {
            // Another kind of lookup than the file was made for
            t.lookup = match s.below(3) {
                0 => Lookup::Row(s.size(1, 4)),
                1 => Lookup::Col(s.size(1, 4)),
                _ => Lookup::Both(s.size(1, 2), s.size(1, 2)),
            };
            t.array = s.bool();
            "other lookup"
        }
        _ => {
            let i = s.us(t.lines.len());
            let j = s.us(t.lines[i].len());
            t.lines[i][j] = "not a number".into();
            "text"
        }
    };
    info.desc(format!("{what}: {t:?} {raw:?}"));
    if what != "no file" {
        t.write(&dir);
        if let Some(x) = &raw {
            std::fs::write(dir.join(&t.file), x).unwrap();
        }
    }
    let r = load(&t.json(None), Some(&dir))?;
    drop(dir);
    let must = match what {
        // With a row of keys and values, one line less than the header is just an empty table
        "no values" => !t.array && !matches!(t.lookup, Lookup::Both(..)) && !matches!(t.lookup, Lookup::Row(_) if t.lines.len() < 2),
        "short key" => matches!(t.lookup, Lookup::Col(_)) && n > 1,
        "more values" => !t.array || matches!(t.lookup, Lookup::Both(..)),
        "ragged" => true,
        "key count" | "no file" => true,
        _ => false,
    };
    info.label(what);
    match r {
        Ok(_) => check!(!must, "accepted", "{what}: {t:?}"),
        Err(e) => {
            let _ = full(&e);
            info.label("refused");
        }
    }
    info.nontrivial = true;
    Ok(())
}

/// A reference to an entry, in one of the forms a document can use.
fn reference(s: &mut Src, t: &Table, key: &[String]) -> Value {
    let split = match s.below(4) {
        0 => 0,
        1 => key.len(),
        _ => match t.lookup {
            Lookup::Row(_) => key.len(),
            Lookup::Col(_) => 0,
            Lookup::Both(_, c) => c,
        },
    };
    let mut v = json!({"table": t.name});
    let form = |s: &mut Src, k: &[String]| {
        if k.len() == 1 && s.bool() { json!(k[0]) } else { json!(k) }
    };
    if split > 0 {
        v["row"] = form(s, &key[..split]);
    }
    if split < key.len() {
        v["column"] = form(s, &key[split..]);
    }
    v
}

fn typed(mut v: Value) -> Value {
    v["type"] = json!("Table");
    v
}

fn c18_models(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let dir = scratch_dir("c18x");
    let nt = s.size(1, 4);
    let mut tables = Vec::new();
    for i in 0..nt {
        let array = s.chance(1, 3);
        let whole = !array && s.chance(1, 3);
        let mut t = gen_table(s, &format!("t{i}"), array, whole, false);
        if array {
            // Only tables of twelve values are used
            t = Table { array: false, ..gen_table(s, &format!("t{i}"), false, whole, false) };
        }
        tables.push(t);
    }
    // A table of monthly values per key
    let mut monthly = gen_table(s, "monthly", true, false, false);
    while monthly.entries[0].1.len() != 12 {
        let nk = s.size(1, 5);
        let keys = tuples(s, nk, 2);
        monthly.lookup = Lookup::Row(2);
        monthly.lines = vec![(0..14).map(|i| format!("h{i}")).collect()];
        monthly.entries.clear();
        for k in keys {
            let c: Vec<Cell> = (0..12).map(|_| cell(s, true, false)).collect();
            monthly.lines.push(k.iter().cloned().chain(c.iter().map(|x| x.text.clone())).collect());
            monthly.entries.push((k, c));
        }
    }
    for t in tables.iter().chain([&monthly]) {
        t.write(&dir);
    }
    let mut params = Vec::new();
    let mut probes = Vec::new();
    let mut uprobes = Vec::new();
    let mut want: Vec<f64> = Vec::new();
    let mut uwant: Vec<u64> = Vec::new();
    let month = s.int(1, 12);
    for i in 0..s.size(1, 6) {
        let name = format!("p{i}");
        let t = s.pick(&tables).clone();
        let (k, c) = s.pick(&t.entries).clone();
        let v = c[0].value.unwrap();
        if !(v.abs() < 1e12) {
            continue;
        }
        let r = typed(reference(s, &t, &k));
        let meta = json!({"name": name});
        match s.below(5) {
            0 => {
                params.push(json!({"meta": meta, "type": "Constant", "value": r}));
                want.push(v);
                probes.push(p_before(&name));
            }
            1 => {
                let o = s.num(-5.0, 5.0, 0.5);
                params.push(json!({"meta": meta, "type": "Aggregated", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [r, lit(o)]}));
                want.push(v + o);
                probes.push(p_before(&name));
            }
            2 if v >= 0.0 && v.fract() == 0.0 => {
                params.push(json!({"meta": meta, "type": "AggregatedIndex", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [r, {"type": "Constant", "value": 1}]}));
                uwant.push(v as u64 + 1);
                uprobes.push(u_before(&name));
            }
            3 => {
                let (k, c) = s.pick(&monthly.entries).clone();
                let r = typed(reference(s, &monthly, &k));
                let x = c[month as usize - 1].value.unwrap();
                params.push(json!({"meta": meta, "type": "MonthlyProfile", "values": r}));
                want.push(x);
                probes.push(p_before(&name));
            }
            _ => {
                params.push(json!({"meta": meta, "type": "Negative", "parameter": r}));
                want.push(-v);
                probes.push(p_before(&name));
            }
        }
    }
    // A flow limited by an entry
    let t = s.pick(&tables).clone();
    let (k, c) = s.pick(&t.entries).clone();
    let v = c[0].value.unwrap();
    let usable = (0.0..1e6).contains(&v);
    let limit = if usable { typed(reference(s, &t, &k)) } else { lit(3.0) };
    let net = json!({
        "nodes": [
            {"meta": {"name": "in"}, "type": "Input", "max_flow": limit},
            {"meta": {"name": "out"}, "type": "Output", "cost": lit(-10.0)},
        ],
        "edges": [{"from_node": "in", "to_node": "out"}],
        "parameters": params,
        "tables": tables.iter().chain([&monthly]).map(|t| t.json(None)).collect::<Vec<_>>(),
    });
    probes.push(pywr_core::metric::UnresolvedMetricF64::NodeOutFlow("in".into()));
    want.push(if usable { v } else { 3.0 });
    let start = date(2021, month as i8, s.int(1, 20) as i8).at(0, 0, 0, 0);
    let doc = document(time_section(start, 24, s.size(1, 3)), None, net);
    info.desc(&doc);
    let (m, d) = match probed(&doc, Some(&dir), probes, uprobes) {
        Ok(x) => x,
        Err(e) => return fail("model", format!("{e}: {doc}")),
    };
    drop(dir);
    if let Err(e) = run_model(&m, Sol::Highs) {
        return fail("run", format!("{e}: {doc}"));
    }
    for (t, r) in d.table().iter().enumerate() {
        for (i, (a, b)) in r[0].iter().zip(&want).enumerate() {
            let tol = if i + 1 == want.len() { 1e-6 * b.abs().max(1.0) } else { 0.0 };
            check!(a == b || (a - b).abs() <= tol, "value", "step {t}, value {i}: {a}, the table has {b}: {doc}");
        }
    }
    for r in d.itable() {
        if !uwant.is_empty() {
            check!(r[0] == uwant, "index", "{:?}, the tables have {uwant:?}: {doc}", r[0]);
        }
    }
    info.nontrivial = want.len() + uwant.len() > 2;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        rule: "lookups: the table has at least two entries and its checksum is right; malformed: every case; models: at least two parameters read a table",
        arms: vec![
            Arm { name: "lookups", quick: 2500, thorough: 60_000, run: c18_lookup },
            Arm { name: "malformed", quick: 2000, thorough: 40_000, run: c18_malformed },
            Arm { name: "models", quick: 800, thorough: 12_000, run: c18_models },
        ],
    }]
}
