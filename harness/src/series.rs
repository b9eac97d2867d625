//! C19 timeseries.

use crate::alloc::{Sol, run_model};
use crate::check;
use crate::runner::{Arm, Fail, Info, Prop, fail, scratch_dir};
use crate::schema::{csv_field, document, lit, p_before, probed, time_section, u_before};
use crate::sim::gen_date;
use crate::src::Src;
use jiff::civil::DateTime;
use jiff::{Span, ToSpan};
use serde_json::{Value, json};
use std::path::Path;

fn plus(d: DateTime, minutes: i64) -> DateTime {
    d.checked_add(Span::new().minutes(minutes)).unwrap()
}

#[derive(Clone, Debug)]
struct Series {
    name: String,
    file: String,
    /// Name of the time column; None: the first column is used without being named
    time_col: Option<String>,
    time_pos: usize,
    /// Minutes after the model's start, and the values of each column
    rows: Vec<(i64, Vec<f64>)>,
    cols: Vec<String>,
    whole: Vec<bool>,
    infer: Option<usize>,
    stamp: u8,
    pandas: Option<Pandas>,
    checksum: Option<Value>,
    absolute: bool,
}

/// How a file that is read through Python looks.
#[derive(Clone, Debug)]
struct Pandas {
    how: &'static str,
    unit: &'static str,
    sep: char,
    skip: usize,
    kwargs: Value,
}

/// Python modules in place of pandas and polars, which hand over the columns of files in the way polars does.
fn frames() {
    use pyo3::prelude::*;
    use std::sync::Once;
    #[pyfunction]
    fn export_series(name: &str, kind: &str, values: Vec<Bound<'_, PyAny>>, address: usize) -> PyResult<()> {
        use polars_core::prelude::*;
        let whole = || values.iter().map(|v| v.extract::<i64>()).collect::<PyResult<Vec<_>>>();
        let time = |u| Ok::<_, PyErr>(Series::new(name.into(), whole()?).cast(&DataType::Datetime(u, None)).unwrap());
        let series = match kind {
            "ns" => time(TimeUnit::Nanoseconds)?,
            "us" => time(TimeUnit::Microseconds)?,
            "ms" => time(TimeUnit::Milliseconds)?,
            "i" => Series::new(name.into(), whole()?),
            _ => Series::new(name.into(), values.iter().map(|v| v.extract::<f64>()).collect::<PyResult<Vec<_>>>()?),
        };
        let export = polars_ffi::version_0::export_series(&series);
        // SAFETY: this is called with the address of an empty export only, by `PySeries::extract`.
        unsafe { std::ptr::write(address as *mut polars_ffi::version_0::SeriesExport, export) };
        Ok(())
    }
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        Python::initialize();
        Python::attach(|py| {
            let code = std::ffi::CString::new(include_str!("frames.py")).unwrap();
            for name in [c"pandas", c"polars"] {
                let m = PyModule::from_code(py, &code, c"frames.py", name).unwrap();
                m.add_function(wrap_pyfunction!(export_series, &m).unwrap()).unwrap();
            }
        });
    });
}

const COLS: &[&str] = &["flow", "a b", "Flow", "x,y", "é", "1", "value", "time2"];

impl Series {
    fn write(&self, s: &mut Src, dir: &Path, start: DateTime) {
        let mut order: Vec<usize> = (0..self.rows.len()).collect();
        if s.chance(1, 4) {
            s.shuffle(&mut order);
        }
        let t = self.time_col.clone().unwrap_or_else(|| "when".to_string());
        let mut lines = Vec::new();
        let mut h: Vec<String> = self.cols.clone();
        h.insert(self.time_pos, t);
        lines.push(h.iter().map(|x| csv_field(x, false)).collect::<Vec<_>>().join(","));
        for i in order {
            let (m, v) = &self.rows[i];
            let d = plus(start, *m);
            let stamp = match self.stamp {
                0 => format!("{}", d.date()),
                1 => format!("{} {}", d.date(), d.time()),
                _ => format!("{d}"),
            };
            let mut f: Vec<String> = v.iter().zip(&self.whole).map(|(x, w)| if *w { format!("{x}") } else { format!("{x:?}") }).collect();
            f.insert(self.time_pos, stamp);
            lines.push(f.join(","));
        }
        if let Some(p) = &self.pandas {
            if p.sep != ',' {
                lines.iter_mut().for_each(|l| *l = l.replace(',', &p.sep.to_string()));
            }
            for _ in 0..p.skip {
                lines.insert(0, "nothing".into());
            }
            let about = json!({"how": p.how, "unit": p.unit, "sep": p.sep, "skip": p.skip, "kwargs": p.kwargs, "index": self.time_pos});
            std::fs::write(dir.join(format!("{}.json", self.file)), about.to_string()).unwrap();
            frames();
        }
        std::fs::write(dir.join(&self.file), lines.join("\n") + "\n").unwrap();
    }
    fn json(&self, dir: &Path) -> Value {
        let mut v = json!({"type": "Polars", "meta": {"name": self.name}, "url": self.file});
        if let Some(p) = &self.pandas {
            v["type"] = json!("Pandas");
            if p.kwargs.as_object().is_some_and(|k| !k.is_empty()) || self.stamp == 1 {
                v["kwargs"] = p.kwargs.clone();
            }
        }
        if self.absolute {
            v["url"] = json!(dir.join(&self.file));
        }
        if let Some(c) = &self.checksum {
            v["checksum"] = c.clone();
        }
        if let Some(t) = &self.time_col {
            v["time_col"] = json!(t);
        }
        if let (Some(n), None) = (self.infer, &self.pandas) {
            v["infer_schema_length"] = json!(n);
        }
        v
    }
    /// The value of a column in each of the model's steps, or why there is none.
    fn aligned(&self, col: usize, step: i64, n: usize) -> Result<Vec<f64>, &'static str> {
        let mut pts: Vec<(i64, f64)> = self.rows.iter().filter(|r| r.0 >= 0).map(|r| (r.0, r.1[col])).collect();
        pts.sort_by_key(|p| p.0);
        if pts.len() < 2 {
            return Err("fewer than two values");
        }
        let d = pts[1].0 - pts[0].0;
        if d <= 0 || pts.windows(2).any(|w| w[1].0 - w[0].0 != d) {
            return Err("uneven");
        }
        if pts[0].0 != 0 {
            return Err("no value at the start");
        }
        if pts.last().unwrap().0 < (n as i64 - 1) * step {
            return Err("ends early");
        }
        let mut out = Vec::new();
        for i in 0..n as i64 {
            let (a, b) = (i * step, (i + 1) * step);
            if d <= step {
                let v: Vec<f64> = pts.iter().filter(|p| p.0 >= a && p.0 < b).map(|p| p.1).collect();
                out.push(v.iter().sum::<f64>() / v.len() as f64);
            } else {
                out.push(pts.iter().rfind(|p| p.0 <= a).unwrap().1);
            }
        }
        Ok(out)
    }
    fn every(&self) -> i64 {
        if self.rows.len() < 2 { 0 } else { self.rows[1].0 - self.rows[0].0 }
    }
}

fn gen_series(s: &mut Src, i: usize, step: i64, n: usize, ncols: usize, midnight: bool) -> Series {
    // Minutes between the values
    let every = match s.below(4) {
        0 | 1 => step,
        2 => {
            let div: Vec<i64> = [2, 3, 4, 5, 6, 7, 8, 12, 24, 48, 96].into_iter().filter(|k| step % k == 0).collect();
            if s.chance(1, 4) {
                // Shorter, but not evenly
                (step * s.int(2, 9) / 10).max(1)
            } else {
                step / *s.pick(&div)
            }
        }
        _ => {
            if s.chance(1, 3) {
                // Longer, but not by a whole number
                let u = *s.pick(&[step / 2, step / 3, step / 4, 1]);
                step + u.max(1) * s.int(1, 7)
            } else {
                step * s.int(2, 8)
            }
        }
    };
    let total = step * n as i64;
    let before = if s.chance(1, 3) { s.size(0, 5) as i64 } else { 0 };
    let after = if s.chance(1, 3) { s.size(0, 5) as i64 } else { 0 };
    let last = (total - step + every - 1) / every;
    // Enough values to fill the last step
    let fill = if every < step { (step / every) - 1 } else { 0 };
    let mut stamps: Vec<i64> = (-before..=(last + fill + after).max(1)).map(|k| k * every).collect();
    if s.chance(1, 4) {
        // Something that does not fit
        match s.below(5) {
            0 => {
                let o = s.int(1, every.max(2) - 1);
                stamps.iter_mut().for_each(|x| *x += o);
            }
            1 => {
                let i = s.us(stamps.len());
                stamps.remove(i);
            }
            2 => {
                let i = s.us(stamps.len());
                stamps.insert(i, stamps[i]);
            }
            3 => {
                let k = s.size(1, stamps.len());
                stamps.truncate(k);
            }
            _ => {
                let k = s.size(1, stamps.len()) - 1;
                stamps.drain(..k);
            }
        }
    }
    let mut cols: Vec<String> = Vec::new();
    while cols.len() < ncols {
        let c = if s.bool() { s.pick(COLS).to_string() } else { format!("c{}", cols.len()) };
        if !cols.contains(&c) {
            cols.push(c);
        }
    }
    let whole: Vec<bool> = (0..ncols).map(|_| s.chance(1, 3)).collect();
    let rows: Vec<(i64, Vec<f64>)> = stamps
        .into_iter()
        .map(|m| (m, whole.iter().map(|w| if *w { s.int(0, 50) as f64 } else { s.num(-10.0, 30.0, 0.125) }).collect()))
        .collect();
    let days = midnight && rows.iter().all(|r| r.0 % 1440 == 0);
    let named = s.bool();
    let pandas = s.chance(1, 4).then(|| {
        let how = *s.pick(&["csv", "csv", "excel", "hdf"]);
        let (mut sep, mut skip, mut kwargs) = (',', 0, json!({}));
        if how == "csv" && s.bool() && !cols.iter().any(|c| c.contains(',')) {
            sep = *s.pick(&[';', '|']);
            kwargs["sep"] = json!(sep);
        }
        if how == "csv" && s.bool() {
            skip = s.us(3);
            kwargs["skiprows"] = json!(skip);
        }
        for (k, v) in [("key", json!("a")), ("na_values", json!(["", "x", 1.5])), ("dtype", json!({"flow": "float64", "more": {"a": [1]}})), ("memory_map", json!(true)), ("nrows", json!(null)), ("scale", json!(0.5)), ("header", json!(0))] {
            if s.chance(1, 5) {
                kwargs[k] = v;
            }
        }
        Pandas { how, unit: *s.pick(&["ns", "us", "ms"]), sep, skip, kwargs }
    });
    let ending = match &pandas {
        Some(p) if p.how == "excel" => *s.pick(&["xlsx", "XLSX"]),
        Some(p) if p.how == "hdf" => *s.pick(&["h5", "H5"]),
        _ => if s.chance(1, 6) { "CSV" } else { "csv" },
    };
    Series {
        name: format!("ts{i}"),
        file: format!("ts{i}.{ending}"),
        pandas,
        checksum: None,
        absolute: s.chance(1, 6),
        time_col: named.then(|| s.pick(&["time", "Date", "the time", "0"]).to_string()),
        time_pos: if named { s.us(ncols + 1) } else { 0 },
        rows,
        cols,
        whole,
        infer: s.chance(1, 4).then(|| s.size(1, 200)),
        stamp: if days { s.below(3) as u8 } else { s.size(1, 2) as u8 },
    }
}

fn c19_series(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let hours = match s.below(3) {
        0 => *s.pick(&[1, 2, 3, 6, 8, 12, 5, 7]),
        1 => 24,
        _ => 24 * *s.pick(&[2, 3, 5, 7, 10, 30]),
    };
    let step = hours * 60;
    let n = s.size(1, 12);
    let date = gen_date(s);
    let start = if s.chance(1, 4) { date.at(s.int(0, 23) as i8, *s.pick(&[0, 30]), 0, 0) } else { date.at(0, 0, 0, 0) };
    let midnight = start.hour() == 0 && start.minute() == 0;
    let size = s.size(1, 4);
    // The scenarios of the group that run
    let mut idx: Vec<usize> = (0..size).collect();
    let subset = match s.below(4) {
        0 => {
            let a = s.us(size);
            let b = s.size(a + 1, size);
            idx = (a..b).collect();
            Some(json!({"type": "Slice", "start": a, "end": b}))
        }
        1 => {
            s.shuffle(&mut idx);
            let k = s.size(1, size);
            idx.truncate(k);
            let given = idx.clone();
            // Whichever way they are listed, scenarios run in the order of the group
            idx.sort();
            Some(json!({"type": "Indices", "indices": given}))
        }
        _ => None,
    };
    let mut group = json!({"name": "g", "size": size});
    if let Some(x) = subset {
        group["subset"] = x;
    }
    let nseries = s.size(1, 2);
    let mut series: Vec<Series> = Vec::new();
    for i in 0..nseries {
        let scen = s.bool();
        let ncols = if scen { size } else { s.size(1, 3) };
        series.push(gen_series(s, i, step, n, ncols, midnight));
    }
    let dir = scratch_dir("c19");
    let mut wrong = false;
    for x in &mut series {
        x.write(s, &dir, start);
        if s.chance(1, 30) {
            let (c, w) = crate::tables::checksum(s, &dir.join(&x.file));
            x.checksum = Some(c);
            wrong |= w;
        }
        if let Some(p) = &x.pandas {
            info.label(match p.how {
                "csv" => "pandas-csv",
                "excel" => "pandas-excel",
                _ => "pandas-hdf",
            });
        }
    }
    let mut params = Vec::new();
    let mut probes = Vec::new();
    let mut uprobes = Vec::new();
    let mut want: Vec<Vec<Vec<f64>>> = Vec::new();
    let mut uwant: Vec<Vec<Vec<f64>>> = Vec::new();
    // Any reason the model should not load
    let mut refused: Option<&'static str> = None;
    for x in &series {
        if let Err(e) = x.aligned(0, step, n) {
            refused = Some(e);
        }
    }
    if wrong {
        refused = Some("wrong checksum");
    }
    let mut out_of_range = false;
    for i in 0..s.size(1, 4) {
        let name = format!("p{i}");
        let x = s.pick(&series).clone();
        let mut r = json!({"type": "Timeseries", "name": x.name});
        let by_scenario = x.cols.len() == size && s.bool();
        let cols: Vec<usize> = if by_scenario {
            r["columns"] = json!({"type": "Scenario", "name": "g"});
            idx.clone()
        } else {
            let c = s.us(x.cols.len());
            if x.cols.len() > 1 || s.bool() {
                r["columns"] = json!({"type": "Column", "name": x.cols[c]});
            }
            vec![c; idx.len()]
        };
        if refused.is_some() {
            params.push(json!({"meta": {"name": name}, "type": "Negative", "parameter": r}));
            continue;
        }
        let per: Vec<Vec<f64>> = cols.iter().map(|c| x.aligned(*c, step, n).unwrap()).collect();
        let table: Vec<Vec<f64>> = (0..n).map(|t| per.iter().map(|p| p[t]).collect()).collect();
        // A whole number can be an index
        let all_whole = if by_scenario { x.whole.iter().all(|w| *w) } else { x.whole[cols[0]] };
        if all_whole && x.every() >= step && s.chance(2, 3) {
            params.push(json!({"meta": {"name": name}, "type": "AggregatedIndex", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [r]}));
            uprobes.push(u_before(&name));
            uwant.push(table);
            info.label("index");
        } else {
            params.push(json!({"meta": {"name": name}, "type": "Negative", "parameter": r}));
            probes.push(p_before(&name));
            want.push(table.iter().map(|r| r.iter().map(|v| -v).collect()).collect());
        }
        if by_scenario {
            info.label("scenario-columns");
        }
    }
    if s.chance(1, 12) {
        // Things that do not exist
        let x = s.pick(&series).clone();
        let r = match s.below(4) {
            0 => json!({"type": "Timeseries", "name": "absent"}),
            1 => json!({"type": "Timeseries", "name": x.name, "columns": {"type": "Column", "name": "absent"}}),
            2 => json!({"type": "Timeseries", "name": x.name, "columns": {"type": "Scenario", "name": "absent"}}),
            _ => {
                if x.cols.len() > 1 {
                    json!({"type": "Timeseries", "name": x.name})
                } else {
                    json!({"type": "Timeseries", "name": ""})
                }
            }
        };
        params.push(json!({"meta": {"name": "bad"}, "type": "Negative", "parameter": r}));
        refused = Some("absent reference");
        out_of_range = true;
    }
    let net = json!({
        "nodes": [
            {"meta": {"name": "in"}, "type": "Input", "max_flow": lit(5.0)},
            {"meta": {"name": "out"}, "type": "Output", "cost": lit(-10.0)},
        ],
        "edges": [{"from_node": "in", "to_node": "out"}],
        "parameters": params,
        "timeseries": series.iter().map(|x| x.json(&dir)).collect::<Vec<_>>(),
    });
    let doc = document(time_section(start, hours, n), Some(json!({"groups": [group]})), net);
    info.desc(format!("{doc}\n{series:?}"));
    let r = probed(&doc, Some(&dir), probes, uprobes);
    drop(dir);
    let shown = || format!("{doc}\n{series:?}");
    let (m, d) = match (r, refused) {
        (Err(e), _) if e.starts_with("panic") => return fail("panic", format!("{e}: {}", shown())),
        (Err(_), Some(w)) => {
            info.label(w);
            info.nontrivial = !out_of_range;
            return Ok(());
        }
        (Ok(_), Some(w)) => return fail("accepted", format!("{w}: {}", shown())),
        (Err(e), None) => return fail("refused", format!("{e}: {}", shown())),
        (Ok(x), None) => x,
    };
    if let Err(e) = run_model(&m, Sol::Highs) {
        return fail("run", format!("{e}: {}", shown()));
    }
    let got = d.table();
    check!(got.len() == n, "steps", "{} steps, not {n}: {}", got.len(), shown());
    for t in 0..n {
        for sc in 0..idx.len() {
            for (i, w) in want.iter().enumerate() {
                let (a, b) = (got[t][sc][i], w[t][sc]);
                check!((a - b).abs() <= 1e-9 * b.abs().max(1.0), "value", "parameter {i} at step {t}, scenario {sc}: {a}, expected {b}: {}", shown());
            }
        }
    }
    let ui = d.itable();
    for t in 0..n {
        for sc in 0..idx.len() {
            for (i, w) in uwant.iter().enumerate() {
                check!(ui[t][sc][i] as f64 == w[t][sc], "index", "index {i} at step {t}, scenario {sc}: {}, expected {}: {}", ui[t][sc][i], w[t][sc], shown());
            }
        }
    }
    for x in &series {
        info.label(match x.every().cmp(&step) {
            std::cmp::Ordering::Less => "averaged",
            std::cmp::Ordering::Equal => "as-is",
            std::cmp::Ordering::Greater => "held",
        });
    }
    info.nontrivial = n > 1;
    info.count("values", (n * idx.len() * (want.len() + uwant.len())) as u64);
    Ok(())
}

/// Files and models that cannot be aligned give an error, never wrong values.
fn c19_refused(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let dir = scratch_dir("c19r");
    let date = gen_date(s);
    let start = date.at(0, 0, 0, 0);
    let n = s.size(2, 6);
    let size = s.size(2, 5);
    let mut group = json!({"name": "g", "size": size});
    let mut ncols = 1;
    let mut columns: Option<Value> = None;
    let mut time = time_section(start, 24, n);
    let mut text: Option<String> = None;
    let mut url = "ts.csv".to_string();
    let mut twice = false;
    let mut time_col: Option<&str> = None;
    let mut long = n as i64 + 40;
    let what = match s.below(9) {
        0 => {
            // Fewer columns than scenarios
            ncols = s.size(1, size - 1);
            columns = Some(json!({"type": "Scenario", "name": "g"}));
            if s.bool() {
                let a = s.us(ncols + 1);
                group["subset"] = match s.below(2) {
                    0 => json!({"type": "Slice", "start": a, "end": size}),
                    _ => json!({"type": "Indices", "indices": [size - 1, a]}),
                };
            }
            "few columns"
        }
        1 => {
            time["timestep"] = json!({"type": "Frequency", "freq": s.pick(&["1mo", "2mo", "1y"])});
            let months = s.int(2, 14);
            time["end"] = json!(start.checked_add(months.months()).unwrap().to_string());
            if time["timestep"]["freq"] == "1y" {
                time["end"] = json!(start.checked_add(4.years()).unwrap().to_string());
            }
            long = 1600;
            "uneven model steps"
        }
        2 => {
            url = s.pick(&["ts.parquet", "ts.xlsx", "ts", "ts.", "ts.json"]).to_string();
            "extension"
        }
        3 => {
            url = "absent.csv".into();
            "no file"
        }
        4 => {
            text = Some(s.pick(&["", "\n", "time\n", "time,a\n", "time,a\nx,y\n", "time,a\n2020-01-01\n", "time,a\n1,2\n", "\"", ",\n,\n", "time,a\n\n\n"]).to_string());
            "odd file"
        }
        5 => {
            twice = true;
            "duplicate name"
        }
        6 => {
            time_col = Some(*s.pick(&["absent", "", "c0"]));
            "time column"
        }
        7 => {
            ncols = 0;
            "no columns"
        }
        _ => {
            columns = Some(json!({"type": "Column", "name": if s.bool() { "time" } else { "C0" }}));
            "column"
        }
    };
    info.label(what);
    if what != "no file" {
        let t = text.unwrap_or_else(|| {
            let mut x = String::from("time");
            (0..ncols).for_each(|c| x += &format!(",c{c}"));
            x.push('\n');
            for i in 0..long {
                x += &plus(start, i * 1440).date().to_string();
                (0..ncols).for_each(|c| x += &format!(",{}.5", i * 10 + c as i64));
                x.push('\n');
            }
            x
        });
        std::fs::write(dir.join(&url), t).unwrap();
    }
    let mut ts = json!({"type": "Polars", "meta": {"name": "ts"}, "url": url});
    if let Some(t) = time_col {
        ts["time_col"] = json!(t);
    }
    let mut r = json!({"type": "Timeseries", "name": "ts"});
    if let Some(c) = columns {
        r["columns"] = c;
    }
    let net = json!({
        "nodes": [
            {"meta": {"name": "in"}, "type": "Input", "max_flow": lit(5.0)},
            {"meta": {"name": "out"}, "type": "Output", "cost": lit(-10.0)},
        ],
        "edges": [{"from_node": "in", "to_node": "out"}],
        "parameters": [{"meta": {"name": "p"}, "type": "Negative", "parameter": r}],
        "timeseries": if twice { vec![ts.clone(), ts] } else { vec![ts] },
    });
    let doc = document(time, Some(json!({"groups": [group]})), net);
    info.desc(format!("{what}: {doc}"));
    let r = probed(&doc, Some(&dir), vec![p_before("p")], vec![]);
    drop(dir);
    info.nontrivial = true;
    match r {
        Err(e) if e.starts_with("panic") => fail("panic", format!("{what}: {e}: {doc}")),
        Err(_) => Ok(()),
        Ok((m, d)) => {
            if what == "uneven model steps" {
                // Right values, or none at all
                if run_model(&m, Sol::Highs).is_ok() {
                    let steps = d.steps.lock().unwrap().clone();
                    for (t, row) in d.table().iter().enumerate() {
                        let day = |x: DateTime| (x.duration_since(start).as_hours() as f64 / 24.0).round() as i64;
                        let a = day(steps[t].1);
                        let b = a + steps[t].2.round() as i64;
                        let w = -(a..b).map(|i| i as f64 * 10.0 + 0.5).sum::<f64>() / (b - a) as f64;
                        check!((row[0][0] - w).abs() < 1e-6, "uneven", "step {t}, days {a} to {b}: {}, expected {w}: {doc}", row[0][0]);
                    }
                    info.label("uneven-handled");
                }
                return Ok(());
            }
            match run_model(&m, Sol::Highs) {
                Err(e) if e.starts_with("panic") => fail("panic", format!("{what}: {e}: {doc}")),
                Err(_) => Ok(()),
                Ok(()) => fail("accepted", format!("{what}: {doc}")),
            }
        }
    }
}

/// The same data under several references: each has its own meaning.
fn c19_names(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let dir = scratch_dir("c19n");
    let start = gen_date(s).at(0, 0, 0, 0);
    let n = s.size(2, 4);
    let size = s.size(2, 3);
    let mut cols: Vec<String> = (0..size).map(|c| format!("c{c}")).collect();
    if s.chance(1, 3) {
        let i = s.us(size);
        cols[i] = "g".into();
    }
    let data: Vec<Vec<i64>> = (0..n).map(|_| (0..size).map(|_| s.int(0, 99)).collect()).collect();
    let mut x = format!("time,{}\n", cols.join(","));
    for (i, r) in data.iter().enumerate() {
        x += &format!("{},{}\n", plus(start, i as i64 * 1440).date(), r.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
    }
    std::fs::write(dir.join("ts.csv"), x).unwrap();
    let mut params = Vec::new();
    let mut probes = Vec::new();
    let mut uprobes = Vec::new();
    let mut want = Vec::new();
    let mut uwant = Vec::new();
    // A node named as the timeseries, with its own parameter named as a column
    let local = s.chance(1, 4);
    for i in 0..s.size(2, 5) {
        let name = format!("p{i}");
        let mut r = json!({"type": "Timeseries", "name": "ts"});
        let scen = s.chance(1, 3);
        let c = s.us(size);
        r["columns"] = if scen { json!({"type": "Scenario", "name": "g"}) } else { json!({"type": "Column", "name": cols[c]}) };
        let pick = if scen { None } else { Some(c) };
        if s.chance(1, 3) {
            params.push(json!({"meta": {"name": name}, "type": "AggregatedIndex", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [r]}));
            uprobes.push(u_before(&name));
            uwant.push(pick);
        } else {
            params.push(json!({"meta": {"name": name}, "type": "Negative", "parameter": r}));
            probes.push(p_before(&name));
            want.push(pick);
        }
    }
    s.shuffle(&mut params);
    let mut input = json!({"meta": {"name": if local { "ts" } else { "in" }}, "type": "Input", "max_flow": lit(5.0)});
    if local {
        input["parameters"] = json!([{"meta": {"name": s.pick(&cols)}, "type": "Constant", "value": lit(1e5)}]);
    }
    let net = json!({
        "nodes": [input, {"meta": {"name": "out"}, "type": "Output", "cost": lit(-10.0)}],
        "edges": [{"from_node": if local { "ts" } else { "in" }, "to_node": "out"}],
        "parameters": params,
        "timeseries": [{"type": "Polars", "meta": {"name": "ts"}, "url": "ts.csv"}],
    });
    let doc = document(time_section(start, 24, n), Some(json!({"groups": [{"name": "g", "size": size}]})), net);
    info.desc(format!("{doc}\n{data:?}"));
    let r = probed(&doc, Some(&dir), probes, uprobes);
    drop(dir);
    let (m, d) = match r {
        Ok(x) => x,
        Err(e) => return fail("names", format!("{e}: {doc}")),
    };
    if let Err(e) = run_model(&m, Sol::Highs) {
        return fail("run", format!("{e}: {doc}"));
    }
    let (g, ug) = (d.table(), d.itable());
    for t in 0..n {
        for sc in 0..size {
            for (i, w) in want.iter().enumerate() {
                let w = -data[t][w.unwrap_or(sc)] as f64;
                check!(g[t][sc][i] == w, "confused", "value {i} at step {t}, scenario {sc}: {}, expected {w}: {doc}", g[t][sc][i]);
            }
            for (i, w) in uwant.iter().enumerate() {
                let w = data[t][w.unwrap_or(sc)] as u64;
                check!(ug[t][sc][i] == w, "confused", "index {i} at step {t}, scenario {sc}: {}, expected {w}: {doc}", ug[t][sc][i]);
            }
        }
    }
    info.nontrivial = !want.is_empty() && !uwant.is_empty();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        rule: "series: more than one step, or data that cannot be aligned; refused: every case; names: a model that reads the data both as numbers and as indices",
        arms: vec![
            Arm { name: "series", quick: 3000, thorough: 16_000, run: c19_series },
            Arm { name: "refused", quick: 1000, thorough: 4000, run: c19_refused },
            Arm { name: "names", quick: 800, thorough: 4000, run: c19_names },
        ],
    }]
}
