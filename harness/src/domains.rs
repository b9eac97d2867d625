//! C06 scenario domains and independence, C07 time domains.

use crate::alloc::{Sol, full, run_model};
use crate::check;
use crate::params::{PNet, all_kinds, gen_pnet};
use crate::runner::{Arm, Fail, Info, Prop, fail, guarded};
use crate::sim::*;
use crate::src::Src;
use jiff::civil::{Date, DateTime, Time};
use ndarray::Array1;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::models::{Model, ModelBuilder, ModelDomain, ModelDomainBuilder};
use pywr_core::network::NetworkBuilder;
use pywr_core::node::{UnresolvedNode, UnresolvedStorageInitialVolume};
use pywr_core::parameters::Array1ParameterBuilder;
use pywr_core::NodeBuilder;
use pywr_core::scenario::*;
use pywr_core::solvers::{HighsSolver, HighsSolverSettingsBuilder};
use pywr_core::timestep::*;
use serde_json::{Value, json};
use std::num::NonZeroU64;

// ---------------------------------------------------------------- scenario domains

#[derive(Clone, Debug)]
enum Sub {
    Slice(usize, usize),
    Indices(Vec<usize>),
    Labels(Vec<String>),
}

#[derive(Clone, Debug)]
struct Grp {
    name: String,
    size: usize,
    labels: Option<Vec<String>>,
    sub: Option<Sub>,
}

#[derive(Clone, Debug)]
enum LI {
    L(String),
    I(usize),
}

#[derive(Clone, Debug)]
struct Dom {
    groups: Vec<Grp>,
    combos: Option<Vec<Vec<LI>>>,
}

/// A subset of 0..n in any order, without repeats, at least one.
fn some_of(s: &mut Src, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    s.shuffle(&mut v);
    let k = s.size(1, n);
    v.truncate(k);
    v
}

impl Dom {
    fn build(&self) -> Result<ScenarioDomain, String> {
        let mut b = ScenarioDomainBuilder::default();
        for g in &self.groups {
            let mut gb = ScenarioGroupBuilder::new(&g.name, g.size);
            if let Some(l) = &g.labels {
                gb = gb.with_labels(l);
            }
            gb = match &g.sub {
                None => gb,
                Some(Sub::Slice(a, z)) => gb.with_subset_slice(*a, *z),
                Some(Sub::Indices(v)) => gb.with_subset_indices(v.clone()),
                Some(Sub::Labels(v)) => gb.with_subset_labels(v),
            };
            b = b.with_group(gb.build().map_err(|e| full(&e))?).map_err(|e| full(&e))?;
        }
        if let Some(c) = &self.combos {
            b = b.with_combinations(
                c.iter()
                    .map(|r| {
                        r.iter()
                            .map(|x| match x {
                                LI::L(l) => ScenarioLabelOrIndex::Label(l.clone()),
                                LI::I(i) => ScenarioLabelOrIndex::Index(*i),
                            })
                            .collect()
                    })
                    .collect(),
            );
        }
        b.build().map_err(|e| full(&e))
    }

    /// The scenarios to run, as positions in the full groups, or why the description is invalid.
    fn expected(&self) -> Result<Vec<Vec<usize>>, &'static str> {
        for (i, g) in self.groups.iter().enumerate() {
            if self.groups[..i].iter().any(|o| o.name == g.name) {
                return Err("duplicate group name");
            }
            if let Some(l) = &g.labels {
                if l.len() != g.size {
                    return Err("wrong number of labels");
                }
            }
            match &g.sub {
                Some(Sub::Slice(a, z)) if a >= z || *z > g.size => return Err("bad slice"),
                Some(Sub::Indices(v)) if v.iter().any(|i| *i >= g.size) => return Err("subset index out of range"),
                Some(Sub::Labels(v)) => match &g.labels {
                    None => return Err("label subset without labels"),
                    Some(l) if v.iter().any(|x| !l.contains(x)) => return Err("unknown subset label"),
                    _ => {}
                },
                _ => {}
            }
        }
        if self.groups.is_empty() {
            return Ok(vec![vec![0]]);
        }
        if let Some(c) = &self.combos {
            if self.groups.iter().any(|g| g.sub.is_some()) {
                return Err("subsets and combinations");
            }
            let mut out = Vec::new();
            for r in c {
                if r.len() != self.groups.len() {
                    return Err("combination length");
                }
                let mut row = Vec::new();
                for (x, g) in r.iter().zip(&self.groups) {
                    row.push(match x {
                        LI::I(i) if *i >= g.size => return Err("combination index out of range"),
                        LI::I(i) => *i,
                        LI::L(l) => match g.labels.as_ref().and_then(|ls| ls.iter().position(|y| y == l)) {
                            Some(i) => i,
                            None => return Err("unknown combination label"),
                        },
                    });
                }
                out.push(row);
            }
            return Ok(out);
        }
        let mut out = vec![vec![]];
        for g in &self.groups {
            let mut next = Vec::new();
            for o in &out {
                for i in 0..g.size {
                    let take = match &g.sub {
                        None => true,
                        Some(Sub::Slice(a, z)) => i >= *a && i < *z,
                        Some(Sub::Indices(v)) => v.contains(&i),
                        Some(Sub::Labels(v)) => v.contains(&g.labels.as_ref().unwrap()[i]),
                    };
                    if take {
                        let mut x: Vec<usize> = o.clone();
                        x.push(i);
                        next.push(x);
                    }
                }
            }
            out = next;
        }
        Ok(out)
    }
}

fn gen_dom(s: &mut Src, bad: bool) -> Dom {
    let n = s.size(1, 3);
    let mut groups = Vec::new();
    for i in 0..n {
        let size = s.size(1, 4);
        let labels = if s.bool() { Some((0..size).map(|k| format!("{}{k}", ["x", "lbl ", "s-"][i])).collect()) } else { None };
        groups.push(Grp { name: format!("grp{i}"), size, labels, sub: None });
    }
    let mut combos = None;
    if s.chance(1, 3) {
        let k = s.size(1, 5);
        combos = Some(
            (0..k)
                .map(|_| {
                    groups
                        .iter()
                        .map(|g: &Grp| {
                            let i = s.us(g.size);
                            match &g.labels {
                                Some(l) if s.bool() => LI::L(l[i].clone()),
                                _ => LI::I(i),
                            }
                        })
                        .collect()
                })
                .collect(),
        );
    } else {
        for g in groups.iter_mut() {
            g.sub = match s.below(4) {
                0 => None,
                1 => {
                    let a = s.us(g.size);
                    Some(Sub::Slice(a, s.size(a + 1, g.size)))
                }
                2 => Some(Sub::Indices(some_of(s, g.size))),
                _ => match g.labels.clone() {
                    Some(l) => Some(Sub::Labels(some_of(s, g.size).into_iter().map(|i| l[i].clone()).collect())),
                    None => None,
                },
            };
        }
    }
    let mut d = Dom { groups, combos };
    if bad {
        let g = s.us(n);
        let size = d.groups[g].size;
        match s.below(8) {
            0 => {
                let mut x = d.groups[g].clone();
                x.sub = None;
                d.groups.push(x);
                d.combos = None;
            }
            1 => d.groups[g].sub = Some(Sub::Slice(size, size)),
            2 => d.groups[g].sub = Some(Sub::Slice(0, size + 1)),
            3 => d.groups[g].sub = Some(Sub::Indices(vec![0, size])),
            4 => d.groups[g].sub = Some(Sub::Labels(vec!["nobody".into()])),
            5 => d.groups[g].labels = Some((0..size + 1).map(|i| format!("l{i}")).collect()),
            6 => {
                for g in d.groups.iter_mut() {
                    g.sub = None;
                }
                let mut row: Vec<LI> = d.groups.iter().map(|_| LI::I(0)).collect();
                match s.below(4) {
                    0 => row[g] = LI::I(size),
                    1 => row[g] = LI::L("nobody".into()),
                    2 => {
                        row.pop();
                    }
                    _ => row.push(LI::I(0)),
                }
                d.combos = Some(vec![row]);
            }
            _ => {
                d.groups[g].sub = Some(Sub::Slice(0, 1));
                d.combos = Some(vec![d.groups.iter().map(|_| LI::I(0)).collect()]);
            }
        }
    }
    d
}

/// The domain of a model, built directly or from a document.
enum Built {
    Core(ScenarioDomain),
    Doc(Box<pywr_core::models::Model>),
    Multi(Box<pywr_core::models::MultiNetworkModel>),
}

impl std::ops::Deref for Built {
    type Target = ScenarioDomain;
    fn deref(&self) -> &ScenarioDomain {
        match self {
            Built::Core(d) => d,
            Built::Doc(m) => m.domain().scenarios(),
            Built::Multi(m) => m.domain().scenarios(),
        }
    }
}

/// The model (of one, or of several networks) of a document with these time and scenario sections.
fn of_document(time: Value, scenarios: Option<Value>, multi: bool) -> Result<Built, String> {
    let net = json!({
        "nodes": [{"meta": {"name": "in"}, "type": "Input"}, {"meta": {"name": "out"}, "type": "Output"}],
        "edges": [{"from_node": "in", "to_node": "out"}],
    });
    if multi {
        let mut v = json!({"metadata": {"title": "generated"}, "time": time, "networks": [
            {"name": "a", "network": net, "transfers": []}, {"name": "b", "network": net, "transfers": []}]});
        if let Some(x) = scenarios {
            v["scenarios"] = x;
        }
        let m: pywr_schema::MultiNetworkModelSchema = v.to_string().parse().map_err(|e: pywr_schema::ModelSchemaReadError| e.to_string())?;
        let b = m.create_model_builder(None, None).map_err(|e| full(&e))?;
        return Ok(Built::Multi(Box::new(b.build().map_err(|e| full(&e))?)));
    }
    let m = crate::schema::read(&crate::schema::document(time, scenarios, net))?;
    let b = m.create_model_builder(None, None).map_err(|e| full(&e))?;
    Ok(Built::Doc(Box::new(b.build().map_err(|e| full(&e))?)))
}

impl Dom {
    pub fn json(&self) -> Value {
        let groups: Vec<Value> = self
            .groups
            .iter()
            .map(|g| {
                let mut v = json!({"name": g.name, "size": g.size});
                if let Some(l) = &g.labels {
                    v["labels"] = json!(l);
                }
                match &g.sub {
                    None => {}
                    Some(Sub::Slice(a, z)) => v["subset"] = json!({"type": "Slice", "start": a, "end": z}),
                    Some(Sub::Indices(x)) => v["subset"] = json!({"type": "Indices", "indices": x}),
                    Some(Sub::Labels(x)) => v["subset"] = json!({"type": "Labels", "labels": x}),
                }
                v
            })
            .collect();
        let mut v = json!({"groups": groups});
        if let Some(c) = &self.combos {
            v["combinations"] = c
                .iter()
                .map(|r| {
                    r.iter()
                        .map(|x| match x {
                            LI::L(l) => json!(l),
                            LI::I(i) => json!(i),
                        })
                        .collect::<Value>()
                })
                .collect();
        }
        v
    }
}

fn c06_domain(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    c06_domain_of(s, info, false)
}

fn c06_document(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    c06_domain_of(s, info, true)
}

fn c06_domain_of(s: &mut Src, info: &mut Info, doc: bool) -> Result<(), Fail> {
    let bad = s.chance(1, 3);
    let d = if s.chance(1, 40) { Dom { groups: vec![], combos: None } } else { gen_dom(s, bad) };
    let multi = doc && s.chance(1, 4);
    let built = guarded(|| {
        if doc {
            let time = json!({"start": "2020-01-01", "end": "2020-01-02", "timestep": {"type": "Days", "days": 1}});
            let sc = (!d.groups.is_empty() || s.bool()).then(|| d.json());
            of_document(time, sc, multi)
        } else {
            d.build().map(Built::Core)
        }
    });
    let got = match built {
        Ok(x) => x,
        Err(p) => return fail("panic", format!("{p}\n{d:?}")),
    };
    info.desc(format!("{d:?}"));
    if multi {
        info.label("several-networks");
    }
    let want = d.expected();
    let (got, want) = match (got, want) {
        (Err(_), Err(w)) => {
            info.label("rejected");
            info.label(w);
            info.nontrivial = true;
            return Ok(());
        }
        (Ok(g), Ok(w)) => (g, w),
        (Ok(g), Err(w)) => return fail("accepted", format!("{w} was accepted as {} scenarios: {d:?}", g.len())),
        (Err(e), Ok(_)) => return fail("rejected-valid", format!("valid scenarios were rejected: {e}\n{d:?}")),
    };
    check!(got.len() == want.len(), "count", "{} scenarios instead of {}: {d:?}", got.len(), want.len());
    for (k, (si, w)) in got.indices().iter().zip(&want).enumerate() {
        check!(si.simulation_id() == k, "simulation-id", "scenario {k} has id {}: {d:?}", si.simulation_id());
        let mut labels = Vec::new();
        for (gi, x) in w.iter().enumerate() {
            let schema = si.schema_index_for_group(gi);
            check!(schema == *x, "schema-index", "scenario {k} selects {schema} of group {gi}, expected {x}: {d:?}");
            let sim = si.simulation_index_for_group(gi);
            check!(si.simulation_indices()[gi] == sim, "indices", "simulation_indices differ");
            if let Some(g) = d.groups.get(gi) {
                let sub = got.group_scenario_subset(&g.name).map_err(|e| Fail { sig: "group".into(), msg: e.to_string() })?;
                let via = match sub {
                    Some(l) => l.get(sim).copied(),
                    None => Some(sim),
                };
                check!(
                    via == Some(*x),
                    "subset-map",
                    "scenario {k}: data column {sim} of group {gi} holds {via:?}, expected {x} (columns {sub:?}): {d:?}"
                );
                labels.push(g.labels.as_ref().map(|l| l[*x].clone()).unwrap_or_else(|| x.to_string()));
                check!(got.group_size(&g.name).ok() == Some(g.size), "group-size", "{d:?}");
                check!(got.group_index(&g.name).ok() == Some(gi), "group-index", "{d:?}");
            } else {
                labels.push("0".to_string());
            }
        }
        check!(si.labels() == labels, "labels", "scenario {k}: labels {:?}, expected {labels:?}: {d:?}", si.labels());
        check!(si.label() == labels.join("-"), "label", "scenario {k}: label {:?}: {d:?}", si.label());
    }
    check!(got.group_index("no such group").is_err(), "unknown-group", "{d:?}");
    info.nontrivial = d.groups.len() > 1;
    info.label(if d.combos.is_some() { "combinations" } else { "product" });
    Ok(())
}

// ---------------------------------------------------------------- independence of scenarios

// On/off decisions are left out: HiGHS resolves ties between equally good integer solutions differently
// from one solve to the next of the very same problem.
enum Net {
    Water(Spec),
    Params(PNet),
}

impl Net {
    fn random(s: &mut Src) -> Net {
        if s.bool() {
            let o = GenOpts { storages: 2, aggs: 1, vss: 2, max_t: 6, max_s: 3, ..Default::default() };
            Net::Water(gen_spec(s, &o))
        } else {
            Net::Params(gen_pnet(s, &all_kinds(), &all_kinds(), 6))
        }
    }
    fn sizes(&self) -> [usize; 2] {
        match self {
            Net::Water(n) => n.sizes,
            Net::Params(n) => n.sizes,
        }
    }
    fn show(&self) -> String {
        match self {
            Net::Water(n) => n.show(),
            Net::Params(n) => n.show(),
        }
    }
    fn time(&self) -> (DateTime, i64, usize) {
        match self {
            Net::Water(n) => (n.start.at(0, 0, 0, 0), n.step_hours, n.t),
            Net::Params(n) => (n.start, n.step_hours, n.t),
        }
    }
    fn domain(&self, sb: ScenarioDomainBuilder) -> ModelDomain {
        let (a, h, t) = self.time();
        domain_with(a, h, t, sb)
    }
    fn build(&self, d: ModelDomain) -> Result<(Model, ProbeData), Fail> {
        let r = guarded(|| match self {
            Net::Water(n) => build_model_in(n, d).map(|(m, p, _)| (m, p)),
            Net::Params(n) => n.build_in(d).map(|(m, p, _)| (m, p)),
        });
        match r {
            Ok(Ok(x)) => Ok(x),
            Ok(Err(e)) => fail("build-error", format!("{e}\n{}", self.show())),
            Err(p) => fail("build-panic", format!("{p}\n{}", self.show())),
        }
    }
}

fn both(sizes: [usize; 2]) -> ScenarioDomainBuilder {
    let mut sb = ScenarioDomainBuilder::default();
    for (i, n) in sizes.iter().enumerate() {
        sb = sb.with_group(ScenarioGroupBuilder::new(&format!("g{i}"), *n).build().unwrap()).unwrap();
    }
    sb
}

fn same(a: &[f64], b: &[f64]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    (0..a.len()).find(|i| !(a[*i] == b[*i] || (a[*i].is_nan() && b[*i].is_nan())))
}

fn c06_subset(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let net = Net::random(s);
    let sizes = net.sizes();
    let (model, data) = net.build(net.domain(both(sizes)))?;
    let e_full = run_model(&model, Sol::Highs);
    let fullt = data.table();
    info.desc(net.show());

    // Restrict the run to some scenarios.
    let mut d = Dom {
        groups: (0..2)
            .map(|i| Grp { name: format!("g{i}"), size: sizes[i], labels: Some((0..sizes[i]).map(|k| format!("l{k}")).collect()), sub: None })
            .collect(),
        combos: None,
    };
    if s.chance(1, 3) {
        let k = s.size(1, 4);
        d.combos = Some((0..k).map(|_| sizes.iter().map(|n| LI::I(s.us(*n))).collect()).collect());
    } else {
        for g in d.groups.iter_mut() {
            g.sub = match s.below(4) {
                0 => None,
                1 => {
                    let a = s.us(g.size);
                    Some(Sub::Slice(a, s.size(a + 1, g.size)))
                }
                2 => Some(Sub::Indices(some_of(s, g.size))),
                _ => Some(Sub::Labels(some_of(s, g.size).into_iter().map(|i| format!("l{i}")).collect())),
            };
        }
    }
    let chosen = d.expected().expect("valid");
    let mut sb = ScenarioDomainBuilder::default();
    for g in &d.groups {
        let mut gb = ScenarioGroupBuilder::new(&g.name, g.size).with_labels(g.labels.as_ref().unwrap());
        gb = match &g.sub {
            None => gb,
            Some(Sub::Slice(a, z)) => gb.with_subset_slice(*a, *z),
            Some(Sub::Indices(v)) => gb.with_subset_indices(v.clone()),
            Some(Sub::Labels(v)) => gb.with_subset_labels(v),
        };
        sb = sb.with_group(gb.build().unwrap()).unwrap();
    }
    if let Some(c) = &d.combos {
        sb = sb.with_combinations(
            c.iter().map(|r| r.iter().map(|x| if let LI::I(i) = x { *i } else { 0 }).collect::<Vec<usize>>()).collect(),
        );
    }
    info.desc(format!("restricted to {d:?}"));
    let (m2, d2) = net.build(net.domain(sb))?;
    let e_sub = run_model(&m2, Sol::Highs);
    let subt = d2.table();
    for e in [&e_full, &e_sub] {
        if let Err(e) = e {
            check!(!e.starts_with("panic") || e.contains("overflow") || e.contains("Mass-balance error detected"), "panic", "{e}\n{}", net.show());
        }
    }
    let mut compared = 0u64;
    for t in 0..fullt.len().min(subt.len()) {
        check!(subt[t].len() == chosen.len(), "count", "{} scenarios were run, expected {}: {d:?}", subt[t].len(), chosen.len());
        for (k, c) in chosen.iter().enumerate() {
            let f = &fullt[t][c[0] * sizes[1] + c[1]];
            let g = &subt[t][k];
            if let Some(col) = same(f, g) {
                return fail(
                    "scenario-depends-on-others",
                    format!(
                        "step {t} column {col}: scenario {c:?} gives {:?} among all scenarios, {:?} when restricted to {chosen:?} ({d:?})\n{}",
                        f.get(col),
                        g.get(col),
                        net.show()
                    ),
                );
            }
            compared += f.len() as u64;
        }
    }
    // A run only stops for a scenario that takes part in it.
    if subt.len() < fullt.len() {
        return fail(
            "only-restricted-stopped",
            format!("restricted to {chosen:?} the run stopped after {} of {} steps: {:?}\n{}", subt.len(), fullt.len(), e_sub, net.show()),
        );
    }
    if chosen.len() == sizes[0] * sizes[1] && d.combos.is_none() {
        check!(subt.len() == fullt.len(), "only-full-stopped", "{:?} against {:?}\n{}", e_full, e_sub, net.show());
    }
    info.count("compared", compared);
    info.nontrivial = compared > 0 && sizes[0] * sizes[1] > 1;
    if e_full.is_err() {
        info.label("run-error");
    }
    if d.combos.is_some() {
        info.label("combinations");
    }
    Ok(())
}

fn c06_threads(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let net = Net::random(s);
    let sizes = net.sizes();
    let (model, data) = net.build(net.domain(both(sizes)))?;
    let e1 = run_model(&model, Sol::Highs);
    let a = data.table();
    let (model, data) = net.build(net.domain(both(sizes)))?;
    let threads = s.size(1, 4);
    let e2 = match guarded(|| {
        let st = HighsSolverSettingsBuilder::default().parallel().threads(threads).build();
        model.run::<HighsSolver>(&st).map(|_| ()).map_err(|e| full(&e))
    }) {
        Ok(x) => x,
        Err(p) => Err(format!("panic: {p}")),
    };
    let b = data.table();
    info.desc(net.show());
    for e in [&e1, &e2] {
        if let Err(e) = e {
            check!(!e.starts_with("panic") || e.contains("overflow") || e.contains("Mass-balance error detected"), "panic", "{e}\n{}", net.show());
        }
    }
    check!(e1.is_ok() == e2.is_ok(), "outcome", "one after the other {e1:?}, with {threads} threads {e2:?}\n{}", net.show());
    check!(a.len() == b.len(), "steps", "{} steps against {} with {threads} threads\n{}", a.len(), b.len(), net.show());
    for t in 0..a.len() {
        for k in 0..a[t].len() {
            if let Some(col) = same(&a[t][k], &b[t][k]) {
                return fail(
                    "threads-differ",
                    format!(
                        "step {t} scenario {k} column {col}: {} one after the other, {} with {threads} threads\n{}",
                        a[t][k][col], b[t][k][col], net.show()
                    ),
                );
            }
        }
    }
    info.nontrivial = !a.is_empty() && sizes[0] * sizes[1] > 1;
    if e1.is_err() {
        info.label("run-error");
    }
    Ok(())
}

// ---------------------------------------------------------------- time

/// Seconds since 1970-01-01T00:00 (proleptic Gregorian), from our own arithmetic.
pub fn days_civil(y: i64, m: i64, d: i64) -> i64 {
    let mut n = 0;
    let mut yy = 1970;
    while yy < y {
        n += if leap(yy) { 366 } else { 365 };
        yy += 1;
    }
    while yy > y {
        yy -= 1;
        n -= if leap(yy) { 366 } else { 365 };
    }
    for k in 1..m {
        n += mlen(y, k);
    }
    n + d - 1
}

fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}

pub fn mlen(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

pub fn nanos(dt: DateTime) -> i128 {
    let d = days_civil(dt.year() as i64, dt.month() as i64, dt.day() as i64);
    ((d * 86400 + dt.hour() as i64 * 3600 + dt.minute() as i64 * 60 + dt.second() as i64) as i128) * 1_000_000_000
        + dt.subsec_nanosecond() as i128
}

/// (start + k·months, day clipped to the month's length) + k·rest
pub fn at(start: DateTime, months: i64, rest: i128, k: i64) -> i128 {
    let total = start.year() as i64 * 12 + start.month() as i64 - 1 + months * k;
    let (y, m) = (total.div_euclid(12), total.rem_euclid(12) + 1);
    let d = (start.day() as i64).min(mlen(y, m));
    let tod = nanos(start) - days_civil(start.year() as i64, start.month() as i64, start.day() as i64) as i128 * DAY;
    days_civil(y, m, d) as i128 * DAY + tod + rest * k as i128
}

pub const DAY: i128 = 86_400_000_000_000;

#[derive(Debug, Clone)]
pub struct Cal {
    pub start: DateTime,
    pub end: DateTime,
    pub dur: TimestepDuration,
    pub months: i64,
    pub rest: i128,
}

pub fn gen_cal(s: &mut Src, long: bool) -> Cal {
    let d = gen_date(s);
    let t = match s.below(4) {
        0 | 1 => Time::midnight(),
        2 => Time::new(s.int(0, 23) as i8, 0, 0, 0).unwrap(),
        _ => Time::new(s.int(0, 23) as i8, s.int(0, 59) as i8, s.int(0, 59) as i8, 0).unwrap(),
    };
    let start = DateTime::from_parts(d, t);
    let (dur, months, rest) = match s.below(3) {
        0 => {
            let h = *s.pick(&[1u64, 2, 3, 6, 12, 5, 24, 36, 48]);
            (TimestepDuration::Hours(NonZeroU64::new(h).unwrap()), 0, DAY / 24 * h as i128)
        }
        1 => {
            let n = *s.pick(&[1u64, 2, 7, 10, 30, 365]);
            (TimestepDuration::Days(NonZeroU64::new(n).unwrap()), 0, DAY * n as i128)
        }
        _ => {
            // A frequency of one or more units.
            let mut txt = String::new();
            let mut months = 0i64;
            let mut rest = 0i128;
            let units: &[(&str, i64, i128)] = &[
                ("mo", 1, 0),
                ("d", 0, DAY),
                ("w", 0, 7 * DAY),
                ("h", 0, DAY / 24),
                ("m", 0, DAY / 1440),
                ("y", 12, 0),
                ("q", 3, 0),
                ("s", 0, DAY / 86400),
            ];
            let k = s.size(1, 2);
            let mut used = Vec::new();
            for _ in 0..k {
                let u = s.us(units.len());
                if used.contains(&u) {
                    continue;
                }
                used.push(u);
                let n = s.int(1, 5) * if units[u].0 == "s" { 600 } else if units[u].0 == "m" { 30 } else { 1 };
                txt.push_str(&format!("{n}{}", units[u].0));
                months += n * units[u].1;
                rest += n as i128 * units[u].2;
            }
            (TimestepDuration::Frequency(txt), months, rest)
        }
    };
    // The end: some steps later, possibly a little before or after a step.
    let n = s.size(0, if long { 400 } else { 30 }) as i64;
    let e = at(start, months, rest, n) + *s.pick(&[0i128, 0, -1, 1]) * *s.pick(&[DAY / 24, DAY, 1_000_000_000]);
    let end = from_nanos(e);
    Cal { start, end, dur, months, rest }
}

pub fn from_nanos(n: i128) -> DateTime {
    let days = n.div_euclid(DAY);
    let rem = n.rem_euclid(DAY);
    let mut y = 1970i64;
    let mut left = days;
    while left < 0 {
        y -= 1;
        left += if leap(y) { 366 } else { 365 };
    }
    while left >= if leap(y) { 366 } else { 365 } {
        left -= if leap(y) { 366 } else { 365 };
        y += 1;
    }
    let mut m = 1;
    while left >= mlen(y, m) as i128 {
        left -= mlen(y, m) as i128;
        m += 1;
    }
    let secs = rem / 1_000_000_000;
    DateTime::from_parts(
        Date::new(y as i16, m as i8, left as i8 + 1).unwrap(),
        Time::new((secs / 3600) as i8, (secs / 60 % 60) as i8, (secs % 60) as i8, (rem % 1_000_000_000) as i32).unwrap(),
    )
}

fn dur_json(d: &TimestepDuration) -> Value {
    match d {
        TimestepDuration::Hours(n) => json!({"type": "Hours", "hours": n}),
        TimestepDuration::Days(n) => json!({"type": "Days", "days": n}),
        TimestepDuration::Frequency(f) => json!({"type": "Frequency", "freq": f}),
    }
}

impl Cal {
    pub fn json(&self) -> Value {
        json!({"start": self.start.to_string(), "end": self.end.to_string(), "timestep": dur_json(&self.dur)})
    }
}

fn c07_steps(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    c07_steps_of(s, info, false)
}

fn c07_document(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    c07_steps_of(s, info, true)
}

/// The time domain, or an error, as built directly or from a document.
fn time_domain(s: &mut Src, start: DateTime, end: DateTime, dur: TimestepDuration, doc: bool) -> Result<TimeDomain, String> {
    if !doc {
        return TimeDomainBuilder::new(start, end, dur).build().map_err(|e| full(&e));
    }
    // A date without a time is midnight.
    let mut text = |d: DateTime| if d.time() == Time::midnight() && s.bool() { d.date().to_string() } else { d.to_string() };
    let v = json!({"start": text(start), "end": text(end), "timestep": dur_json(&dur)});
    let multi = s.chance(1, 4);
    Ok(match of_document(v, None, multi)? {
        Built::Multi(m) => m.domain().time().clone(),
        Built::Doc(m) => m.domain().time().clone(),
        Built::Core(_) => unreachable!(),
    })
}

fn c07_steps_of(s: &mut Src, info: &mut Info, doc: bool) -> Result<(), Fail> {
    if s.chance(1, 20) {
        // Frequencies that define no steps or are not frequencies at all ("x").
        let f = *s.pick(&["0d", "-1d", "-2mo", "0h", "-3h", "-1w", "P1M", "x", "", "1", "daily", "1 fortnight", "1D 2", "7"]);
        let d = gen_date(s).at(0, 0, 0, 0);
        let r = guarded(|| time_domain(s, d, d, TimestepDuration::Frequency(f.to_string()), doc).map(|x| x.len()));
        info.desc(format!("frequency {f}"));
        info.nontrivial = true;
        return match r {
            Ok(Err(_)) => Ok(()),
            Ok(Ok(n)) => fail("accepted", format!("frequency {f} gave {n} steps")),
            Err(p) => fail("panic", format!("frequency {f}: {p}")),
        };
    }
    let c = gen_cal(s, true);
    info.desc(format!("{c:?}"));
    let r = match guarded(|| time_domain(s, c.start, c.end, c.dur.clone(), doc)) {
        Ok(r) => r,
        Err(p) => return fail("panic", format!("{p}: {c:?}")),
    };
    let end = nanos(c.end);
    let mut want = Vec::new();
    let mut k = 0;
    loop {
        let x = at(c.start, c.months, c.rest, k);
        if x > end {
            break;
        }
        want.push(x);
        k += 1;
    }
    let after = at(c.start, c.months, c.rest, k);
    let dom = match r {
        Err(e) => {
            check!(want.is_empty(), "rejected-valid", "{e}: {c:?}");
            info.label("no-steps");
            info.nontrivial = true;
            return Ok(());
        }
        Ok(d) => d,
    };
    check!(!want.is_empty(), "accepted-empty", "{} steps although the end is before the start: {c:?}", dom.len());
    check!(dom.len() == want.len(), "count", "{} steps, expected {}: {c:?}", dom.len(), want.len());
    let mut uniform = true;
    for (i, ts) in dom.timesteps().iter().enumerate() {
        let next = want.get(i + 1).copied().unwrap_or(after);
        check!(ts.index == i, "index", "step {i} has index {}: {c:?}", ts.index);
        check!(ts.is_first() == (i == 0), "is-first", "step {i}: {c:?}");
        check!(nanos(ts.date) == want[i], "date", "step {i} starts at {}, expected {}: {c:?}", ts.date, from_nanos(want[i]));
        let days = (next - want[i]) as f64 / DAY as f64;
        check!((ts.days() - days).abs() < 1e-9, "duration", "step {i} at {} lasts {} days, expected {days}: {c:?}", ts.date, ts.days());
        check!(
            ts.duration.whole_days() == if (next - want[i]) % DAY == 0 { Some(((next - want[i]) / DAY) as i64) } else { None },
            "whole-days",
            "step {i} at {}: whole days {:?} of {days}: {c:?}",
            ts.date,
            ts.duration.whole_days()
        );
        check!(ts.duration.milliseconds() as i128 == (next - want[i]) / 1_000_000, "milliseconds", "step {i}: {c:?}");
        uniform &= next - want[i] == (want.get(1).copied().unwrap_or(after) - want[0]);
        // The calendar of the step
        let (y, m, d) = (ts.date.year() as i64, ts.date.month() as i64, ts.date.day() as i64);
        let doy = days_civil(y, m, d) - days_civil(y, 1, 1);
        let idx = doy + if !leap(y) && doy >= 59 { 1 } else { 0 };
        check!(ts.is_leap_year() == leap(y), "leap", "{}", ts.date);
        check!(ts.day_of_year() as i64 == doy + 1, "day-of-year", "{}: {}", ts.date, ts.day_of_year());
        check!(ts.day_of_year_index() as i64 == idx, "day-of-year-index", "{}: {}", ts.date, ts.day_of_year_index());
        let frac = idx as f64 + (want[i].rem_euclid(DAY)) as f64 / DAY as f64;
        check!((ts.fractional_day_of_year() - frac).abs() < 1e-9, "fractional-day", "{}: {} expected {frac}", ts.date, ts.fractional_day_of_year());
    }
    check!(nanos(dom.first_timestep().date) == want[0], "first", "{c:?}");
    check!(nanos(dom.last_timestep().date) == *want.last().unwrap(), "last", "{c:?}");
    match dom.fixed_step_duration() {
        Some(d) => {
            check!(uniform, "fixed", "steps of different lengths are reported as all {} days: {c:?}", d.fractional_days());
        }
        None => check!(!uniform, "not-fixed", "equal steps are not reported as such: {c:?}"),
    }
    info.nontrivial = want.len() > 1;
    info.label(match c.dur {
        TimestepDuration::Hours(_) => "hours",
        TimestepDuration::Days(_) => "days",
        TimestepDuration::Frequency(_) => "frequency",
    });
    if !uniform {
        info.label("non-uniform");
    }
    Ok(())
}

/// Volumes change by flow times the true length of each step, and every step is run once, in order.
fn c07_volume(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let c = gen_cal(s, false);
    if nanos(c.end) < nanos(c.start) {
        return Ok(());
    }
    let mut steps = Vec::new();
    while at(c.start, c.months, c.rest, steps.len() as i64) <= nanos(c.end) {
        steps.push(at(c.start, c.months, c.rest, steps.len() as i64));
    }
    let n = steps.len();
    steps.push(at(c.start, c.months, c.rest, n as i64));
    let inflow: Vec<f64> = (0..n).map(|_| s.num(0.0, 8.0, 0.5)).collect();
    let take: Vec<f64> = (0..n).map(|_| s.num(0.0, 4.0, 0.5)).collect();
    let m = |v: &str| UnresolvedNode::new(v, None);
    let mut nb = NetworkBuilder::default();
    let p = |v: &str| UnresolvedMetricF64::new_parameter_before(v);
    nb.parameters().f64(Box::new(Array1ParameterBuilder::new("inflow".into(), Array1::from(inflow.clone()))));
    nb.parameters().f64(Box::new(Array1ParameterBuilder::new("take".into(), Array1::from(take.clone()))));
    let mut i = NodeBuilder::input(m("in"));
    i.min_flow(p("inflow")).max_flow(p("inflow"));
    let mut r = NodeBuilder::storage(m("res"));
    let v0 = s.num(0.0, 1.0, 0.25) * 1e6 + 1e6;
    r.max_volume(1e9.into()).initial_volume(UnresolvedStorageInitialVolume::absolute(v0));
    let mut o = NodeBuilder::output(m("out"));
    o.max_flow(p("take")).cost((-10.0).into());
    nb.node(i);
    nb.node(r);
    nb.node(o);
    nb.connect("in", "res");
    nb.connect("res", "out");
    let (probe, data) = Probe::new(
        "probe",
        vec![UnresolvedMetricF64::NodeVolume(m("res")), UnresolvedMetricF64::NodeInFlow(m("out")), UnresolvedMetricF64::NodeOutFlow(m("in"))],
        vec![],
    );
    nb.recorder(Box::new(probe));
    let db = ModelDomainBuilder::new(TimeDomainBuilder::new(c.start, c.end, c.dur.clone()));
    info.desc(format!("{c:?} inflow {inflow:?} take {take:?} v0 {v0}"));
    let d = db.build().map_err(|e| Fail { sig: "domain".into(), msg: format!("{e}: {c:?}") })?;
    let model = ModelBuilder::new(d, nb).build().map_err(|e| Fail { sig: "build".into(), msg: full(&e) })?;
    run_model(&model, Sol::Highs).map_err(|e| Fail { sig: "run".into(), msg: format!("{e}: {c:?}") })?;
    let t = data.table();
    let seen = data.steps.lock().unwrap().clone();
    check!(t.len() == n, "count", "{} steps were run, expected {n}: {c:?}", t.len());
    let mut v = v0;
    for k in 0..n {
        let days = (steps[k + 1] - steps[k]) as f64 / DAY as f64;
        v += (inflow[k] - take[k]) * days;
        check!(
            seen[k].0 == k && nanos(seen[k].1) == steps[k],
            "order",
            "step {k}: index {} at {}, expected {}: {c:?}",
            seen[k].0,
            seen[k].1,
            from_nanos(steps[k])
        );
        check!((t[k][0][1] - take[k]).abs() < 1e-6, "flow", "step {k}: delivery {} of {}: {c:?}", t[k][0][1], take[k]);
        check!(
            (t[k][0][0] - v).abs() < 1e-6 * v.abs().max(1.0),
            "volume",
            "after step {k} at {} ({days} days) the volume is {}, expected {v}: {c:?} inflow {inflow:?} take {take:?}",
            seen[k].1,
            t[k][0][0]
        );
    }
    info.nontrivial = n > 1;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            rule: "domain: two or more groups, or a rejected description; subset, threads: more than one scenario and at least one step compared",
            arms: vec![
                Arm { name: "domain", quick: 40000, thorough: 2000000, run: c06_domain },
                Arm { name: "document", quick: 6000, thorough: 200000, run: c06_document },
                Arm { name: "subset", quick: 3500, thorough: 120000, run: c06_subset },
                Arm { name: "threads", quick: 1200, thorough: 40000, run: c06_threads },
            ],
        },
        Prop {
            id: "C07",
            rule: "more than one step, or a description that must be rejected",
            arms: vec![
                Arm { name: "steps", quick: 12000, thorough: 600000, run: c07_steps },
                Arm { name: "document", quick: 4000, thorough: 150000, run: c07_document },
                Arm { name: "volume", quick: 4000, thorough: 150000, run: c07_volume },
            ],
        },
    ]
}
