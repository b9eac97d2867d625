//! C15 models of several networks that exchange values.

use crate::alloc::full;
use crate::check;
use crate::runner::{Arm, Fail, Info, Prop, fail, guarded};
use crate::sim::{Probe, ProbeData, Table, domain, gen_date};
use crate::src::Src;
use crate::schema::lit;
use ndarray::Array2;
use pywr_core::NodeBuilder;
use pywr_core::agg_funcs::AggFuncF64;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::models::{ModelBuilder, MultiNetworkEntryBuilder, MultiNetworkModelBuilder, MultiNetworkTransferBuilder};
use pywr_core::network::NetworkBuilder;
use pywr_core::node::{UnresolvedNode, UnresolvedStorageInitialVolume};
use pywr_core::parameters::{AggregatedParameterBuilder, Array2ParameterBuilder, DelayParameterBuilder};
use pywr_core::solvers::{HighsSolver, HighsSolverSettingsBuilder, SimdIpmF64Solver, SimdIpmSolverSettingsBuilder};
use serde_json::{Value, json};

/// Where a value of a network comes from.
#[derive(Clone, Debug)]
enum U {
    Table(usize),
    Transfer(usize),
    /// A parameter: table + transfer
    Sum(usize, usize),
    /// A parameter: the smaller of a table and a transfer
    Min(usize, usize),
    /// A parameter: the transfer a number of steps ago
    Late(usize, u64, f64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    InFlow,
    OutFlow,
    Volume,
    Fraction,
    /// The parameter behind the supply limit, or its table
    Limit,
    /// Its own incoming transfer
    Forward(usize),
}

#[derive(Clone, Debug)]
struct Tr {
    from: usize,
    what: What,
    init: Option<f64>,
}

#[derive(Clone, Debug)]
struct Net {
    name: String,
    tables: Vec<Vec<Vec<f64>>>,
    transfers: Vec<Tr>,
    supply: U,
    second: Option<U>,
    demand: U,
    max_volume: f64,
    initial: f64,
}

#[derive(Clone, Debug)]
struct Case {
    start: jiff::civil::Date,
    hours: i64,
    t: usize,
    scen: usize,
    nets: Vec<Net>,
}

fn node(n: &str) -> UnresolvedNode {
    UnresolvedNode::new(n, None)
}

fn gen_u(s: &mut Src, tables: usize, transfers: usize) -> U {
    if transfers == 0 {
        return U::Table(s.us(tables));
    }
    match s.below(6) {
        0 => U::Table(s.us(tables)),
        1 | 2 => U::Transfer(s.us(transfers)),
        3 => U::Sum(s.us(tables), s.us(transfers)),
        4 => U::Min(s.us(tables), s.us(transfers)),
        _ => U::Late(s.us(transfers), s.int(1, 3) as u64, s.num(0.0, 5.0, 0.5)),
    }
}

fn gen_case(s: &mut Src) -> Case {
    gen_case_of(s, 4)
}

fn gen_case_of(s: &mut Src, most: usize) -> Case {
    let t = s.size(1, 10);
    let scen = s.size(1, most);
    let n = s.size(2, 4);
    let mut nets: Vec<Net> = Vec::new();
    let counts: Vec<usize> = (0..n).map(|_| s.size(0, 3)).collect();
    for i in 0..n {
        let nt = s.size(1, 3);
        let tables = (0..nt).map(|_| (0..t).map(|_| (0..scen).map(|_| s.num(0.0, 12.0, 0.5)).collect()).collect()).collect();
        let transfers: Vec<Tr> = (0..counts[i])
            .map(|_| {
                let from = (i + 1 + s.us(n - 1)) % n;
                let mut what = *s.pick(&[What::InFlow, What::OutFlow, What::Volume, What::Fraction, What::Limit]);
                if counts[from] > 0 && s.chance(1, 5) {
                    what = What::Forward(s.us(counts[from]));
                }
                Tr { from, what, init: s.chance(2, 3).then(|| s.num(0.0, 20.0, 0.5)) }
            })
            .collect();
        let k = transfers.len();
        nets.push(Net {
            name: format!("net{i}"),
            tables,
            supply: gen_u(s, nt, k),
            second: s.chance(1, 3).then(|| gen_u(s, nt, k)),
            demand: gen_u(s, nt, k),
            transfers,
            max_volume: s.num(10.0, 60.0, 5.0),
            initial: s.num(0.0, 1.0, 0.25),
        });
    }
    Case { start: gen_date(s), hours: *s.pick(&[24, 24, 12, 48]), t, scen, nets }
}

/// How the networks are solved.
#[derive(Clone, Copy, Debug, PartialEq)]
struct How {
    /// All scenarios together, with the interior point solver
    ipm: bool,
    threads: Option<usize>,
}

/// Columns of the probe: every source, then every transfer.
const SOURCES: [What; 5] = [What::InFlow, What::OutFlow, What::Volume, What::Fraction, What::Limit];

impl Net {
    fn source(&self, w: What, alone: bool) -> UnresolvedMetricF64 {
        match w {
            What::InFlow => UnresolvedMetricF64::NodeInFlow(node("out")),
            What::OutFlow => UnresolvedMetricF64::NodeOutFlow(node("in")),
            What::Volume => UnresolvedMetricF64::NodeVolume(node("res")),
            What::Fraction => UnresolvedMetricF64::NodeProportionalVolume(node("res")),
            What::Limit => self.u(&self.supply, "supply", alone),
            What::Forward(k) => self.tr(k, alone),
        }
    }
    fn tr(&self, k: usize, alone: bool) -> UnresolvedMetricF64 {
        if alone {
            UnresolvedMetricF64::new_parameter_before(format!("tr{k}").as_str())
        } else {
            UnresolvedMetricF64::InterNetworkTransfer(format!("tr{k}"))
        }
    }
    fn u(&self, u: &U, name: &str, alone: bool) -> UnresolvedMetricF64 {
        match u {
            U::Table(k) => UnresolvedMetricF64::new_parameter_before(format!("tab{k}").as_str()),
            U::Transfer(k) => self.tr(*k, alone),
            _ => UnresolvedMetricF64::new_parameter_before(name),
        }
    }
    fn add(&self, nb: &mut NetworkBuilder, u: &U, name: &str, alone: bool) {
        match u {
            U::Sum(a, b) | U::Min(a, b) => {
                let f = if matches!(u, U::Sum(..)) { AggFuncF64::Sum } else { AggFuncF64::Min };
                let mut p = AggregatedParameterBuilder::before(name.into(), f);
                p.metric(UnresolvedMetricF64::new_parameter_before(format!("tab{a}").as_str()));
                p.metric(self.tr(*b, alone));
                nb.parameters().f64(Box::new(p));
            }
            U::Late(k, d, i) => {
                nb.parameters().f64(Box::new(DelayParameterBuilder::new(name.into(), self.tr(*k, alone), *d, *i)));
            }
            _ => {}
        }
    }
    /// The network; when alone, with the given tables ([t][scenario]) in place of its transfers.
    fn build(&self, alone: Option<&[Vec<Vec<f64>>]>) -> (NetworkBuilder, ProbeData) {
        let mut nb = NetworkBuilder::default();
        let single = alone.is_some();
        let mut table = |name: String, v: &Vec<Vec<f64>>| {
            let a = Array2::from_shape_fn((v.len(), v[0].len()), |(t, s)| v[t][s]);
            nb.parameters().f64(Box::new(Array2ParameterBuilder::new(name.as_str().into(), a, "g0")));
        };
        for (k, v) in self.tables.iter().enumerate() {
            table(format!("tab{k}"), v);
        }
        for (k, v) in alone.unwrap_or(&[]).iter().enumerate() {
            table(format!("tr{k}"), v);
        }
        self.add(&mut nb, &self.supply, "supply", single);
        if let Some(u) = &self.second {
            self.add(&mut nb, u, "second", single);
        }
        self.add(&mut nb, &self.demand, "demand", single);
        let mut i = NodeBuilder::input(node("in"));
        i.max_flow(self.u(&self.supply, "supply", single)).cost(1.0.into());
        let mut r = NodeBuilder::storage(node("res"));
        r.max_volume(self.max_volume.into()).initial_volume(UnresolvedStorageInitialVolume::proportional(self.initial)).cost((-3.0).into());
        let mut o = NodeBuilder::output(node("out"));
        o.max_flow(self.u(&self.demand, "demand", single)).cost((-10.0).into());
        nb.node(i);
        nb.node(r);
        nb.node(o);
        nb.connect("in", "res");
        nb.connect("res", "out");
        if let Some(u) = &self.second {
            let mut i = NodeBuilder::input(node("in2"));
            i.max_flow(self.u(u, "second", single)).cost(2.0.into());
            nb.node(i);
            nb.connect("in2", "out");
        }
        let mut m: Vec<_> = SOURCES.iter().map(|w| self.source(*w, single)).collect();
        for k in 0..self.transfers.len() {
            m.push(self.tr(k, single));
        }
        let (probe, data) = Probe::new("probe", m, vec![]);
        nb.recorder(Box::new(probe));
        (nb, data)
    }
}

impl Case {
    /// The networks as a document: tables are timeseries files, networks are inline or files of their own.
    fn json(&self, s: &mut Src, dir: &std::path::Path, ordered: bool) -> Value {
        let start = self.start.at(0, 0, 0, 0);
        let mut entries = Vec::new();
        for (i, n) in self.nets.iter().enumerate() {
            // The names of timeseries and parameters are the same in all networks.
            let series: Vec<Value> = (0..n.tables.len())
                .map(|k| {
                    let rows: Vec<String> = (0..self.t + 1)
                        .map(|t| {
                            let d = start.checked_add(jiff::Span::new().hours(self.hours * t as i64)).unwrap();
                            let r: Vec<String> = n.tables[k][t.min(self.t - 1)].iter().map(|v| format!("{v:?}")).collect();
                            format!("{d},{}", r.join(","))
                        })
                        .collect();
                    let head: Vec<String> = (0..self.scen).map(|c| format!("c{c}")).collect();
                    let f = format!("net{i}-tab{k}.csv");
                    std::fs::write(dir.join(&f), format!("time,{}\n{}\n", head.join(","), rows.join("\n"))).unwrap();
                    json!({"type": "Polars", "meta": {"name": format!("tab{k}")}, "url": f, "time_col": "time"})
                })
                .collect();
            let mut params: Vec<Value> = Vec::new();
            let tab = |k: usize| json!({"type": "Timeseries", "name": format!("tab{k}"), "columns": {"type": "Scenario", "name": "g0"}});
            let tr = |k: usize| json!({"type": "InterNetworkTransfer", "name": format!("tr{k}")});
            let mut metric = |u: &U, name: &str| -> Value {
                let meta = json!({"name": name});
                let p = json!({"type": "Parameter", "name": name});
                match u {
                    U::Table(k) => return tab(*k),
                    U::Transfer(k) => return tr(*k),
                    U::Sum(a, b) => params.push(json!({"type": "Aggregated", "meta": meta, "agg_func": {"type": "Sum"}, "metrics": [tab(*a), tr(*b)], "phase": "Before"})),
                    U::Min(a, b) => params.push(json!({"type": "Aggregated", "meta": meta, "agg_func": {"type": "Min"}, "metrics": [tr(*b), tab(*a)], "phase": "Before"})),
                    U::Late(k, d, i) => params.push(json!({"type": "Delay", "meta": meta, "metric": tr(*k), "delay": d, "initial_value": i})),
                }
                p
            };
            let mut nodes = vec![
                json!({"type": "Input", "meta": {"name": "in"}, "max_flow": metric(&n.supply, "supply"), "cost": lit(1.0)}),
                json!({"type": "Storage", "meta": {"name": "res"}, "max_volume": lit(n.max_volume), "cost": lit(-3.0),
                       "initial_volume": {"type": "Proportional", "proportion": n.initial}}),
                json!({"type": "Output", "meta": {"name": "out"}, "max_flow": metric(&n.demand, "demand"), "cost": lit(-10.0)}),
            ];
            let mut edges = vec![json!({"from_node": "in", "to_node": "res"}), json!({"from_node": "res", "to_node": "out"})];
            if let Some(u) = &n.second {
                nodes.push(json!({"type": "Input", "meta": {"name": "in2"}, "max_flow": metric(u, "second"), "cost": lit(2.0)}));
                edges.push(json!({"from_node": "in2", "to_node": "out"}));
            }
            // A transfer may be forwarded through a parameter, or as it is.
            for k in 0..n.transfers.len() {
                params.push(json!({"type": "Aggregated", "meta": {"name": format!("fwd{k}")}, "agg_func": {"type": "Sum"}, "metrics": [tr(k)], "phase": "Before"}));
            }
            if !ordered {
                s.shuffle(&mut nodes);
            }
            s.shuffle(&mut params);
            let net = json!({"nodes": nodes, "edges": edges, "parameters": params, "timeseries": series});
            let net = match s.below(4) {
                0 => {
                    let f = format!("net{i}.json");
                    std::fs::write(dir.join(&f), net.to_string()).unwrap();
                    if s.bool() { json!(dir.join(&f)) } else { json!(f) }
                }
                _ => net,
            };
            let transfers: Vec<Value> = n
                .transfers
                .iter()
                .enumerate()
                .map(|(k, t)| {
                    let f = &self.nets[t.from];
                    let at = |n: &str, a: Option<&str>| {
                        let mut v = json!({"type": "Node", "name": n});
                        if let Some(a) = a {
                            v["attribute"] = json!(a);
                        }
                        v
                    };
                    let m = match t.what {
                        What::InFlow => at("out", s.bool().then_some("Inflow")),
                        What::OutFlow => at("in", s.bool().then_some("Outflow")),
                        What::Volume => at("res", s.bool().then_some("Volume")),
                        What::Fraction => at("res", Some("ProportionalVolume")),
                        What::Limit => match &f.supply {
                            U::Table(k) => tab(*k),
                            U::Transfer(k) if s.bool() => json!({"type": "Parameter", "name": format!("fwd{k}")}),
                            U::Transfer(k) => tr(*k),
                            _ => json!({"type": "Parameter", "name": "supply"}),
                        },
                        What::Forward(k) if s.bool() => tr(k),
                        What::Forward(k) => json!({"type": "Parameter", "name": format!("fwd{k}")}),
                    };
                    let mut v = json!({"from_network": f.name, "metric": m, "name": format!("tr{k}")});
                    if let Some(x) = t.init {
                        v["initial_value"] = json!(x);
                    }
                    v
                })
                .collect();
            entries.push(json!({"name": n.name, "network": net, "transfers": transfers}));
        }
        json!({
            "metadata": {"title": "several networks"},
            "time": crate::schema::time_section(start, self.hours, self.t),
            "scenarios": {"groups": [{"name": "g0", "size": self.scen}, {"name": "g1", "size": 1}]},
            "networks": entries,
        })
    }

    fn document(&self, s: &mut Src, dir: &std::path::Path, ordered: bool) -> Result<MultiNetworkModelBuilder, String> {
        let doc = self.json(s, dir, ordered);
        let m: pywr_schema::MultiNetworkModelSchema = doc.to_string().parse().map_err(|e: pywr_schema::ModelSchemaReadError| format!("{e}: {doc}"))?;
        // Written and read again
        let m: pywr_schema::MultiNetworkModelSchema = if s.bool() {
            serde_json::to_string(&m).unwrap().parse().map_err(|e: pywr_schema::ModelSchemaReadError| format!("{e}: {doc}"))?
        } else {
            m
        };
        m.create_model_builder(Some(dir), None).map_err(|e| format!("{}: {doc}", full(&e)))
    }

    fn run_document(&self, s: &mut Src, how: How) -> Result<Vec<Table>, Fail> {
        let dir = crate::runner::scratch_dir("multi");
        let mut b = match guarded(|| self.document(s, &dir, how.ipm)) {
            Ok(b) => b.map_err(|e| Fail { sig: "document".into(), msg: format!("{e}: {self:?}") })?,
            Err(p) => return fail("panic", format!("{p}: {self:?}")),
        };
        let mut data = Vec::new();
        for n in &self.nets {
            let mut m: Vec<_> = SOURCES
                .iter()
                .map(|w| match (w, &n.supply) {
                    // Not a metric outside of the document
                    (What::Limit, U::Table(_)) => UnresolvedMetricF64::from(0.0),
                    _ => n.source(*w, false),
                })
                .collect();
            m.extend((0..n.transfers.len()).map(|k| n.tr(k, false)));
            let (probe, d) = Probe::new("probe", m, vec![]);
            let Some(e) = b.entry_builder(&n.name) else { return fail("entry", format!("no entry {}: {self:?}", n.name)) };
            e.network_builder().recorder(Box::new(probe));
            data.push(d);
        }
        let mut out = self.run_built(b, &data, how)?;
        for (n, table) in self.nets.iter().zip(out.iter_mut()) {
            if let U::Table(k) = n.supply {
                for (t, row) in table.iter_mut().enumerate() {
                    for (sc, x) in row.iter_mut().enumerate() {
                        x[4] = n.tables[k][t][sc];
                    }
                }
            }
        }
        Ok(out)
    }

    fn run_all(&self, how: How) -> Result<Vec<Table>, Fail> {
        let mut b = MultiNetworkModelBuilder::new(domain(self.start.at(0, 0, 0, 0), self.hours, self.t, [self.scen, 1]));
        let mut data = Vec::new();
        for n in &self.nets {
            let (nb, d) = n.build(None);
            data.push(d);
            let mut e = MultiNetworkEntryBuilder::new(&n.name, nb);
            for (k, t) in n.transfers.iter().enumerate() {
                let f = &self.nets[t.from];
                let mut tb = MultiNetworkTransferBuilder::new(&format!("tr{k}"), &f.name, f.source(t.what, false));
                if let Some(v) = t.init {
                    tb.initial_value(v);
                }
                e.transfer(tb);
            }
            b.network(e);
        }
        self.run_built(b, &data, how)
    }

    fn run_built(&self, b: MultiNetworkModelBuilder, data: &[ProbeData], how: How) -> Result<Vec<Table>, Fail> {
        let m = b.build().map_err(|e| Fail { sig: "build".into(), msg: format!("{}: {self:?}", full(&e)) })?;
        let r = guarded(|| {
            if how.ipm {
                let mut st = SimdIpmSolverSettingsBuilder::default();
                if let Some(n) = how.threads {
                    st = st.parallel().threads(n);
                }
                m.run_multi_scenario::<SimdIpmF64Solver>(&st.build()).map(|_| ()).map_err(|e| full(&e))
            } else {
                let mut st = HighsSolverSettingsBuilder::default();
                if let Some(n) = how.threads {
                    st = st.parallel().threads(n);
                }
                m.run::<HighsSolver>(&st.build()).map(|_| ()).map_err(|e| full(&e))
            }
        });
        match r {
            // This solver may stop at a system that it can not solve; the steps before are as they should be.
            Err(p) if how.ipm && !crate::alloc::unsolved(&p) => fail("panic", format!("{p}: {self:?}")),
            Ok(Err(_)) | Err(_) if how.ipm => Ok(data.iter().map(|d| d.table()).collect()),
            Ok(Ok(())) => Ok(data.iter().map(|d| d.table()).collect()),
            Ok(Err(e)) => fail("run", format!("{e}: {self:?}")),
            Err(p) => fail("panic", format!("{p}: {self:?}")),
        }
    }
}

fn same(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-7 * a.abs().max(b.abs()).max(1.0)
}

fn c15_transfers(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    c15_of(s, info, false, false)
}

fn c15_document(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    c15_of(s, info, true, false)
}

fn c15_together(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let doc = s.chance(1, 3);
    c15_of(s, info, doc, true)
}

fn c15_of(s: &mut Src, info: &mut Info, doc: bool, ipm: bool) -> Result<(), Fail> {
    let mut c = gen_case_of(s, if ipm { 7 } else { 4 });
    if ipm {
        // This solver needs some room between the limits.
        for n in c.nets.iter_mut() {
            n.tables.iter_mut().flatten().flatten().for_each(|x| *x += 1.0);
            n.transfers.iter_mut().filter_map(|t| t.init.as_mut()).for_each(|x| *x += 1.0);
            n.initial = n.initial.clamp(0.25, 0.75);
        }
    }
    let how = How { ipm, threads: s.chance(1, if ipm { 3 } else { 8 }).then(|| s.size(1, 3)) };
    info.desc(format!("{c:?} {how:?}"));
    let seen = if doc { c.run_document(s, how)? } else { c.run_all(how)? };
    let ns = SOURCES.len();
    for (i, n) in c.nets.iter().enumerate() {
        // Of a run that stopped, every network has the last complete step, and the first ones have the next.
        let least = if ipm { seen.last().unwrap().len() } else { c.t };
        check!(
            (seen[i].len() == least || ipm && seen[i].len() == least + 1) && seen[i].iter().all(|r| r.len() == c.scen),
            "steps",
            "network {i} has {} of {} steps: {c:?} {how:?}",
            seen[i].len(),
            c.t
        );
        for (k, tr) in n.transfers.iter().enumerate() {
            for t in 0..seen[i].len() {
                for sc in 0..c.scen {
                    let got = seen[i][t][sc][ns + k];
                    let col = match tr.what {
                        What::Forward(j) => ns + j,
                        w => SOURCES.iter().position(|x| *x == w).unwrap(),
                    };
                    let (want, how) = if t == 0 && tr.init.is_some() {
                        (tr.init.unwrap(), "its initial value")
                    } else if tr.from < i {
                        (seen[tr.from][t][sc][col], "the same step of an earlier network")
                    } else if t > 0 {
                        (seen[tr.from][t - 1][sc][col], "the previous step of a later network")
                    } else if matches!(tr.what, What::InFlow | What::OutFlow) {
                        (0.0, "no flow before the first step")
                    } else {
                        continue;
                    };
                    check!(
                        same(got, want),
                        "transfer",
                        "network {i} transfer {k} {tr:?} at step {t}, scenario {sc}: {got}, expected {want} ({how}): {c:?}"
                    );
                }
            }
        }
    }
    // Each network on its own, given the same values.
    for (i, n) in c.nets.iter().enumerate() {
        let tabs: Vec<Vec<Vec<f64>>> =
            (0..n.transfers.len())
                // After a run that stopped the rest does not matter.
                .map(|k| (0..c.t).map(|t| seen[i].get(t).map_or(vec![1.0; c.scen], |r| r.iter().map(|x| x[ns + k]).collect())).collect())
                .collect();
        let (nb, data) = n.build(Some(&tabs));
        let d = domain(c.start.at(0, 0, 0, 0), c.hours, c.t, [c.scen, 1]);
        let m = ModelBuilder::new(d, nb).build().map_err(|e| Fail { sig: "build".into(), msg: full(&e) })?;
        let sol = if ipm { crate::alloc::Sol::Ipm } else { crate::alloc::Sol::Highs };
        match crate::alloc::run_model(&m, sol) {
            Err(e) if !ipm || e.starts_with("panic") && !crate::alloc::unsolved(&e) => return fail("run-alone", format!("{e}: {c:?}")),
            _ => {}
        }
        let alone = data.table();
        check!(alone.len() >= seen[i].len(), "alone", "network {i} stops after {} steps alone, and not before {} together: {c:?}", alone.len(), seen[i].len());
        for t in 0..seen[i].len() {
            for sc in 0..c.scen {
                for (k, (a, b)) in alone[t][sc].iter().zip(&seen[i][t][sc]).enumerate() {
                    check!(same(*a, *b), "alone", "network {i}, column {k}, step {t}, scenario {sc}: {b} together, {a} alone: {c:?}");
                }
            }
        }
    }
    info.nontrivial = seen.iter().all(|x| x.len() > 1) && c.nets.iter().any(|n| !n.transfers.is_empty());
    for (i, n) in c.nets.iter().enumerate() {
        for t in &n.transfers {
            info.label(if t.from < i { "from-earlier" } else { "from-later" });
            if matches!(t.what, What::Forward(_)) {
                info.label("forwarded");
            }
        }
    }
    if seen.iter().any(|x| x.len() < c.t) {
        info.label("stopped");
    }
    if how.threads.is_some() {
        info.label("threads");
    }
    Ok(())
}

/// Wrong descriptions are errors.
fn c15_invalid(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let mut c = gen_case(s);
    let n = c.nets.len();
    let i = s.us(n);
    let kind = s.below(5);
    let mut b = MultiNetworkModelBuilder::new(domain(c.start.at(0, 0, 0, 0), c.hours, c.t, [c.scen, 1]));
    if kind == 0 {
        let j = (i + 1 + s.us(n - 1)) % n;
        c.nets[i].name = c.nets[j].name.clone();
    }
    for (k, net) in c.nets.iter().enumerate() {
        let (nb, _) = net.build(None);
        let mut e = MultiNetworkEntryBuilder::new(&net.name, nb);
        let flow = || UnresolvedMetricF64::NodeInFlow(node("out"));
        for (j, t) in net.transfers.iter().enumerate() {
            let f = &c.nets[t.from];
            // The last one is left out
            if kind == 4 && k == i && j + 1 == net.transfers.len() {
                continue;
            }
            e.transfer(MultiNetworkTransferBuilder::new(&format!("tr{j}"), &f.name, f.source(t.what, false)));
        }
        if k == i {
            let other = &c.nets[(i + 1) % n].name;
            match kind {
                1 => {
                    for _ in 0..2 {
                        e.transfer(MultiNetworkTransferBuilder::new("twice", other, flow()));
                    }
                }
                2 => {
                    e.transfer(MultiNetworkTransferBuilder::new("self", &net.name, flow()));
                }
                3 => {
                    let (to, m) = if s.bool() { ("nowhere", flow()) } else { (other.as_str(), UnresolvedMetricF64::NodeInFlow(node("nothing"))) };
                    e.transfer(MultiNetworkTransferBuilder::new("lost", to, m));
                }
                _ => {}
            }
        }
        b.network(e);
    }
    info.desc(format!("kind {kind} in network {i}: {c:?}"));
    let expect_ok = kind == 4 && c.nets[i].transfers.is_empty();
    match guarded(|| b.build().map(|_| ()).map_err(|e| full(&e))) {
        Err(p) => fail("panic", format!("kind {kind}: {p}: {c:?}")),
        Ok(Ok(())) if !expect_ok => fail("accepted", format!("kind {kind} in network {i}: {c:?}")),
        Ok(Err(e)) if expect_ok => fail("rejected", format!("{e}: {c:?}")),
        _ => {
            info.nontrivial = !expect_ok;
            info.label(["same-name", "same-transfer", "from-itself", "unknown-source", "missing-transfer"][kind as usize]);
            Ok(())
        }
    }
}

/// Wrong documents are errors, that name what is wrong, and never panics.
fn c15_invalid_document(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let c = gen_case(s);
    let dir = crate::runner::scratch_dir("multi");
    let mut doc = c.json(s, &dir, false);
    let n = c.nets.len();
    let i = s.us(n);
    let j = (i + 1 + s.us(n - 1)) % n;
    let kind = s.below(10);
    let some = json!({"from_network": c.nets[j].name, "name": "new one", "metric": {"type": "Node", "name": "out"}, "initial_value": 1.0});
    let mut add = |v: Value| doc["networks"][i]["transfers"].as_array_mut().unwrap().push(v);
    let with = |k: &str, x: Value| {
        let mut v = some.clone();
        v[k] = x;
        v
    };
    let mut named = "";
    match kind {
        0 => {
            add(with("from_network", json!("nowhere")));
            named = "nowhere";
        }
        1 => {
            add(with("metric", json!({"type": "Node", "name": "nothing"})));
            named = "nothing";
        }
        2 => {
            add(with("metric", json!({"type": "Parameter", "name": "nothing"})));
            named = "nothing";
        }
        3 => add(with("metric", json!({"type": "InterNetworkTransfer", "name": "tr99"}))),
        4 => {
            add(some.clone());
            add(some.clone());
            named = "new one";
        }
        5 => {
            add(with("from_network", json!(c.nets[i].name)));
            named = c.nets[i].name.as_str();
        }
        6 => {
            doc["networks"][i]["network"] = json!(if s.bool() { "absent.json".to_string() } else { dir.join("absent.json").display().to_string() });
            named = "absent.json";
        }
        7 => {
            std::fs::write(dir.join("broken.json"), "{\"nodes\": [").unwrap();
            doc["networks"][i]["network"] = json!("broken.json");
        }
        8 => {
            doc["networks"][i]["name"] = json!(c.nets[j].name);
            for x in doc["networks"].as_array_mut().unwrap() {
                for t in x["transfers"].as_array_mut().unwrap() {
                    if t["from_network"] == json!(c.nets[i].name) {
                        t["from_network"] = json!(c.nets[j].name);
                    }
                }
            }
        }
        _ => {
            // Nothing wrong
            add(some.clone());
        }
    }
    let ok = kind == 9;
    info.desc(format!("kind {kind} in network {i}: {doc}"));
    let r = guarded(|| {
        let m: pywr_schema::MultiNetworkModelSchema = doc.to_string().parse().map_err(|e: pywr_schema::ModelSchemaReadError| e.to_string())?;
        let b = m.create_model_builder(Some(&dir), None).map_err(|e| full(&e))?;
        b.build().map(|_| ()).map_err(|e| full(&e))
    });
    match r {
        Err(p) => fail("panic", format!("kind {kind}: {p}: {doc}")),
        Ok(Ok(())) if !ok => fail("accepted", format!("kind {kind} in network {i}: {doc}")),
        Ok(Err(e)) if ok => fail("rejected", format!("{e}: {doc}")),
        Ok(Err(e)) if !e.contains(named) => fail("message", format!("kind {kind}: `{e}` does not name `{named}`: {doc}")),
        _ => {
            info.nontrivial = !ok;
            info.label(if ok { "valid" } else { "wrong" });
            Ok(())
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        rule: "two or more steps and at least one transfer; for invalid descriptions: the description is wrong",
        arms: vec![
            Arm { name: "transfers", quick: 1500, thorough: 25000, run: c15_transfers },
            Arm { name: "document", quick: 1000, thorough: 15000, run: c15_document },
            Arm { name: "together", quick: 800, thorough: 15000, run: c15_together },
            Arm { name: "invalid-document", quick: 1500, thorough: 15000, run: c15_invalid_document },
            Arm { name: "invalid", quick: 1500, thorough: 20000, run: c15_invalid },
        ],
    }]
}

/// A document of several networks, with their names.
pub fn any_document(s: &mut Src, dir: &std::path::Path) -> (Value, Vec<String>) {
    let c = gen_case(s);
    (c.json(s, dir, false), c.nets.iter().map(|n| n.name.clone()).collect())
}
