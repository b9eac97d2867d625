//! C17: what the node types of a JSON document mean.
//!
//! `plain`: generated systems of the basic node types, written as a document and held to the reference of C01-C05.
//! `composite`: systems made of the composite node types. Every node is expanded by its documentation into a
//! description of its own (`Spec`); a run of the document must, in every timestep and scenario, be explainable by
//! an optimal allocation of that description.

use crate::alloc::{Class, Observed, Sol, full, run_model, verify};
use crate::lp::{self, Out, Row};
use crate::runner::{Arm, Fail, Info, Prop, fail, guarded};
use crate::schema::{builder, document, lit, par, probed, time_section};
use crate::sim::*;
use crate::src::Src;
use jiff::civil::Date;
use pywr_core::metric::MetricF64;
use pywr_core::network::{Network, ResolutionMaps};
use pywr_core::recorders::{
    MetricSetState, Recorder, RecorderBuilder, RecorderBuilderError, RecorderInternalState, RecorderMeta,
    RecorderSaveError,
};
use pywr_core::scenario::ScenarioIndex;
use pywr_core::state::State;
use pywr_core::timestep::Timestep;
use serde_json::{Map, Value, json};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ plain

/// Writes values as metrics of a document.
struct Writer {
    params: Vec<Value>,
    months: Vec<i8>,
}

impl Writer {
    /// The metric of a value; the value becomes what the metric means.
    fn metric(&mut self, s: &mut Src, v: &mut Val, sizes: [usize; 2]) -> Value {
        let name = format!("p{}", self.params.len());
        if matches!(v.how, How::Lit) {
            return lit(v.table[0][0]);
        }
        let (p, table): (Value, Vec<Vec<f64>>) = match s.below(3) {
            0 => (json!({"type": "Constant", "value": lit(v.table[0][0])}), self.months.iter().map(|_| vec![v.table[0][0]; sizes[v.group]]).collect()),
            1 => {
                let row: Vec<f64> = (0..sizes[v.group]).map(|j| *v.table[0].get(j).unwrap_or(&v.table[0][0])).collect();
                (
                    json!({"type": "ConstantScenario", "values": {"type": "Literal", "values": row}, "scenario_group": format!("g{}", v.group)}),
                    self.months.iter().map(|_| row.clone()).collect(),
                )
            }
            _ => {
                let flat: Vec<f64> = v.table.iter().flatten().copied().collect();
                let values: Vec<f64> = (0..12).map(|m| flat[m % flat.len()]).collect();
                let table = self.months.iter().map(|m| vec![values[*m as usize - 1]; sizes[v.group]]).collect();
                (json!({"type": "MonthlyProfile", "values": {"type": "Literal", "values": values}}), table)
            }
        };
        let mut p = p;
        p["meta"] = json!({"name": name});
        self.params.push(p);
        v.how = How::Simple;
        v.table = table;
        par(&name)
    }
    fn opt(&mut self, s: &mut Src, v: &mut Option<Val>, sizes: [usize; 2], o: &mut Map<String, Value>, key: &str) {
        if let Some(v) = v {
            let m = self.metric(s, v, sizes);
            o.insert(key.to_string(), m);
        }
    }
}

fn initial(i: &Init) -> Value {
    match i {
        Init::Absolute(v) => json!({"type": "Absolute", "volume": v}),
        Init::Proportional(v) => json!({"type": "Proportional", "proportion": v}),
        _ => unreachable!(),
    }
}

/// Document of a system of basic nodes. Storage volumes keep constant limits in time.
pub(crate) fn write_plain(s: &mut Src, spec: &mut Spec) -> Value {
    let sizes = spec.sizes;
    let mut w = Writer { params: vec![], months: (0..spec.t).map(|t| spec.date(t).month()).collect() };
    let mut nodes = Vec::new();
    for n in spec.nodes.iter_mut() {
        n.sub = None;
        n.cost_agg = None;
        let mut o = Map::new();
        o.insert("meta".into(), json!({"name": n.name}));
        let storage = n.kind == Kind::Storage;
        o.insert("type".into(), json!(match n.kind { Kind::Input => "Input", Kind::Link => "Link", Kind::Output => "Output", Kind::Storage => "Storage" }));
        w.opt(s, &mut n.min, sizes, &mut o, if storage { "min_volume" } else { "min_flow" });
        w.opt(s, &mut n.max, sizes, &mut o, if storage { "max_volume" } else { "max_flow" });
        w.opt(s, &mut n.cost, sizes, &mut o, "cost");
        if storage {
            n.init = match n.init {
                Init::DistAbsolute { absolute, .. } => Init::Absolute(absolute.min(1.0)),
                Init::DistProportional { proportion, .. } => Init::Proportional(proportion),
                ref i => i.clone(),
            };
            o.insert("initial_volume".into(), initial(&n.init));
        }
        nodes.push(Value::Object(o));
    }
    let mut virt = Vec::new();
    for a in spec.aggs.iter_mut() {
        let mut o = Map::new();
        o.insert("meta".into(), json!({"name": a.name}));
        o.insert("type".into(), json!("Aggregated"));
        // a reference names one node: groups of several are not expressible here
        for g in a.groups.iter_mut() {
            g.truncate(1);
        }
        let refs: Vec<Value> = a.groups.iter().map(|g| json!({"name": spec.nodes[g[0]].name})).collect();
        o.insert("nodes".into(), json!(refs));
        w.opt(s, &mut a.min, sizes, &mut o, "min_flow");
        w.opt(s, &mut a.max, sizes, &mut o, "max_flow");
        let list = |w: &mut Writer, s: &mut Src, f: &mut Vec<Val>| -> Vec<Value> { f.iter_mut().map(|v| w.metric(s, v, sizes)).collect() };
        match &mut a.rel {
            None => {}
            Some(Rel::Proportion(f)) => {
                // factors of one relationship: one list each
                let l = list(&mut w, s, f);
                o.insert("relationship".into(), json!({"type": "Proportion", "factors": l}));
            }
            Some(Rel::Ratio(f)) => {
                let l = list(&mut w, s, f);
                o.insert("relationship".into(), json!({"type": "Ratio", "factors": l}));
            }
            Some(Rel::Coefficients(f, rhs)) => {
                let l = list(&mut w, s, f);
                let mut r = json!({"type": "Coefficients", "factors": l});
                if let Some(v) = rhs {
                    r["rhs"] = w.metric(s, v, sizes);
                }
                o.insert("relationship".into(), r);
            }
            Some(Rel::Exclusive { min_active, max_active }) => {
                let mut r = json!({"type": "Exclusive"});
                if *min_active != 0 || s.bool() {
                    r["min_active"] = json!(min_active);
                }
                if *max_active != 1 || s.bool() {
                    r["max_active"] = json!(max_active);
                }
                o.insert("relationship".into(), r);
            }
        }
        virt.push(Value::Object(o));
    }
    for v in spec.vss.iter_mut() {
        let mut o = Map::new();
        o.insert("meta".into(), json!({"name": v.name}));
        o.insert("type".into(), json!("VirtualStorage"));
        let refs: Vec<Value> = v.nodes.iter().map(|i| json!({"name": spec.nodes[*i].name})).collect();
        o.insert("nodes".into(), json!(refs));
        if let Some(f) = &v.factors {
            o.insert("factors".into(), json!(f));
        }
        w.opt(s, &mut v.min, sizes, &mut o, "min_volume");
        let m = w.metric(s, &mut v.max, sizes);
        o.insert("max_volume".into(), m);
        w.opt(s, &mut v.cost, sizes, &mut o, "cost");
        v.init = match v.init {
            Init::DistAbsolute { absolute, .. } => Init::Absolute(absolute),
            Init::DistProportional { proportion, .. } => Init::Proportional(proportion),
            ref i => i.clone(),
        };
        o.insert("initial_volume".into(), initial(&v.init));
        if let (Some((sd, sm, ed, em)), Reset::Day(d, m)) = (&mut v.active, &v.reset) {
            // a season starts on the day it is reset
            *sd = *d;
            *sm = *m;
            o.insert("reset".into(), json!({"type": "Seasonal", "start_day": d, "start_month": m, "end_day": ed, "end_month": em}));
        } else {
            v.active = None;
            match v.reset {
                Reset::Never => {
                    if s.bool() {
                        o.insert("reset".into(), json!({"type": "Never"}));
                    }
                }
                Reset::Day(d, m) => {
                    o.insert("reset".into(), json!({"type": "Annual", "day": d, "month": m}));
                }
                Reset::Months(n) => {
                    o.insert("reset".into(), json!({"type": "Monthly", "months": n}));
                }
            }
        }
        if v.reset_to_max {
            o.insert("reset_volume".into(), json!("Max"));
        } else if s.bool() {
            o.insert("reset_volume".into(), json!("Initial"));
        }
        if let Some(k) = v.window {
            let r = if s.bool() { json!({"type": "Timesteps", "timesteps": k}) } else { json!({"type": "Days", "days": k as i64 * spec.step_hours / 24}) };
            o.insert("window".into(), r);
        }
        virt.push(Value::Object(o));
    }
    let mut edges: Vec<Value> =
        spec.edges.iter().map(|(a, b)| json!({"from_node": spec.nodes[*a].name, "to_node": spec.nodes[*b].name})).collect();
    s.shuffle(&mut nodes);
    s.shuffle(&mut edges);
    s.shuffle(&mut w.params);
    let mut net = json!({"nodes": nodes, "edges": edges});
    if !w.params.is_empty() {
        net["parameters"] = json!(w.params);
    }
    if !virt.is_empty() {
        net["virtual_nodes"] = json!(virt);
    }
    let groups = json!({"groups": [{"name": "g0", "size": sizes[0]}, {"name": "g1", "size": sizes[1]}]});
    document(time_section(spec.start.at(0, 0, 0, 0), spec.step_hours, spec.t), Some(groups), net)
}

fn c17_plain(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let exclusive = s.chance(1, 5);
    let mut o = GenOpts { aggs: 1, vss: 2, subdaily: s.chance(1, 3), exclusive, min_flows: s.chance(1, 3), ..Default::default() };
    if s.chance(1, 3) {
        o.max_t = 14;
    }
    let mut spec = gen_spec(s, &o);
    // a document cannot constrain the net inflow of a storage
    let kinds: Vec<Kind> = spec.nodes.iter().map(|n| n.kind).collect();
    spec.aggs.retain(|a| a.groups.iter().flatten().all(|i| kinds[*i] != Kind::Storage));
    let doc = write_plain(s, &mut spec);
    info.desc(doc.to_string());
    let (metrics, cols) = probe_metrics(&spec);
    let (model, data) = match probed(&doc, None, metrics, vec![]) {
        Ok(x) => x,
        Err(e) => return fail("plain-build", format!("a valid document was refused: {e}\n{doc}")),
    };
    let sol = if spec.integer() { Sol::Micro } else { Sol::Highs };
    let outcome = run_model(&model, sol);
    let ob = Observed { table: data.table(), cols, outcome };
    let (bad, st) = verify(&spec, &ob, 1e-6);
    info.nontrivial = st.moved && st.binding > 0;
    info.label(if ob.outcome.is_ok() { "completed" } else { "stopped" });
    if spec.integer() && !bad.is_empty() {
        info.label("second-opinion");
        let (metrics, cols) = probe_metrics(&spec);
        let (model, data) = probed(&doc, None, metrics, vec![]).map_err(|e| Fail { sig: "plain-build".into(), msg: e })?;
        let outcome = run_model(&model, Sol::Highs);
        let ob = Observed { table: data.table(), cols, outcome };
        let (bad2, _) = verify(&spec, &ob, 1e-6);
        return match bad2.first() {
            Some((c, m)) => fail(plain_sig(*c), format!("{m}\n{doc}")),
            None => Ok(()),
        };
    }
    match bad.first() {
        Some((c, m)) => fail(plain_sig(*c), format!("{m}\n{doc}")),
        None => Ok(()),
    }
}

pub(crate) fn plain_sig(c: Class) -> &'static str {
    match c {
        Class::Balance => "plain-mass-balance",
        Class::Limits => "plain-flow-limits",
        Class::Optimal => "plain-optimality",
        Class::Outcome => "plain-outcome",
        Class::Storage => "plain-storage",
        Class::Virtual => "plain-virtual-storage",
        Class::Agg => "plain-aggregated",
    }
}

// ------------------------------------------------------------------ capture

pub(crate) type Captured = Vec<Vec<(Vec<f64>, Vec<Vec<f64>>)>>;

/// Records the values of the first metric set and the volumes of the storages of some nodes.
#[derive(Debug)]
pub(crate) struct Capture {
    pub stores: Vec<String>,
    pub data: Arc<Mutex<Captured>>,
}

impl RecorderBuilder for Capture {
    fn name(&self) -> &str {
        "__capture"
    }
    fn build(self: Box<Self>, _maps: &ResolutionMaps) -> Result<Box<dyn Recorder>, RecorderBuilderError> {
        Ok(Box::new(CaptureRecorder {
            meta: RecorderMeta { name: "__capture".into(), comment: String::new() },
            stores: self.stores,
            data: self.data,
        }))
    }
}

#[derive(Debug)]
struct CaptureRecorder {
    meta: RecorderMeta,
    stores: Vec<String>,
    data: Arc<Mutex<Captured>>,
}

impl Recorder for CaptureRecorder {
    fn meta(&self) -> &RecorderMeta {
        &self.meta
    }
    fn save(
        &self,
        _timestep: &Timestep,
        scenario_indices: &[ScenarioIndex],
        network: &Network,
        state: &[State],
        metric_set_states: &[Vec<MetricSetState>],
        _internal_state: &mut Option<Box<dyn RecorderInternalState>>,
    ) -> Result<(), RecorderSaveError> {
        let mut row = Vec::new();
        for si in scenario_indices {
            let k = si.simulation_id();
            let values: Vec<f64> = match metric_set_states[k].first().and_then(|m| m.current_values()) {
                Some(v) => v.iter().map(|p| p.value).collect(),
                None => vec![],
            };
            let mut vols = Vec::new();
            for name in &self.stores {
                let mut v = Vec::new();
                for n in network.nodes() {
                    if n.name() == name && matches!(n.default_metric(), MetricF64::NodeVolume(_)) {
                        v.push(n.default_metric().get_value(network, &state[k])?);
                    }
                }
                vols.push(v);
            }
            row.push((values, vols));
        }
        self.data.lock().unwrap().push(row);
        Ok(())
    }
}

// ------------------------------------------------------------------ composite

#[derive(Clone, Copy, PartialEq, Debug)]
enum Dir {
    In,
    Out,
}

#[derive(Clone, Debug)]
enum Meas {
    Flow(Vec<usize>, Dir),
    Vol(Vec<usize>),
    PVol(Vec<usize>),
    MaxVol(usize),
    Zero,
    Deficit(usize),
    /// flow of the node times a factor
    Power(usize, Val),
}

#[derive(Clone, Debug)]
enum Area {
    Points(Vec<(f64, f64)>),
    Poly(Vec<f64>),
}

impl Area {
    fn at(&self, v: f64) -> f64 {
        match self {
            Area::Poly(c) => c.iter().enumerate().map(|(i, c)| c * v.powi(i as i32)).sum(),
            Area::Points(p) => {
                for w in p.windows(2) {
                    if v <= w[1].0 {
                        return w[0].1 + (v - w[0].0) * (w[1].1 - w[0].1) / (w[1].0 - w[0].0);
                    }
                }
                p.last().unwrap().1
            }
        }
    }
}

/// Limits which follow from what happened before.
#[derive(Clone, Debug)]
enum Rule {
    Delay { comp: usize, to: usize, delay: usize, initial: f64 },
    Muskingum { comp: usize, agg: usize, k: Val, x: Val, initial: Option<(f64, f64)> },
    Depth { node: usize, store: usize, depth: Val, area: Area, proportional: bool, use_max: bool, both: bool },
}

struct Comp {
    name: String,
    json: Map<String, Value>,
    ins: Vec<usize>,
    /// (slot, nodes, must be connected)
    outs: Vec<(Option<Value>, Vec<usize>, bool)>,
    attrs: Vec<(&'static str, Meas)>,
    comps: Vec<(&'static str, Vec<usize>)>,
    stores: Vec<usize>,
    forced: bool,
    locals: Vec<Value>,
    /// Attributes summing to the flow entering (leaving) its routing part.
    routed_in: Vec<&'static str>,
    routed_out: Vec<&'static str>,
}

struct Ctx {
    t: usize,
    ns: usize,
    months: Vec<i8>,
    params: Vec<Value>,
    spec: Spec,
    rules: Vec<Rule>,
    comps: Vec<Comp>,
    /// Only what a document of version 1 can express.
    v1: bool,
}

impl Ctx {
    fn node(&mut self, kind: Kind) -> usize {
        let i = self.spec.nodes.len();
        self.spec.nodes.push(NodeSpec {
            name: format!("i{i}"),
            sub: None,
            kind,
            min: None,
            max: None,
            cost: None,
            cost_agg: None,
            init: Init::Absolute(0.0),
        });
        i
    }
    fn edge(&mut self, a: usize, b: usize) {
        self.spec.edges.push((a, b));
    }
    fn agg(&mut self, groups: Vec<Vec<usize>>) -> usize {
        let k = self.spec.aggs.len();
        self.spec.aggs.push(AggSpec { name: format!("agg{k}"), groups, min: None, max: None, rel: None });
        k
    }
    fn table(&self, f: impl Fn(usize, usize) -> f64) -> Val {
        Val { how: How::Simple, group: 1, table: (0..self.t).map(|t| (0..self.ns).map(|j| f(t, j)).collect()).collect() }
    }
    fn global(&mut self, mut p: Value) -> Value {
        let name = format!("p{}", self.params.len());
        p["meta"] = json!({"name": name});
        self.params.push(p);
        par(&name)
    }
    /// A metric for a node under construction and its meaning. `fixed`: the value may not change over time.
    fn val(&mut self, s: &mut Src, c: &mut Comp, fixed: bool, f: &mut dyn FnMut(&mut Src) -> f64) -> (Value, Val) {
        match s.below(if fixed { 5 } else { 7 }) {
            0 | 1 => {
                let v = f(s);
                (lit(v), Val::lit(v))
            }
            2 => {
                let v = f(s);
                (self.global(json!({"type": "Constant", "value": lit(v)})), Val::lit(v))
            }
            3 => {
                let row: Vec<f64> = (0..self.ns).map(|_| f(s)).collect();
                let m = self.global(json!({"type": "ConstantScenario", "values": {"type": "Literal", "values": row}, "scenario_group": "g"}));
                (m, self.table(|_, j| row[j]))
            }
            4 => {
                let v = f(s);
                let name = format!("l{}", c.locals.len());
                c.locals.push(json!({"meta": {"name": name}, "type": "Constant", "value": lit(v)}));
                (json!({"type": "LocalParameter", "name": name}), Val::lit(v))
            }
            k => {
                let a = f(s);
                let b = f(s);
                let values: Vec<f64> = (0..12).map(|m| if m % 2 == 0 { a } else { b }).collect();
                let p = json!({"type": "MonthlyProfile", "values": {"type": "Literal", "values": values}});
                let months = self.months.clone();
                let v = self.table(|t, _| values[months[t] as usize - 1]);
                if k == 5 {
                    (self.global(p), v)
                } else {
                    let name = format!("l{}", c.locals.len());
                    let mut p = p;
                    p["meta"] = json!({"name": name});
                    c.locals.push(p);
                    (json!({"type": "LocalParameter", "name": name}), v)
                }
            }
        }
    }
    /// An optional metric written under `key`.
    fn maybe(&mut self, s: &mut Src, c: &mut Comp, chance: (u64, u64), key: &str, f: &mut dyn FnMut(&mut Src) -> f64) -> Option<Val> {
        if !s.chance(chance.0, chance.1) {
            return None;
        }
        let (m, v) = self.val(s, c, false, f);
        c.json.insert(key.to_string(), m);
        Some(v)
    }
    fn comp(&self, kind: &str) -> Comp {
        let name = format!("{}{}", kind.to_lowercase(), self.comps.len());
        let mut json = Map::new();
        json.insert("meta".into(), json!({"name": name}));
        json.insert("type".into(), json!(kind));
        Comp {
            name,
            json,
            ins: vec![],
            outs: vec![],
            attrs: vec![],
            comps: vec![],
            stores: vec![],
            forced: false,
            locals: vec![],
            routed_in: vec![],
            routed_out: vec![],
        }
    }
}

fn flow_max(s: &mut Src) -> f64 {
    s.real(0.0, 30.0)
}
fn small(s: &mut Src) -> f64 {
    s.real(0.0, 3.0)
}
fn cost(s: &mut Src) -> f64 {
    s.real(-6.0, 8.0)
}

use Dir::{In, Out as OutD};

fn input(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("Input");
    let n = x.node(Kind::Input);
    let (m, v) = x.val(s, &mut c, false, &mut |s| s.real(0.0, 40.0));
    c.json.insert("max_flow".into(), m);
    x.spec.nodes[n].max = Some(v);
    x.spec.nodes[n].cost = x.maybe(s, &mut c, (1, 3), "cost", &mut |s| s.real(0.0, 6.0));
    x.spec.nodes[n].min = x.maybe(s, &mut c, (1, 12), "min_flow", &mut small);
    c.outs.push((None, vec![n], true));
    c.attrs.push(("Outflow", Meas::Flow(vec![n], OutD)));
    c.comps.push(("Outflow", vec![n]));
    c
}

fn catchment(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("Catchment");
    let n = x.node(Kind::Input);
    let (m, v) = x.val(s, &mut c, false, &mut |s| s.real(0.0, 25.0));
    c.json.insert("flow".into(), m);
    x.spec.nodes[n].max = Some(v.clone());
    x.spec.nodes[n].min = Some(v);
    x.spec.nodes[n].cost = x.maybe(s, &mut c, (1, 5), "cost", &mut |s| s.real(0.0, 6.0));
    c.outs.push((None, vec![n], true));
    c.attrs.push(("Outflow", Meas::Flow(vec![n], OutD)));
    c.comps.push(("Outflow", vec![n]));
    c.forced = true;
    c
}

fn output(x: &mut Ctx, s: &mut Src, sea: bool) -> Comp {
    let mut c = x.comp("Output");
    let n = x.node(Kind::Output);
    c.ins = vec![n];
    c.attrs.push(("Inflow", Meas::Flow(vec![n], In)));
    c.comps.push(("Inflow", vec![n]));
    if !sea {
        x.spec.nodes[n].max = x.maybe(s, &mut c, (9, 10), "max_flow", &mut |s| s.real(0.0, 25.0));
        x.spec.nodes[n].cost = x.maybe(s, &mut c, (5, 6), "cost", &mut |s| s.real(-20.0, 3.0));
        x.spec.nodes[n].min = x.maybe(s, &mut c, (1, 12), "min_flow", &mut small);
        if x.spec.nodes[n].max.is_some() {
            c.attrs.push(("Deficit", Meas::Deficit(n)));
        }
    }
    c
}

fn soft(x: &mut Ctx, s: &mut Src, c: &mut Comp, key: &str) -> (Option<Val>, Option<Val>) {
    let mut o = Map::new();
    let f = if s.chance(9, 10) {
        let (m, v) = x.val(s, c, false, &mut |s| s.real(0.0, 15.0));
        o.insert("flow".into(), m);
        Some(v)
    } else {
        None
    };
    let k = if s.chance(9, 10) {
        let (m, v) = x.val(s, c, false, &mut |s| s.real(-8.0, 12.0));
        o.insert("cost".into(), m);
        Some(v)
    } else {
        None
    };
    c.json.insert(key.into(), Value::Object(o));
    (f, k)
}

fn link(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("Link");
    let l = x.node(Kind::Link);
    let max = x.maybe(s, &mut c, (1, 2), "max_flow", &mut flow_max);
    let min = x.maybe(s, &mut c, (1, 10), "min_flow", &mut small);
    let k = x.maybe(s, &mut c, (1, 2), "cost", &mut cost);
    let smin = if !x.v1 && s.chance(1, 2) { Some(soft(x, s, &mut c, "soft_min")) } else { None };
    let smax = if !x.v1 && s.chance(1, 2) { Some(soft(x, s, &mut c, "soft_max")) } else { None };
    let mut all = vec![l];
    match (smin, smax) {
        (None, None) => {
            x.spec.nodes[l].max = max;
            x.spec.nodes[l].min = min;
            x.spec.nodes[l].cost = k;
        }
        (smin, smax) => {
            let a = smin.as_ref().map(|_| x.node(Kind::Link));
            let b = smax.as_ref().map(|_| x.node(Kind::Link));
            if let Some(a) = a {
                let (f, k) = smin.clone().unwrap();
                x.spec.nodes[a].max = f;
                x.spec.nodes[a].cost = k;
                all.push(a);
            }
            match (&smax, b) {
                (Some((f, kmax)), Some(b)) => {
                    all.push(b);
                    if let Some(a) = a {
                        // up to the soft maximum through the link and its soft minimum, more at the cost of exceeding it
                        x.spec.nodes[b].cost = kmax.clone();
                        x.spec.nodes[l].cost = k;
                        let g = x.agg(vec![vec![l], vec![a]]);
                        x.spec.aggs[g].max = f.clone();
                    } else {
                        x.spec.nodes[b].cost = k;
                        x.spec.nodes[b].max = f.clone();
                        x.spec.nodes[l].cost = kmax.clone();
                    }
                }
                _ => x.spec.nodes[l].cost = k,
            }
            let g = x.agg(all.iter().map(|n| vec![*n]).collect());
            x.spec.aggs[g].max = max;
            x.spec.aggs[g].min = min;
        }
    }
    c.ins = all.clone();
    c.outs.push((None, all.clone(), true));
    c.attrs.push(("Inflow", Meas::Flow(all.clone(), In)));
    c.attrs.push(("Outflow", Meas::Flow(all.clone(), OutD)));
    c.comps.push(("Inflow", all.clone()));
    c.comps.push(("Outflow", all));
    c
}

/// A loss next to a net flow; None if the document has none.
fn loss(x: &mut Ctx, s: &mut Src, c: &mut Comp, net: usize) -> Option<usize> {
    if !s.chance(3, 4) {
        return None;
    }
    let n = x.node(Kind::Output);
    let gross = !x.v1 && s.bool();
    let ty = if gross { "Gross" } else { "Net" };
    if s.chance(1, 6) {
        c.json.insert("loss_factor".into(), json!({"type": ty, "factor": lit(0.0)}));
        x.spec.nodes[n].max = Some(Val::lit(0.0));
        return Some(n);
    }
    let (m, v) = x.val(s, c, false, &mut |s| s.num(0.05, 0.6, 0.05));
    c.json.insert("loss_factor".into(), json!({"type": ty, "factor": m}));
    let g = x.agg(vec![vec![net], vec![n]]);
    x.spec.aggs[g].rel = Some(if gross { Rel::Proportion(vec![v]) } else { Rel::Ratio(vec![Val::lit(1.0), v]) });
    Some(n)
}

fn flows_with_loss(c: &mut Comp, net: usize, loss: Option<usize>) {
    let mut all = vec![net];
    all.extend(loss);
    c.attrs.push(("Inflow", Meas::Flow(all.clone(), In)));
    c.attrs.push(("Outflow", Meas::Flow(vec![net], OutD)));
    c.attrs.push(("Loss", loss.map(|l| Meas::Flow(vec![l], In)).unwrap_or(Meas::Zero)));
    c.comps.push(("Inflow", all));
    c.comps.push(("Outflow", vec![net]));
    c.comps.push(("Loss", loss.into_iter().collect()));
}

fn loss_link(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("LossLink");
    let net = x.node(Kind::Link);
    x.spec.nodes[net].max = x.maybe(s, &mut c, (1, 2), "max_net_flow", &mut flow_max);
    x.spec.nodes[net].min = x.maybe(s, &mut c, (1, 10), "min_net_flow", &mut small);
    x.spec.nodes[net].cost = x.maybe(s, &mut c, (1, 2), "net_cost", &mut cost);
    let l = loss(x, s, &mut c, net);
    c.ins = vec![net];
    c.ins.extend(l);
    c.outs.push((None, vec![net], true));
    flows_with_loss(&mut c, net, l);
    c
}

fn wtw(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("WaterTreatmentWorks");
    let net = x.node(Kind::Link);
    let low = x.node(Kind::Link);
    let high = x.node(Kind::Link);
    x.spec.nodes[net].max = x.maybe(s, &mut c, (1, 2), "max_flow", &mut flow_max);
    x.spec.nodes[net].min = x.maybe(s, &mut c, (1, 10), "min_flow", &mut small);
    x.spec.nodes[net].cost = x.maybe(s, &mut c, (1, 2), "cost", &mut cost);
    x.spec.nodes[low].max = x.maybe(s, &mut c, (2, 3), "soft_min_flow", &mut |s| s.real(0.0, 12.0));
    x.spec.nodes[low].cost = x.maybe(s, &mut c, (2, 3), "soft_min_flow_cost", &mut |s| s.real(-10.0, 2.0));
    x.edge(net, low);
    x.edge(net, high);
    let l = loss(x, s, &mut c, net);
    c.ins = vec![net];
    c.ins.extend(l);
    c.outs.push((None, vec![low, high], true));
    flows_with_loss(&mut c, net, l);
    c
}

fn piecewise_link(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("PiecewiseLink");
    let k = s.size(1, 3);
    let mut steps = Vec::new();
    let mut all = Vec::new();
    // in version 1 either all steps have a cost or none
    let costs = !x.v1 || s.chance(3, 4);
    for _ in 0..k {
        let n = x.node(Kind::Link);
        let mut o = Map::new();
        if s.chance(3, 4) {
            let (m, v) = x.val(s, &mut c, false, &mut |s| s.real(0.0, 12.0));
            o.insert("max_flow".into(), m);
            x.spec.nodes[n].max = Some(v);
        }
        if !x.v1 && s.chance(1, 12) {
            let (m, v) = x.val(s, &mut c, false, &mut small);
            o.insert("min_flow".into(), m);
            x.spec.nodes[n].min = Some(v);
        }
        if costs && (x.v1 || s.chance(3, 4)) {
            let (m, v) = x.val(s, &mut c, false, &mut cost);
            o.insert("cost".into(), m);
            x.spec.nodes[n].cost = Some(v);
        }
        steps.push(Value::Object(o));
        all.push(n);
    }
    c.json.insert("steps".into(), json!(steps));
    c.ins = all.clone();
    c.outs.push((None, all.clone(), true));
    c.attrs.push(("Inflow", Meas::Flow(all.clone(), In)));
    c.attrs.push(("Outflow", Meas::Flow(all.clone(), OutD)));
    c.comps.push(("Inflow", all.clone()));
    c.comps.push(("Outflow", all));
    c
}

fn delay(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("Delay");
    let from = x.node(Kind::Output);
    let to = x.node(Kind::Input);
    let d = s.size(1, 3);
    let initial = s.real(0.0, 5.0);
    c.json.insert("delay".into(), json!({"type": "Literal", "value": d}));
    c.json.insert("initial_value".into(), lit(initial));
    x.rules.push(Rule::Delay { comp: x.comps.len(), to, delay: d, initial });
    c.ins = vec![from];
    c.outs.push((None, vec![to], true));
    c.attrs.push(("Inflow", Meas::Flow(vec![from], In)));
    c.attrs.push(("Outflow", Meas::Flow(vec![to], OutD)));
    c.comps.push(("Inflow", vec![from]));
    c.comps.push(("Outflow", vec![to]));
    c.routed_in = vec!["Inflow"];
    c.forced = true;
    c
}

fn river(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("River");
    let routing = if x.v1 { 0 } else { s.below(3) };
    let has_loss = !x.v1 && s.bool();
    let net = if has_loss || routing == 0 { Some(x.node(Kind::Link)) } else { None };
    let l = if has_loss { loss(x, s, &mut c, net.unwrap()) } else { None };
    // without a loss factor and with routing there is no separate net node
    let net = if routing != 0 && l.is_none() { None } else { net };
    if routing == 0 {
        let net = net.unwrap();
        c.ins = vec![net];
        c.ins.extend(l);
        c.outs.push((None, vec![net], true));
        flows_with_loss(&mut c, net, l);
        return c;
    }
    let from = x.node(Kind::Output);
    let to = x.node(Kind::Input);
    if routing == 1 {
        let d = s.size(1, 3);
        let initial = s.real(0.0, 5.0);
        c.json.insert("routing_method".into(), json!({"type": "Delay", "delay": d, "initial_value": lit(initial)}));
        x.rules.push(Rule::Delay { comp: x.comps.len(), to, delay: d, initial });
    } else {
        let k = s.num(0.5, 3.0, 0.25);
        let mut w = s.num(0.0, 0.4, 0.1);
        if (1.0 - 2.0 * k * w).abs() < 0.05 {
            w = 0.0;
        }
        let (km, kv) = x.val(s, &mut c, true, &mut |_| k);
        let (wm, wv) = x.val(s, &mut c, true, &mut |_| w);
        let initial = if s.bool() { None } else { Some((s.real(0.0, 8.0), s.real(0.0, 8.0))) };
        let ij = match initial {
            None => json!({"type": "SteadyState"}),
            Some((i, o)) => json!({"type": "Specified", "inflow": i, "outflow": o}),
        };
        c.json.insert("routing_method".into(), json!({"type": "Muskingum", "travel_time": km, "weight": wm, "initial_condition": ij}));
        let agg = x.agg(vec![vec![to], vec![from]]);
        x.rules.push(Rule::Muskingum { comp: x.comps.len(), agg, k: kv, x: wv, initial });
    }
    c.ins = vec![from];
    c.routed_in = vec!["Inflow"];
    c.attrs.push(("Inflow", Meas::Flow(vec![from], In)));
    c.comps.push(("Inflow", vec![from]));
    match net {
        None => {
            c.outs.push((None, vec![to], true));
            c.attrs.push(("Outflow", Meas::Flow(vec![to], OutD)));
            c.attrs.push(("Loss", Meas::Zero));
            c.comps.push(("Outflow", vec![to]));
            c.routed_out = vec!["Outflow"];
        }
        Some(net) => {
            x.edge(to, net);
            x.edge(to, l.unwrap());
            c.outs.push((None, vec![net], true));
            c.attrs.push(("Outflow", Meas::Flow(vec![net], OutD)));
            c.attrs.push(("Loss", Meas::Flow(vec![l.unwrap()], In)));
            c.comps.push(("Outflow", vec![net]));
            c.comps.push(("Loss", vec![l.unwrap()]));
            c.routed_out = vec!["Outflow", "Loss"];
        }
    }
    c.forced = true;
    c
}

fn abstraction(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("Abstraction");
    let bypass = x.node(Kind::Link);
    let abs = x.node(Kind::Link);
    let mut river = vec![];
    if let Some(v) = x.maybe(s, &mut c, (3, 4), "mrf", &mut |s| s.real(0.0, 10.0)) {
        let m = x.node(Kind::Link);
        x.spec.nodes[m].max = Some(v);
        x.spec.nodes[m].cost = x.maybe(s, &mut c, (5, 6), "mrf_cost", &mut |s| s.real(-15.0, 2.0));
        river.push(m);
    }
    river.push(bypass);
    x.spec.nodes[abs].max = x.maybe(s, &mut c, (1, 2), "abs_max_flow", &mut flow_max);
    x.spec.nodes[abs].min = x.maybe(s, &mut c, (1, 10), "abs_min_flow", &mut small);
    x.spec.nodes[abs].cost = x.maybe(s, &mut c, (1, 2), "abs_cost", &mut cost);
    let mut all = river.clone();
    all.push(abs);
    c.ins = all.clone();
    let slot = if s.bool() { None } else { Some(json!({"type": "River"})) };
    c.outs.push((slot, river.clone(), true));
    c.outs.push((Some(json!({"type": "Abstraction"})), vec![abs], true));
    c.attrs.push(("Inflow", Meas::Flow(all.clone(), In)));
    c.attrs.push(("Outflow", Meas::Flow(river.clone(), In)));
    c.attrs.push(("Abstraction", Meas::Flow(vec![abs], OutD)));
    c.comps.push(("Inflow", all));
    c.comps.push(("Outflow", river));
    c.comps.push(("Abstraction", vec![abs]));
    c
}

fn gauge(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("RiverGauge");
    let m = x.node(Kind::Link);
    let b = x.node(Kind::Link);
    x.spec.nodes[m].max = x.maybe(s, &mut c, (4, 5), "mrf", &mut |s| s.real(0.0, 10.0));
    x.spec.nodes[m].cost = x.maybe(s, &mut c, (4, 5), "mrf_cost", &mut |s| s.real(-15.0, 2.0));
    x.spec.nodes[b].cost = x.maybe(s, &mut c, (1, 2), "bypass_cost", &mut cost);
    let all = vec![m, b];
    c.ins = all.clone();
    c.outs.push((None, all.clone(), true));
    c.attrs.push(("Inflow", Meas::Flow(all.clone(), In)));
    c.attrs.push(("Outflow", Meas::Flow(all.clone(), OutD)));
    c.comps.push(("Inflow", all.clone()));
    c.comps.push(("Outflow", all));
    c
}

fn split(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("RiverSplitWithGauge");
    let m = x.node(Kind::Link);
    let b = x.node(Kind::Link);
    x.spec.nodes[m].max = x.maybe(s, &mut c, (4, 5), "mrf", &mut |s| s.real(0.0, 10.0));
    x.spec.nodes[m].cost = x.maybe(s, &mut c, (4, 5), "mrf_cost", &mut |s| s.real(-15.0, 2.0));
    let k = s.size(1, 3);
    let mut all = vec![m, b];
    let mut splits = Vec::new();
    let mut factors = Vec::new();
    let mut groups = vec![vec![b]];
    for i in 0..k {
        let n = x.node(Kind::Link);
        let (fm, fv) = if x.v1 {
            let v = s.num(0.05, 0.9, 0.05) / k as f64;
            (lit(v), Val::lit(v))
        } else {
            x.val(s, &mut c, false, &mut |s| s.num(0.05, 0.9, 0.05) / k as f64)
        };
        let named = x.v1 || s.bool();
        let mut o = json!({"factor": fm});
        let slot = if x.v1 && i == 0 && s.chance(1, 3) {
            o["slot_name"] = json!("abstraction");
            json!({"type": "Abstraction"})
        } else if named {
            o["slot_name"] = json!(format!("way {i}"));
            json!({"type": "User", "name": format!("way {i}")})
        } else {
            json!({"type": "Split", "position": i})
        };
        splits.push(o);
        factors.push(fv);
        groups.push(vec![n]);
        all.push(n);
        c.outs.push((Some(slot), vec![n], false));
    }
    c.json.insert("splits".into(), json!(splits));
    let g = x.agg(groups);
    x.spec.aggs[g].rel = Some(Rel::Proportion(factors));
    let slot = if s.bool() { None } else { Some(json!({"type": "River"})) };
    c.outs.insert(0, (slot, all.clone(), true));
    c.ins = all.clone();
    c.attrs.push(("Inflow", Meas::Flow(all.clone(), In)));
    c.attrs.push(("Outflow", Meas::Flow(all.clone(), OutD)));
    c.comps.push(("Inflow", all.clone()));
    c.comps.push(("Outflow", all));
    c
}

fn turbine(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("Turbine");
    let n = x.node(Kind::Link);
    x.spec.nodes[n].cost = x.maybe(s, &mut c, (1, 2), "cost", &mut cost);
    let elev = s.num(0.0, 20.0, 1.0);
    let min_head = s.num(0.0, 4.0, 1.0);
    let eff = s.num(0.5, 1.0, 0.05);
    let density = *s.pick(&[1000.0, 998.0]);
    let fconv = *s.pick(&[1.0, 0.5, 2.0]);
    let econv = *s.pick(&[1e-6, 1e-5]);
    c.json.insert("turbine_elevation".into(), json!(elev));
    c.json.insert("min_head".into(), json!(min_head));
    c.json.insert("efficiency".into(), json!(eff));
    c.json.insert("water_density".into(), json!(density));
    c.json.insert("flow_unit_conversion".into(), json!(fconv));
    c.json.insert("energy_unit_conversion".into(), json!(econv));
    let water = x.maybe(s, &mut c, (3, 4), "water_elevation", &mut |s| s.num(0.0, 50.0, 1.0));
    let (t, ns) = (x.t, x.ns);
    let sizes = [1, ns];
    let per_flow = {
        let f = |t: usize, j: usize| {
            let head = match &water {
                Some(w) => w.at(t, sizes_index(sizes, j)) - elev,
                None => elev,
            }
            .max(0.0);
            if head <= min_head { 0.0 } else { econv * density * 9.81 * head * eff * fconv }
        };
        x.table(f)
    };
    let _ = t;
    let target = x.maybe(s, &mut c, (3, 4), "target", &mut |s| s.real(0.0, 8.0));
    if let Some(tg) = target {
        let limit = x.table(|t, j| {
            let p = per_flow.table[t][j];
            if p == 0.0 { 0.0 } else { tg.at(t, sizes_index(sizes, j)) / p }
        });
        match s.below(5) {
            0 | 1 => {
                c.json.insert("target_type".into(), json!("MaxFlow"));
                x.spec.nodes[n].max = Some(limit);
            }
            2 => x.spec.nodes[n].max = Some(limit),
            3 => {
                c.json.insert("target_type".into(), json!("MinFlow"));
                x.spec.nodes[n].min = Some(limit);
            }
            _ => {
                c.json.insert("target_type".into(), json!("Both"));
                x.spec.nodes[n].min = Some(limit.clone());
                x.spec.nodes[n].max = Some(limit);
            }
        }
    }
    c.ins = vec![n];
    c.outs.push((None, vec![n], true));
    c.attrs.push(("Inflow", Meas::Flow(vec![n], In)));
    c.attrs.push(("Outflow", Meas::Flow(vec![n], OutD)));
    c.attrs.push(("Power", Meas::Power(n, per_flow)));
    c.comps.push(("Inflow", vec![n]));
    c.comps.push(("Outflow", vec![n]));
    c
}

fn store(x: &mut Ctx, s: &mut Src, c: &mut Comp) -> (usize, f64) {
    let n = x.node(Kind::Storage);
    let top = s.real(1.0, 120.0).max(1.0);
    let (m, v) = x.val(s, c, true, &mut |_| top);
    c.json.insert("max_volume".into(), m);
    x.spec.nodes[n].max = Some(v);
    if s.chance(1, 3) {
        let (m, v) = x.val(s, c, true, &mut |s| s.num(0.0, 0.4, 0.1) * top);
        c.json.insert("min_volume".into(), m);
        x.spec.nodes[n].min = Some(v);
    }
    x.spec.nodes[n].cost = x.maybe(s, c, (2, 3), "cost", &mut |s| s.real(-8.0, 2.0));
    x.spec.nodes[n].init = if s.bool() { Init::Proportional(s.num(0.5, 1.0, 0.125)) } else { Init::Absolute(s.num(0.5, 1.0, 0.125) * top) };
    c.json.insert("initial_volume".into(), initial(&x.spec.nodes[n].init));
    c.stores = vec![n];
    c.ins = vec![n];
    c.attrs.push(("Volume", Meas::Vol(vec![n])));
    c.attrs.push(("ProportionalVolume", Meas::PVol(vec![n])));
    c.attrs.push(("MaxVolume", Meas::MaxVol(n)));
    (n, top)
}

fn storage(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("Storage");
    let (n, _) = store(x, s, &mut c);
    c.outs.push((None, vec![n], true));
    c
}

fn reservoir(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("Reservoir");
    let (n, top) = store(x, s, &mut c);
    let comp = if s.bool() {
        let k = x.node(Kind::Link);
        let (m, v) = x.val(s, &mut c, false, &mut small);
        c.json.insert("compensation".into(), m);
        x.spec.nodes[k].min = Some(v);
        x.edge(n, k);
        Some(k)
    } else {
        None
    };
    let spill = match s.below(3) {
        0 => None,
        1 => {
            c.json.insert("spill".into(), json!("OutputNode"));
            let k = x.node(Kind::Output);
            x.edge(n, k);
            Some((k, false))
        }
        _ => {
            c.json.insert("spill".into(), json!("LinkNode"));
            let k = x.node(Kind::Link);
            x.edge(n, k);
            Some((k, true))
        }
    };
    let connect = match s.below(3) {
        0 => true,
        1 => {
            c.json.insert("connect_compensation_to_spill".into(), json!(true));
            true
        }
        _ => {
            c.json.insert("connect_compensation_to_spill".into(), json!(false));
            false
        }
    };
    let mut comp_connected = false;
    if let (true, Some(k), Some((sp, _))) = (connect, comp, spill) {
        x.edge(k, sp);
        comp_connected = true;
    }
    let slot = if s.bool() { None } else { Some(json!({"type": "Storage"})) };
    c.outs.push((slot, vec![n], spill.is_none()));
    if let Some(k) = comp {
        c.outs.push((Some(json!({"type": "Compensation"})), vec![k], !comp_connected));
    }
    if let Some((k, true)) = spill {
        c.outs.push((Some(json!({"type": "Spill"})), vec![k], true));
    }
    let mut rain = None;
    let mut evap = None;
    if s.chance(2, 3) {
        let prop = s.bool();
        let hi = if prop { 1.0 } else { top };
        let area = if s.bool() {
            let a: Vec<f64> = (0..3).map(|_| s.num(0.0, 6.0, 0.5)).collect();
            let v = vec![-0.1 * hi, s.num(0.25, 0.75, 0.25) * hi, 1.1 * hi];
            c.json.insert("surface_area".into(), json!({"data": {"Interpolated": {"storage": {"type": "Literal", "values": v}, "area": {"type": "Literal", "values": a}}}, "is_storage_proportional": prop}));
            Area::Points(v.into_iter().zip(a).collect())
        } else {
            let p = vec![s.num(0.0, 3.0, 0.5), s.num(0.0, 2.0, 0.25) / hi, s.num(0.0, 1.0, 0.25) / hi / hi];
            c.json.insert("surface_area".into(), json!({"data": {"Polynomial": p}, "is_storage_proportional": prop}));
            Area::Poly(p)
        };
        for which in 0..2 {
            if !s.chance(2, 3) {
                continue;
            }
            let (m, depth) = x.val(s, &mut c, false, &mut |s| s.num(0.0, 1.5, 0.25));
            let mut o = json!({"data": m});
            let use_max = match s.below(3) {
                0 => false,
                1 => {
                    o["use_max_area"] = json!(false);
                    false
                }
                _ => {
                    o["use_max_area"] = json!(true);
                    true
                }
            };
            let k = x.node(if which == 0 { Kind::Input } else { Kind::Output });
            if which == 0 {
                x.edge(k, n);
                rain = Some(k);
                c.json.insert("rainfall".into(), o);
            } else {
                if s.chance(2, 3) {
                    let (m, v) = x.val(s, &mut c, false, &mut |s| s.real(-15.0, 0.0));
                    o["cost"] = m;
                    x.spec.nodes[k].cost = Some(v);
                }
                x.edge(n, k);
                evap = Some(k);
                c.json.insert("evaporation".into(), o);
            }
            x.rules.push(Rule::Depth { node: k, store: n, depth, area: area.clone(), proportional: prop, use_max, both: which == 0 });
        }
    }
    let mut leak = None;
    if s.chance(1, 3) {
        let k = x.node(Kind::Output);
        let (m, v) = x.val(s, &mut c, false, &mut small);
        let mut o = json!({"loss": m});
        x.spec.nodes[k].max = Some(v);
        if s.chance(2, 3) {
            let (m, v) = x.val(s, &mut c, false, &mut |s| s.real(-15.0, 0.0));
            o["cost"] = m;
            x.spec.nodes[k].cost = Some(v);
        }
        x.edge(n, k);
        leak = Some(k);
        c.json.insert("leakage".into(), o);
    }
    c.attrs.push(("Compensation", comp.map(|k| Meas::Flow(vec![k], In)).unwrap_or(Meas::Zero)));
    c.attrs.push(("Rainfall", rain.map(|k| Meas::Flow(vec![k], OutD)).unwrap_or(Meas::Zero)));
    c.attrs.push(("Evaporation", evap.map(|k| Meas::Flow(vec![k], In)).unwrap_or(Meas::Zero)));
    c.comps.push(("Compensation", comp.into_iter().collect()));
    c.comps.push(("Rainfall", rain.into_iter().collect()));
    c.comps.push(("Evaporation", evap.into_iter().collect()));
    c.comps.push(("Loss", leak.into_iter().collect()));
    c.forced = true;
    c
}

fn piecewise_storage(x: &mut Ctx, s: &mut Src) -> Comp {
    let mut c = x.comp("PiecewiseStorage");
    let top = s.real(4.0, 120.0).max(4.0);
    let (m, total) = x.val(s, &mut c, true, &mut |_| top);
    c.json.insert("max_volume".into(), m);
    let minv = if s.chance(1, 3) {
        let (m, v) = x.val(s, &mut c, true, &mut |s| s.num(0.0, 0.5, 0.125) * top);
        c.json.insert("min_volume".into(), m);
        Some(v)
    } else {
        None
    };
    let init_p = if s.bool() { Ok(s.num(0.5, 1.0, 0.0625)) } else { Err(s.num(0.5, 1.0, 0.0625) * top) };
    c.json.insert("initial_volume".into(), match init_p {
        Ok(p) => json!({"type": "Proportional", "proportion": p}),
        Err(v) => json!({"type": "Absolute", "volume": v}),
    });
    let k = s.size(1, 2);
    let sizes = [1, x.ns];
    let mut steps = Vec::new();
    let mut lower: Option<Val> = None;
    let mut nodes = Vec::new();
    let mut prior = x.table(|_, _| 0.0);
    let mut at = 0.0;
    for i in 0..=k {
        let n = x.node(Kind::Storage);
        let (upper, cost_v) = if i < k {
            let lo = at;
            let (m, v) = x.val(s, &mut c, true, &mut |s| lo + s.num(0.1, 0.8, 0.1) * (1.0 - lo));
            // the next curve lies above every value of this one
            at = v.table.iter().flatten().copied().fold(lo, f64::max);
            let mut o = json!({"control_curve": m});
            let mut cv = None;
            if s.chance(5, 6) {
                let (m, v) = x.val(s, &mut c, false, &mut |s| s.real(-8.0, 2.0));
                o["cost"] = m;
                cv = Some(v);
            }
            steps.push(o);
            (Some(v), cv)
        } else {
            (None, x.maybe(s, &mut c, (5, 6), "cost", &mut |s| s.real(-8.0, 2.0)))
        };
        let size = {
            let (lower, upper, total) = (&lower, &upper, &total);
            x.table(|t, j| {
                let g = sizes_index(sizes, j);
                let hi = upper.as_ref().map(|v| v.at(t, g)).unwrap_or(1.0);
                let lo = lower.as_ref().map(|v| v.at(t, g)).unwrap_or(0.0);
                total.at(t, g) * (hi - lo)
            })
        };
        if let Some(mv) = &minv {
            let v = x.table(|t, j| (mv.at(t, sizes_index(sizes, j)) - prior.table[t][j]).max(0.0).min(size.table[t][j]));
            x.spec.nodes[n].min = Some(v);
        }
        x.spec.nodes[n].cost = cost_v;
        // every scenario has its own initial volume; see `initial_volumes`
        x.spec.nodes[n].init = match init_p {
            Ok(p) => Init::DistProportional { total: f64::NAN, proportion: p, prior: f64::NAN },
            Err(v) => Init::DistAbsolute { absolute: v, prior: f64::NAN },
        };
        prior = x.table(|t, j| prior.table[t][j] + size.table[t][j]);
        x.spec.nodes[n].max = Some(size);
        if let Some(p) = nodes.last() {
            x.edge(*p, n);
            x.edge(n, *p);
        }
        nodes.push(n);
        lower = upper;
    }
    c.json.insert("steps".into(), json!(steps));
    c.stores = nodes.clone();
    // all but the top one are connected; which makes no difference as the layers exchange freely
    c.ins = nodes[..k].to_vec();
    c.outs.push((None, nodes[..k].to_vec(), true));
    c.attrs.push(("Volume", Meas::Vol(nodes.clone())));
    c.attrs.push(("ProportionalVolume", Meas::PVol(nodes)));
    c
}

/// Starting volumes of every storage in a scenario.
fn initial_volumes(spec: &Spec, comps: &[Comp], gi: [usize; 2]) -> Vec<f64> {
    let mut v = vec![f64::NAN; spec.nodes.len()];
    for c in comps {
        let total: f64 = c.stores.iter().map(|n| volume_limits(&spec.nodes[*n], 0, gi).1).sum();
        let mut left = None;
        for n in &c.stores {
            let size = volume_limits(&spec.nodes[*n], 0, gi).1;
            v[*n] = match spec.nodes[*n].init {
                Init::Absolute(x) => x,
                Init::Proportional(p) => p * size,
                Init::DistAbsolute { absolute: x, .. } => {
                    let l = left.unwrap_or(x);
                    let take = f64::min(l, size);
                    left = Some(l - take);
                    take
                }
                Init::DistProportional { proportion, .. } => {
                    let l = left.unwrap_or(proportion * total);
                    let take = f64::min(l, size);
                    left = Some(l - take);
                    take
                }
            };
        }
    }
    v
}

struct SchemaEdge {
    json: Value,
    internal: Vec<(usize, usize)>,
}

struct Virtual {
    json: Value,
    name: String,
    attrs: Vec<(&'static str, Meas)>,
    /// virtual storage index
    vs: Option<usize>,
}

pub(crate) struct System {
    x: Ctx,
    edges: Vec<SchemaEdge>,
    virt: Vec<Virtual>,
    pub doc: Value,
    /// (what, measure) of each column of the metric set
    cols: Vec<(String, Col)>,
}

impl System {
    pub fn step_hours(&self) -> i64 {
        self.x.spec.step_hours
    }
}

enum Col {
    Attr(usize, Meas),
    Edge(Vec<(usize, usize)>),
    Virt(Meas),
    VsVolume(usize),
    VsProportional(usize),
}

pub(crate) fn gen_system(s: &mut Src) -> System {
    gen_system_of(s, false)
}

pub(crate) fn gen_system_of(s: &mut Src, v1: bool) -> System {
    let start: Date = gen_date(s);
    let step_hours = if v1 { *s.pick(&[24i64, 24, 24, 48, 168]) } else { *s.pick(&[24i64, 24, 24, 48, 168, 12]) };
    let t = s.size(1, 6);
    let ns = s.size(1, 3);
    let spec = Spec { start, step_hours, t, sizes: [1, ns], nodes: vec![], edges: vec![], aggs: vec![], vss: vec![] };
    let months = (0..t).map(|k| spec.date(k).month()).collect();
    let mut x = Ctx { t, ns, months, params: vec![], spec, rules: vec![], comps: vec![], v1 };
    for _ in 0..s.size(1, 3) {
        let c = match s.below(5) {
            0 | 1 => input(&mut x, s),
            2 => catchment(&mut x, s),
            3 => storage(&mut x, s),
            _ if v1 => storage(&mut x, s),
            _ => reservoir(&mut x, s),
        };
        x.comps.push(c);
    }
    for _ in 0..s.size(1, 4) {
        let kind = if v1 { *s.pick(&[0u64, 1, 3, 4, 5, 8, 9, 13]) } else { s.below(13) };
        let c = match kind {
            0 => link(&mut x, s),
            1 => loss_link(&mut x, s),
            2 => wtw(&mut x, s),
            3 => piecewise_link(&mut x, s),
            4 => delay(&mut x, s),
            5 | 6 => river(&mut x, s),
            7 => abstraction(&mut x, s),
            8 => gauge(&mut x, s),
            9 => split(&mut x, s),
            10 => turbine(&mut x, s),
            11 => reservoir(&mut x, s),
            13 => storage(&mut x, s),
            _ => piecewise_storage(&mut x, s),
        };
        x.comps.push(c);
    }
    for _ in 0..s.size(1, 2) {
        let c = output(&mut x, s, false);
        x.comps.push(c);
    }
    let sea = x.comps.len();
    let c = output(&mut x, s, true);
    x.comps.push(c);
    // edges between nodes of the document
    let n = x.comps.len();
    let mut edges: Vec<SchemaEdge> = Vec::new();
    let connect = |x: &mut Ctx, edges: &mut Vec<SchemaEdge>, i: usize, slot: usize, j: usize| -> bool {
        let (sl, from, _) = &x.comps[i].outs[slot];
        let mut internal = Vec::new();
        for a in from {
            for b in &x.comps[j].ins {
                internal.push((*a, *b));
            }
        }
        if internal.is_empty() || internal.iter().any(|e| x.spec.edges.contains(e)) {
            return false;
        }
        let mut json = json!({"from_node": x.comps[i].name, "to_node": x.comps[j].name});
        if let Some(sl) = sl {
            json["from_slot"] = sl.clone();
        }
        x.spec.edges.extend(internal.iter().copied());
        edges.push(SchemaEdge { json, internal });
        true
    };
    for j in 0..n {
        if x.comps[j].ins.is_empty() {
            continue;
        }
        let ups: Vec<usize> = (0..j).filter(|i| !x.comps[*i].outs.is_empty()).collect();
        if ups.is_empty() {
            continue;
        }
        for _ in 0..s.size(1, 2) {
            let i = ups[ups.len() - 1 - s.us(ups.len())];
            let slot = s.us(x.comps[i].outs.len());
            connect(&mut x, &mut edges, i, slot, j);
        }
    }
    for i in 0..n {
        for slot in 0..x.comps[i].outs.len() {
            let (_, from, must) = x.comps[i].outs[slot].clone();
            let used = edges.iter().any(|e| e.internal.iter().any(|(a, _)| *a == from[0]));
            if must && !used {
                let later: Vec<usize> = (i + 1..n).filter(|j| !x.comps[*j].ins.is_empty()).collect();
                let j = later[s.us(later.len())];
                if !connect(&mut x, &mut edges, i, slot, j) && !connect(&mut x, &mut edges, i, slot, sea) {
                    // all are reached already through another slot
                    let k = x.comps.len();
                    let c = output(&mut x, s, true);
                    x.comps.push(c);
                    connect(&mut x, &mut edges, i, slot, k);
                }
            }
            if x.comps[i].forced && slot == 0 && s.chance(4, 5) {
                connect(&mut x, &mut edges, i, slot, sea);
            }
        }
    }
    let n = x.comps.len();
    // every sink has something upstream: routing and losses end without edges otherwise
    for j in 0..n {
        let ins = x.comps[j].ins.clone();
        if !ins.is_empty() && !x.spec.edges.iter().any(|e| e.1 == ins[0]) {
            let ups: Vec<usize> = (0..j).filter(|i| !x.comps[*i].outs.is_empty()).collect();
            for i in ups {
                if connect(&mut x, &mut edges, i, 0, j) {
                    break;
                }
            }
        }
    }
    // virtual nodes
    let mut virt: Vec<Virtual> = Vec::new();
    let default_comp = |c: &Comp| -> &'static str {
        let kind = c.json["type"].as_str().unwrap();
        match kind {
            "Output" => "Inflow",
            "Abstraction" => "Abstraction",
            "Reservoir" => "Compensation",
            _ => "Outflow",
        }
    };
    let flow_refs: Vec<(usize, usize)> = x
        .comps
        .iter()
        .enumerate()
        .flat_map(|(i, c)| c.comps.iter().enumerate().filter(move |(_, k)| !k.1.is_empty() && (!v1 || k.0 == default_comp(c))).map(move |(k, _)| (i, k)))
        .collect();
    let pick_refs = |x: &Ctx, s: &mut Src, max: usize| -> (Vec<Value>, Vec<Vec<usize>>) {
        let mut refs = Vec::new();
        let mut groups: Vec<Vec<usize>> = Vec::new();
        let mut used: Vec<usize> = Vec::new();
        let want = s.size(1, max);
        for _ in 0..want {
            let (i, k) = *s.pick(&flow_refs);
            let (name, nodes) = x.comps[i].comps[k].clone();
            if nodes.iter().any(|n| used.contains(n)) {
                continue;
            }
            used.extend(nodes.iter().copied());
            let mut r = json!({"name": x.comps[i].name});
            if name != default_comp(&x.comps[i]) || (!v1 && s.bool()) {
                r["component"] = json!(name);
            }
            refs.push(r);
            groups.push(nodes);
        }
        (refs, groups)
    };
    if s.chance(1, 2) {
        let (refs, groups) = pick_refs(&x, s, 3);
        let mut c = x.comp("Aggregated");
        c.json.insert("meta".into(), json!({"name": "v-agg"}));
        c.json.insert("nodes".into(), json!(refs));
        let g = x.agg(groups.clone());
        let m = groups.len();
        match s.below(4) {
            1 if m >= 2 => {
                let f: Vec<(Value, Val)> = (0..m).map(|_| x.val(s, &mut c, false, &mut |s| s.num(0.25, 4.0, 0.25))).collect();
                c.json.insert("relationship".into(), json!({"type": "Ratio", "factors": f.iter().map(|v| v.0.clone()).collect::<Vec<_>>()}));
                x.spec.aggs[g].rel = Some(Rel::Ratio(f.into_iter().map(|v| v.1).collect()));
            }
            2 if m >= 2 && !v1 => {
                let f: Vec<(Value, Val)> = (0..m - 1).map(|_| x.val(s, &mut c, false, &mut |s| s.num(0.05, 0.9, 0.05) / (m - 1) as f64)).collect();
                c.json.insert("relationship".into(), json!({"type": "Proportion", "factors": f.iter().map(|v| v.0.clone()).collect::<Vec<_>>()}));
                x.spec.aggs[g].rel = Some(Rel::Proportion(f.into_iter().map(|v| v.1).collect()));
            }
            _ => {
                x.spec.aggs[g].max = x.maybe(s, &mut c, (4, 5), "max_flow", &mut flow_max);
                x.spec.aggs[g].min = x.maybe(s, &mut c, (1, 8), "min_flow", &mut small);
            }
        }
        if !c.locals.is_empty() {
            c.json.insert("parameters".into(), json!(c.locals));
        }
        let all: Vec<usize> = groups.into_iter().flatten().collect();
        virt.push(Virtual {
            json: Value::Object(c.json),
            name: "v-agg".into(),
            attrs: vec![("Inflow", Meas::Flow(all.clone(), In)), ("Outflow", Meas::Flow(all, OutD))],
            vs: None,
        });
    }
    let stores: Vec<usize> = (0..n).filter(|i| !x.comps[*i].stores.is_empty()).collect();
    if !stores.is_empty() && s.chance(1, 3) {
        let mut picked = stores.clone();
        s.shuffle(&mut picked);
        picked.truncate(s.size(1, picked.len()));
        let all: Vec<usize> = picked.iter().flat_map(|i| x.comps[*i].stores.clone()).collect();
        let refs: Vec<Value> = picked.iter().map(|i| json!({"name": x.comps[*i].name})).collect();
        virt.push(Virtual {
            json: json!({"meta": {"name": "v-store"}, "type": "AggregatedStorage", "storage_nodes": refs}),
            name: "v-store".into(),
            attrs: vec![("Volume", Meas::Vol(all.clone())), ("ProportionalVolume", Meas::PVol(all))],
            vs: None,
        });
    }
    if s.chance(1, 2) {
        let (refs, groups) = pick_refs(&x, s, 3);
        let mut c = x.comp("VirtualStorage");
        c.json.insert("meta".into(), json!({"name": "v-lic"}));
        c.json.insert("nodes".into(), json!(refs));
        let factors: Option<Vec<f64>> = if s.bool() { Some(groups.iter().map(|_| s.num(0.25, 2.0, 0.25)).collect()) } else { None };
        if let Some(f) = &factors {
            c.json.insert("factors".into(), json!(f));
        }
        let top = s.real(4.0, 80.0).max(4.0);
        let (m, max) = x.val(s, &mut c, true, &mut |_| top);
        c.json.insert("max_volume".into(), m);
        let init = if s.bool() { Init::Proportional(s.num(0.25, 1.0, 0.125)) } else { Init::Absolute(s.num(0.25, 1.0, 0.125) * top) };
        c.json.insert("initial_volume".into(), initial(&init));
        if !c.locals.is_empty() {
            c.json.insert("parameters".into(), json!(c.locals));
        }
        let flat: Option<Vec<f64>> = factors.map(|f| groups.iter().zip(&f).flat_map(|(g, f)| vec![*f; g.len()]).collect());
        x.spec.vss.push(VsSpec {
            name: "v-lic".into(),
            nodes: groups.into_iter().flatten().collect(),
            factors: flat,
            min: None,
            max,
            init,
            cost: None,
            reset: Reset::Never,
            reset_to_max: false,
            window: None,
            active: None,
        });
        virt.push(Virtual { json: Value::Object(c.json), name: "v-lic".into(), attrs: vec![], vs: Some(0) });
    }
    // the document
    let mut metrics = Vec::new();
    let mut cols: Vec<(String, Col)> = Vec::new();
    let default_attr = |c: &Comp| -> &'static str {
        match c.json["type"].as_str().unwrap() {
            "Output" => "Inflow",
            "Abstraction" => "Abstraction",
            "Reservoir" | "Storage" | "PiecewiseStorage" => "Volume",
            _ => "Outflow",
        }
    };
    for (i, c) in x.comps.iter().enumerate() {
        for (a, m) in &c.attrs {
            let mut j = json!({"type": "Node", "name": c.name});
            if *a != default_attr(c) || s.bool() {
                j["attribute"] = json!(a);
            }
            metrics.push(j);
            cols.push((format!("{} of {}", a, c.name), Col::Attr(i, m.clone())));
        }
    }
    for e in &edges {
        metrics.push(json!({"type": "Edge", "edge": e.json}));
        cols.push((format!("flow of edge {}", e.json), Col::Edge(e.internal.clone())));
    }
    for v in &virt {
        for (a, m) in &v.attrs {
            metrics.push(json!({"type": "VirtualNode", "name": v.name, "attribute": a}));
            cols.push((format!("{} of {}", a, v.name), Col::Virt(m.clone())));
        }
        if let Some(k) = v.vs {
            metrics.push(json!({"type": "VirtualNode", "name": v.name, "attribute": "Volume"}));
            cols.push((format!("Volume of {}", v.name), Col::VsVolume(k)));
            metrics.push(json!({"type": "VirtualNode", "name": v.name, "attribute": "ProportionalVolume"}));
            cols.push((format!("ProportionalVolume of {}", v.name), Col::VsProportional(k)));
        }
    }
    let mut nodes = Vec::new();
    for c in x.comps.iter_mut() {
        if !c.locals.is_empty() {
            s.shuffle(&mut c.locals);
            c.json.insert("parameters".into(), json!(c.locals));
        }
        nodes.push(Value::Object(c.json.clone()));
    }
    let mut ej: Vec<Value> = edges.iter().map(|e| e.json.clone()).collect();
    s.shuffle(&mut nodes);
    s.shuffle(&mut ej);
    let mut net = json!({"nodes": nodes, "edges": ej, "metric_sets": [{"name": "all", "metrics": metrics}]});
    if !x.params.is_empty() {
        net["parameters"] = json!(x.params);
    }
    if !virt.is_empty() {
        net["virtual_nodes"] = json!(virt.iter().map(|v| v.json.clone()).collect::<Vec<_>>());
    }
    let groups = json!({"groups": [{"name": "g", "size": ns}]});
    let doc = document(time_section(start.at(0, 0, 0, 0), step_hours, t), Some(groups), net);
    System { x, edges, virt, doc, cols }
}

/// What a run must look like from outside.
pub(crate) fn explain(y: &System, cap: &Captured, outcome: &Result<(), String>, info: &mut Info) -> Result<bool, (String, String)> {
    let x = &y.x;
    let spec = &x.spec;
    let dt = spec.days();
    let done = cap.len();
    let names: Vec<&str> = x.comps.iter().filter(|c| !c.stores.is_empty()).map(|c| c.name.as_str()).collect();
    let mut clear = 0i64;
    let mut moved = false;
    if outcome.is_ok() && done != spec.t {
        return Err(("composite-outcome".into(), format!("{done} of {} timesteps recorded", spec.t)));
    }
    let col_of = |comp: usize, attr: &str| -> usize {
        let want = format!("{} of {}", attr, x.comps[comp].name);
        y.cols.iter().position(|c| c.0 == want).unwrap()
    };
    for sim in 0..x.ns {
        let gi = spec.gi(sim);
        let mut vol = initial_volumes(spec, &x.comps, gi);
        let mut vsv: Vec<f64> = spec.vss.iter().map(|v| v.init.volume(v.max.at(0, gi))).collect();
        for t in 0..spec.t {
            let here = format!("t={t} scenario={sim}");
            let start = Start { vol: vol.clone(), vs: vsv.clone() };
            let mut out_of_limits = false;
            for (i, n) in spec.nodes.iter().enumerate() {
                if n.kind == Kind::Storage {
                    let (lo, hi) = volume_limits(n, t, gi);
                    out_of_limits |= vol[i] < lo - 1e-9 || vol[i] > hi + 1e-9;
                }
            }
            for (k, v) in spec.vss.iter().enumerate() {
                out_of_limits |= vsv[k] < -1e-9 || vsv[k] > v.max.at(t, gi) + 1e-9;
            }
            // limits following from the past
            let past = |comp: usize, attrs: &[&'static str], k: usize| -> f64 {
                attrs.iter().map(|a| cap[k][sim].0[col_of(comp, a)]).sum()
            };
            let mut now = spec.clone();
            for r in &x.rules {
                match r {
                    Rule::Delay { comp, to, delay, initial } => {
                        let v = if t < *delay { *initial } else { past(*comp, &x.comps[*comp].routed_in, t - delay) };
                        now.nodes[*to].min = Some(Val::lit(v));
                        now.nodes[*to].max = Some(Val::lit(v));
                    }
                    Rule::Muskingum { comp, agg, k, x: w, initial } => {
                        let (k, w) = (k.at(t, gi), w.at(t, gi));
                        let prev = if t == 0 {
                            *initial
                        } else {
                            Some((past(*comp, &x.comps[*comp].routed_in, t - 1), past(*comp, &x.comps[*comp].routed_out, t - 1)))
                        };
                        // (O2 - O1) storage balance: K (x I + (1-x) O) changes by (I1+I2-O1-O2)/2
                        let rel = match prev {
                            None => (vec![1.0, -1.0], 0.0),
                            Some((i1, o1)) => {
                                let d = 2.0 * k * (1.0 - w) + 1.0;
                                let c0 = (1.0 - 2.0 * k * w) / d;
                                let c1 = (1.0 + 2.0 * k * w) / d;
                                let c2 = (2.0 * k * (1.0 - w) - 1.0) / d;
                                (vec![1.0, -c0], c1 * i1 + c2 * o1)
                            }
                        };
                        now.aggs[*agg].rel = Some(Rel::Coefficients(rel.0.into_iter().map(Val::lit).collect(), Some(Val::lit(rel.1))));
                    }
                    Rule::Depth { node, store, depth, area, proportional, use_max, both } => {
                        let top = volume_limits(&spec.nodes[*store], t, gi).1;
                        let v = if *use_max { top } else { vol[*store] };
                        let a = area.at(if *proportional { v / top } else { v });
                        let f = Val::lit(a * depth.at(t, gi));
                        if *both {
                            now.nodes[*node].min = Some(f.clone());
                        }
                        now.nodes[*node].max = Some(f);
                    }
                }
            }
            let base = step_lp(&now, t, sim, &start);
            let best = lp::solve(&base);
            if t == done {
                match &best {
                    Out::Optimal { .. } if !out_of_limits => clear += 1,
                    Out::Infeasible(r) if *r > 1e-5 => {
                        info.label("infeasible-rejected");
                        clear -= 1000
                    }
                    _ => clear -= 1000,
                }
                break;
            }
            let (values, vols) = &cap[t][sim];
            if values.len() != y.cols.len() {
                return Err(("composite-columns".into(), format!("{here}: {} values recorded for {} metrics", values.len(), y.cols.len())));
            }
            // volumes
            let mut after = vec![f64::NAN; spec.nodes.len()];
            for (k, name) in names.iter().enumerate() {
                let c = x.comps.iter().find(|c| c.name == *name).unwrap();
                if vols[k].len() != c.stores.len() {
                    return Err(("composite-stores".into(), format!("{here}: {name} has {} stores, expected {}", vols[k].len(), c.stores.len())));
                }
                for (n, v) in c.stores.iter().zip(&vols[k]) {
                    after[*n] = *v;
                }
            }
            let mut vs_after = vsv.clone();
            let mut lp2 = base.clone();
            let mut fixed = |a: Vec<(usize, f64)>, v: f64, slack: f64, what: String| {
                let tol = slack * (1.0 + v.abs());
                lp2.rows.push(Row { a, lo: v - tol, hi: v + tol, what });
            };
            let flows = |nodes: &[usize], d: Dir| -> Vec<(usize, f64)> {
                nodes
                    .iter()
                    .flat_map(|n| if d == In { spec.ins(*n).collect::<Vec<_>>() } else { spec.outs(*n).collect() })
                    .map(|e| (e, 1.0))
                    .collect()
            };
            let close = |a: f64, b: f64| (a - b).abs() <= 3e-6 * (1.0 + b.abs());
            for (k, (what, col)) in y.cols.iter().enumerate() {
                let v = values[k];
                if !v.is_finite() {
                    return Err(("composite-value".into(), format!("{here}: {what} is {v}")));
                }
                let expect = |want: f64| -> Result<(), (String, String)> {
                    if close(v, want) { Ok(()) } else { Err(("composite-value".into(), format!("{here}: {what} is {v}, expected {want}"))) }
                };
                let meas = match col {
                    Col::Attr(_, m) | Col::Virt(m) => m,
                    Col::Edge(internal) => {
                        let a = internal.iter().map(|e| (spec.edges.iter().position(|x| x == e).unwrap(), 1.0)).collect();
                        fixed(a, v, 2e-6, what.clone());
                        moved |= v > 1e-6;
                        continue;
                    }
                    Col::VsVolume(k) => {
                        vs_after[*k] = v;
                        continue;
                    }
                    Col::VsProportional(k) => {
                        let hi = spec.vss[*k].max.at(t, gi);
                        expect(vs_after[*k] / hi)?;
                        continue;
                    }
                };
                match meas {
                    Meas::Flow(n, d) => fixed(flows(n, *d), v, 2e-6, what.clone()),
                    Meas::Vol(n) => expect(n.iter().map(|n| after[*n]).sum())?,
                    Meas::PVol(n) => {
                        let total: f64 = n.iter().map(|n| volume_limits(&spec.nodes[*n], t, gi).1).sum();
                        let sum: f64 = n.iter().map(|n| after[*n]).sum();
                        expect(if total == 0.0 { 1.0 } else { sum / total })?
                    }
                    Meas::MaxVol(n) => expect(volume_limits(&spec.nodes[*n], t, gi).1)?,
                    Meas::Zero => expect(0.0)?,
                    Meas::Deficit(n) => {
                        let hi = flow_limits(&spec.nodes[*n].min, &spec.nodes[*n].max, t, gi).1;
                        // the inflow column comes just before
                        expect((hi - values[k - 1]).max(0.0))?
                    }
                    Meas::Power(_, f) => expect(values[k - 1] * f.at(t, gi))?,
                }
            }
            for (i, n) in spec.nodes.iter().enumerate() {
                if n.kind == Kind::Storage {
                    let mut a = flows(&[i], In);
                    a.extend(flows(&[i], OutD).into_iter().map(|(e, _)| (e, -1.0)));
                    let d = (after[i] - vol[i]) / dt;
                    fixed(a, d, 4e-6 * (1.0 + vol[i].abs() / dt), format!("change of volume of {} from {} to {}", n.name, vol[i], after[i]));
                }
            }
            for (k, v) in spec.vss.iter().enumerate() {
                let mut a = Vec::new();
                for (j, i) in v.nodes.iter().enumerate() {
                    let f = v.factors.as_ref().map(|f| f[j]).unwrap_or(1.0);
                    let d = if spec.nodes[*i].kind == Kind::Output { In } else { OutD };
                    a.extend(flows(&[*i], d).into_iter().map(|(e, _)| (e, f)));
                }
                let d = (vsv[k] - vs_after[k]) / dt;
                fixed(a, d, 4e-6 * (1.0 + vsv[k].abs() / dt), format!("use of {} from {} to {}", v.name, vsv[k], vs_after[k]));
            }
            match lp::solve(&lp2) {
                Out::Infeasible(r) if r > 2e-5 => {
                    // which observation is the first that can not be explained?
                    let mut lp3 = base.clone();
                    let mut culprit = "the limits of the nodes alone".to_string();
                    if !matches!(best, Out::Infeasible(_)) {
                        for row in &lp2.rows[base.rows.len()..] {
                            lp3.rows.push(row.clone());
                            if let Out::Infeasible(r) = lp::solve(&lp3) {
                                if r > 2e-5 {
                                    culprit = format!("{} in [{}, {}]", row.what, row.lo, row.hi);
                                    break;
                                }
                            }
                        }
                    }
                    let seen: Vec<String> = y.cols.iter().zip(values).map(|(c, v)| format!("{} = {v}", c.0)).collect();
                    return Err((
                        "composite-structure".into(),
                        format!("{here}: no allocation of the documented structure explains what was reported (by {r}); first unexplained: {culprit}\n {}", seen.join("\n ")),
                    ));
                }
                Out::Optimal { obj, x: xs } => {
                    if let Out::Optimal { obj: o, x: bx } = &best {
                        let scale = 1.0 + xs.iter().zip(&base.c).map(|(a, b)| (a * b).abs()).sum::<f64>() + bx.iter().zip(&base.c).map(|(a, b)| (a * b).abs()).sum::<f64>();
                        if obj > o + 1e-5 * scale {
                            let seen: Vec<String> = y.cols.iter().zip(values).map(|(c, v)| format!("{} = {v}", c.0)).collect();
                            return Err((
                                "composite-optimality".into(),
                                format!("{here}: what was reported costs at least {obj} but {o} is possible\n {}", seen.join("\n ")),
                            ));
                        }
                    }
                    info.count("explained steps", 1);
                }
                _ => info.label("undecided-step"),
            }
            vol = after;
            vsv = vs_after;
        }
    }
    if let Err(e) = outcome {
        if done < spec.t && clear == x.ns as i64 {
            return Err(("composite-outcome".into(), format!("the run failed at timestep {done} although every scenario has an allowed allocation: {e}")));
        }
    }
    Ok(moved)
}

fn c17_composite(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let y = gen_system(s);
    info.desc(y.doc.to_string());
    let _ = (&y.edges, &y.virt);
    run_system(&y, &y.doc, info)
}

/// Run a document of the system, which must behave as described.
pub(crate) fn run_system(y: &System, doc: &Value, info: &mut Info) -> Result<(), Fail> {
    let mut b = match builder(doc, None, None) {
        Ok(b) => b,
        Err(e) => return fail("composite-read", format!("a valid document was refused: {e}\n{doc}")),
    };
    let data: Arc<Mutex<Captured>> = Default::default();
    let stores = y.x.comps.iter().filter(|c| !c.stores.is_empty()).map(|c| c.name.clone()).collect();
    b.network_builder().recorder(Box::new(Capture { stores, data: data.clone() }));
    let model = match guarded(|| b.build().map_err(|e| full(&e))) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) | Err(e) => return fail("composite-build", format!("a valid document was refused: {e}\n{doc}")),
    };
    let outcome = run_model(&model, Sol::Highs);
    info.label(if outcome.is_ok() { "completed" } else { "stopped" });
    let cap = data.lock().unwrap().clone();
    match explain(y, &cap, &outcome, info) {
        Ok(moved) => {
            info.nontrivial = moved && !cap.is_empty();
            Ok(())
        }
        Err((sig, m)) => Err(Fail { sig, msg: format!("{m}\n{doc}\n{}", y.x.spec.show()) }),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        rule: "water moves through the system of the document (plain: and a limit binds)",
        arms: vec![
            Arm { name: "plain", quick: 10000, thorough: 300000, run: c17_plain },
            Arm { name: "composite", quick: 15000, thorough: 500000, run: c17_composite },
            Arm { name: "renamed", quick: 800, thorough: 30000, run: crate::refs::renamed },
        ],
    }]
}
