//! Generated water-resource systems: a neutral description (`Spec`), its construction through the
//! public builders of pywr-core, observation of a run, and an independent reference of what each
//! timestep must satisfy.

use crate::lp::{Lp, Row};
use crate::src::Src;
use jiff::ToSpan;
use jiff::civil::{Date, DateTime};
use ndarray::Array2;
use pywr_core::aggregated_node::{
    CoefficientFactorsBuilder, ExclusivityBuilder, ProportionalFactorsBuilder, RatioFactorsBuilder,
};
use pywr_core::metric::{MetricConsumerPhase, MetricF64, MetricU64, UnresolvedMetricF64, UnresolvedMetricU64};
use pywr_core::models::{Model, ModelBuilder, ModelDomain, ModelDomainBuilder};
use pywr_core::network::{Network, NetworkBuilder, ResolutionMaps, UnresolvedEdge};
use pywr_core::node::{CostAggFunc, UnresolvedNode, UnresolvedStorageInitialVolume};
use pywr_core::parameters::{AggregatedParameterBuilder, Array2ParameterBuilder, ConstantParameterBuilder, NegativeParameterBuilder};
use pywr_core::recorders::{
    MetricSetState, Recorder, RecorderBuilder, RecorderBuilderError, RecorderInternalState, RecorderMeta,
    RecorderSaveError,
};
use pywr_core::scenario::{ScenarioDomainBuilder, ScenarioGroupBuilder, ScenarioIndex};
use pywr_core::state::State;
use pywr_core::timestep::{TimeDomainBuilder, Timestep, TimestepDuration};
use pywr_core::virtual_storage::{
    VirtualStorageActivePeriod, VirtualStorageNodeBuilder, VirtualStorageReset, VirtualStorageResetVolume,
};
use pywr_core::agg_funcs::AggFuncF64;
use pywr_core::{AggregatedNodeBuilder, AggregatedStorageNodeBuilder, NodeBuilder};
use std::collections::BTreeMap;
use std::fmt::Write;
use std::num::{NonZeroU64, NonZeroUsize};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- probe recorder

/// values[t][simulation][column]
pub type Table = Vec<Vec<Vec<f64>>>;

#[derive(Debug, Clone, Default)]
pub struct ProbeData {
    pub values: Arc<Mutex<Table>>,
    pub indices: Arc<Mutex<Vec<Vec<Vec<u64>>>>>,
    /// Timesteps seen, in order: (index, date, days)
    pub steps: Arc<Mutex<Vec<(usize, DateTime, f64)>>>,
}

impl ProbeData {
    pub fn table(&self) -> Table {
        self.values.lock().unwrap().clone()
    }
    pub fn itable(&self) -> Vec<Vec<Vec<u64>>> {
        self.indices.lock().unwrap().clone()
    }
}

#[derive(Debug)]
pub struct Probe {
    name: String,
    metrics: Vec<UnresolvedMetricF64>,
    umetrics: Vec<UnresolvedMetricU64>,
    data: ProbeData,
}

impl Probe {
    pub fn new(name: &str, metrics: Vec<UnresolvedMetricF64>, umetrics: Vec<UnresolvedMetricU64>) -> (Self, ProbeData) {
        let data = ProbeData::default();
        (Self { name: name.to_string(), metrics, umetrics, data: data.clone() }, data)
    }
}

impl RecorderBuilder for Probe {
    fn name(&self) -> &str {
        &self.name
    }
    fn build(self: Box<Self>, maps: &ResolutionMaps) -> Result<Box<dyn Recorder>, RecorderBuilderError> {
        let metrics = self
            .metrics
            .iter()
            .map(|m| {
                m.resolve(maps, MetricConsumerPhase::After).map_err(|source| {
                    RecorderBuilderError::ResolveMetricF64Error { attr: "probe".into(), source }
                })
            })
            .collect::<Result<Vec<_>, _>>()?;
        let umetrics = self
            .umetrics
            .iter()
            .map(|m| {
                m.resolve(maps, MetricConsumerPhase::After).map_err(|source| {
                    RecorderBuilderError::ResolveMetricU64Error { attr: "probe".into(), source }
                })
            })
            .collect::<Result<Vec<_>, _>>()?;
        let meta = RecorderMeta { name: self.name.clone(), comment: String::new() };
        Ok(Box::new(ProbeRecorder { meta, metrics, umetrics, data: self.data }))
    }
}

#[derive(Debug)]
struct ProbeRecorder {
    meta: RecorderMeta,
    metrics: Vec<MetricF64>,
    umetrics: Vec<MetricU64>,
    data: ProbeData,
}

impl Recorder for ProbeRecorder {
    fn meta(&self) -> &RecorderMeta {
        &self.meta
    }
    fn save(
        &self,
        timestep: &Timestep,
        scenario_indices: &[ScenarioIndex],
        model: &Network,
        state: &[State],
        _metric_set_states: &[Vec<MetricSetState>],
        _internal_state: &mut Option<Box<dyn RecorderInternalState>>,
    ) -> Result<(), RecorderSaveError> {
        let mut row = Vec::new();
        let mut urow = Vec::new();
        for si in scenario_indices {
            let s = &state[si.simulation_id()];
            row.push(self.metrics.iter().map(|m| m.get_value(model, s)).collect::<Result<Vec<_>, _>>()?);
            urow.push(self.umetrics.iter().map(|m| m.get_value(model, s)).collect::<Result<Vec<_>, _>>()?);
        }
        self.data.values.lock().unwrap().push(row);
        self.data.indices.lock().unwrap().push(urow);
        self.data.steps.lock().unwrap().push((timestep.index, timestep.date, timestep.days()));
        Ok(())
    }
}

// ---------------------------------------------------------------- description

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    /// A literal in the metric.
    Lit,
    /// A constant parameter.
    ConstParam,
    /// A simple parameter (array over time and scenario).
    Simple,
    /// A parameter which depends on the general phase.
    General,
}

#[derive(Clone, Debug)]
pub struct Val {
    pub how: How,
    /// Scenario group (0 or 1) the second index of the table refers to.
    pub group: usize,
    /// table[t][index in group]
    pub table: Vec<Vec<f64>>,
}

impl Val {
    pub fn lit(v: f64) -> Self {
        Val { how: How::Lit, group: 0, table: vec![vec![v]] }
    }
    pub fn at(&self, t: usize, gi: [usize; 2]) -> f64 {
        match self.how {
            How::Lit | How::ConstParam => self.table[0][0],
            _ => self.table[t][gi[self.group]],
        }
    }
    pub fn show(&self) -> String {
        match self.how {
            How::Lit => format!("{}", self.table[0][0]),
            How::ConstParam => format!("const-param({})", self.table[0][0]),
            _ => format!("{:?}(g{} {:?})", self.how, self.group, self.table),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Input,
    Link,
    Output,
    Storage,
}

#[derive(Clone, Debug)]
pub enum Init {
    Absolute(f64),
    Proportional(f64),
    DistAbsolute { absolute: f64, prior: f64 },
    DistProportional { total: f64, proportion: f64, prior: f64 },
}

impl Init {
    pub fn volume(&self, max: f64) -> f64 {
        match self {
            Init::Absolute(v) => *v,
            Init::Proportional(p) => p * max,
            Init::DistAbsolute { absolute, prior } => (absolute - prior).max(0.0).min(max),
            Init::DistProportional { total, proportion, prior } => (total * proportion - prior).max(0.0).min(max),
        }
    }
    fn build(&self) -> UnresolvedStorageInitialVolume {
        match self {
            Init::Absolute(v) => UnresolvedStorageInitialVolume::absolute(*v),
            Init::Proportional(v) => UnresolvedStorageInitialVolume::proportional(*v),
            Init::DistAbsolute { absolute, prior } => {
                UnresolvedStorageInitialVolume::distributed_absolute(*absolute, (*prior).into())
            }
            Init::DistProportional { total, proportion, prior } => {
                UnresolvedStorageInitialVolume::distributed_proportional((*total).into(), *proportion, (*prior).into())
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct NodeSpec {
    pub name: String,
    pub sub: Option<String>,
    pub kind: Kind,
    /// Flow limits (flow nodes) or volume limits (storage).
    pub min: Option<Val>,
    pub max: Option<Val>,
    pub cost: Option<Val>,
    pub cost_agg: Option<CostAgg>,
    pub init: Init,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CostAgg {
    Sum,
    Max,
    Min,
}

#[derive(Clone, Debug)]
pub enum Rel {
    Proportion(Vec<Val>),
    Ratio(Vec<Val>),
    Coefficients(Vec<Val>, Option<Val>),
    Exclusive { min_active: u64, max_active: u64 },
}

#[derive(Clone, Debug)]
pub struct AggSpec {
    pub name: String,
    /// Groups of node indices.
    pub groups: Vec<Vec<usize>>,
    pub min: Option<Val>,
    pub max: Option<Val>,
    pub rel: Option<Rel>,
}

#[derive(Clone, Debug)]
pub enum Reset {
    Never,
    Day(i8, i8),
    Months(i32),
}

#[derive(Clone, Debug)]
pub struct VsSpec {
    pub name: String,
    pub nodes: Vec<usize>,
    pub factors: Option<Vec<f64>>,
    pub min: Option<Val>,
    pub max: Val,
    pub init: Init,
    pub cost: Option<Val>,
    pub reset: Reset,
    pub reset_to_max: bool,
    pub window: Option<usize>,
    /// (start day, start month, end day, end month)
    pub active: Option<(i8, i8, i8, i8)>,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub start: Date,
    pub step_hours: i64,
    pub t: usize,
    pub sizes: [usize; 2],
    pub nodes: Vec<NodeSpec>,
    pub edges: Vec<(usize, usize)>,
    pub aggs: Vec<AggSpec>,
    pub vss: Vec<VsSpec>,
}

pub fn sizes_index(sizes: [usize; 2], sim: usize) -> [usize; 2] {
    // The last group varies fastest.
    [sim / sizes[1], sim % sizes[1]]
}

impl Spec {
    /// Are there any on/off decisions?
    pub fn integer(&self) -> bool {
        self.aggs.iter().any(|a| matches!(a.rel, Some(Rel::Exclusive { .. })))
    }
    pub fn scenarios(&self) -> usize {
        self.sizes[0] * self.sizes[1]
    }
    pub fn gi(&self, sim: usize) -> [usize; 2] {
        sizes_index(self.sizes, sim)
    }
    pub fn days(&self) -> f64 {
        self.step_hours as f64 / 24.0
    }
    pub fn date(&self, t: usize) -> DateTime {
        self.start.at(0, 0, 0, 0) + ((t as i64) * self.step_hours).hours()
    }
    pub fn node_ref(&self, i: usize) -> UnresolvedNode {
        UnresolvedNode::new(&self.nodes[i].name, self.nodes[i].sub.as_deref())
    }
    pub fn edge_ref(&self, e: usize) -> UnresolvedEdge {
        let (a, b) = self.edges[e];
        UnresolvedEdge::new(self.node_ref(a), self.node_ref(b))
    }
    pub fn ins(&self, i: usize) -> impl Iterator<Item = usize> + '_ {
        self.edges.iter().enumerate().filter(move |(_, e)| e.1 == i).map(|(k, _)| k)
    }
    pub fn outs(&self, i: usize) -> impl Iterator<Item = usize> + '_ {
        self.edges.iter().enumerate().filter(move |(_, e)| e.0 == i).map(|(k, _)| k)
    }

    pub fn show(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(
            s,
            "start {} step {}h x{} scenarios {}x{}",
            self.start, self.step_hours, self.t, self.sizes[0], self.sizes[1]
        );
        let o = |v: &Option<Val>| v.as_ref().map(|v| v.show()).unwrap_or("-".into());
        for n in &self.nodes {
            let _ = write!(s, "{:?} {} min={} max={} cost={}", n.kind, n.name, o(&n.min), o(&n.max), o(&n.cost));
            if n.kind == Kind::Storage {
                let _ = write!(s, " init={:?}", n.init);
            }
            if let Some(c) = n.cost_agg {
                let _ = write!(s, " cost_agg={c:?}");
            }
            s.push('\n');
        }
        for (a, b) in &self.edges {
            let _ = write!(s, "{}->{} ", self.nodes[*a].name, self.nodes[*b].name);
        }
        s.push('\n');
        for a in &self.aggs {
            let g: Vec<Vec<&str>> =
                a.groups.iter().map(|g| g.iter().map(|i| self.nodes[*i].name.as_str()).collect()).collect();
            let rel = match &a.rel {
                None => "-".to_string(),
                Some(Rel::Proportion(f)) => format!("proportion {:?}", f.iter().map(|v| v.show()).collect::<Vec<_>>()),
                Some(Rel::Ratio(f)) => format!("ratio {:?}", f.iter().map(|v| v.show()).collect::<Vec<_>>()),
                Some(Rel::Coefficients(f, r)) => {
                    format!("coefficients {:?} rhs {}", f.iter().map(|v| v.show()).collect::<Vec<_>>(), o(r))
                }
                Some(Rel::Exclusive { min_active, max_active }) => format!("exclusive {min_active}..{max_active}"),
            };
            let _ = writeln!(s, "agg {} {:?} min={} max={} {}", a.name, g, o(&a.min), o(&a.max), rel);
        }
        for v in &self.vss {
            let g: Vec<&str> = v.nodes.iter().map(|i| self.nodes[*i].name.as_str()).collect();
            let _ = writeln!(
                s,
                "vs {} {:?} factors={:?} min={} max={} init={:?} cost={} reset={:?} to_max={} window={:?} active={:?}",
                v.name,
                g,
                v.factors,
                o(&v.min),
                v.max.show(),
                v.init,
                o(&v.cost),
                v.reset,
                v.reset_to_max,
                v.window,
                v.active
            );
        }
        s
    }
}

// ---------------------------------------------------------------- building

pub struct Realiser {
    pub n: usize,
    pub sizes: [usize; 2],
    pub t: usize,
}

impl Realiser {
    pub fn metric(&mut self, nb: &mut NetworkBuilder, v: &Val) -> UnresolvedMetricF64 {
        let id = self.n;
        self.n += 1;
        match v.how {
            How::Lit => v.table[0][0].into(),
            How::ConstParam => {
                let name = format!("p{id}");
                nb.parameters().f64(Box::new(ConstantParameterBuilder::new(name.as_str().into(), v.table[0][0])));
                UnresolvedMetricF64::new_parameter_before(name.as_str())
            }
            How::Simple | How::General => {
                let name = format!("p{id}");
                let arr = Array2::from_shape_fn((self.t, self.sizes[v.group]), |(t, s)| v.table[t][s]);
                let g = format!("g{}", v.group);
                nb.parameters().f64(Box::new(Array2ParameterBuilder::new(name.as_str().into(), arr, &g)));
                let m = UnresolvedMetricF64::new_parameter_before(name.as_str());
                if v.how == How::Simple {
                    return m;
                }
                let n1 = format!("p{id}n");
                let n2 = format!("p{id}nn");
                nb.parameters().f64(Box::new(NegativeParameterBuilder::new(n1.as_str().into(), m)));
                nb.parameters().f64(Box::new(NegativeParameterBuilder::new(
                    n2.as_str().into(),
                    UnresolvedMetricF64::new_parameter_before(n1.as_str()),
                )));
                UnresolvedMetricF64::new_parameter_before(n2.as_str())
            }
        }
    }
}

pub fn domain(start: DateTime, step_hours: i64, t: usize, sizes: [usize; 2]) -> ModelDomain {
    let mut sb = ScenarioDomainBuilder::default();
    for (i, n) in sizes.iter().enumerate() {
        sb = sb.with_group(ScenarioGroupBuilder::new(&format!("g{i}"), *n).build().unwrap()).unwrap();
    }
    domain_with(start, step_hours, t, sb)
}

pub fn domain_with(start: DateTime, step_hours: i64, t: usize, sb: ScenarioDomainBuilder) -> ModelDomain {
    let end = start + ((t as i64 - 1) * step_hours).hours();
    let dur = if step_hours % 24 == 0 {
        TimestepDuration::Days(NonZeroU64::new((step_hours / 24) as u64).unwrap())
    } else {
        TimestepDuration::Hours(NonZeroU64::new(step_hours as u64).unwrap())
    };
    let mut db = ModelDomainBuilder::new(TimeDomainBuilder::new(start, end, dur));
    db.scenario(sb);
    db.build().expect("domain")
}

/// Column layout of the probe for a spec.
pub struct Cols {
    pub map: BTreeMap<String, usize>,
}

impl Cols {
    pub fn has(&self, k: &str) -> bool {
        self.map.contains_key(k)
    }
    pub fn get(&self, k: &str) -> usize {
        *self.map.get(k).unwrap_or_else(|| panic!("no column {k}"))
    }
}

pub fn build_network(spec: &Spec, nb: &mut NetworkBuilder) {
    let mut r = Realiser { n: 0, sizes: spec.sizes, t: spec.t };
    for (i, n) in spec.nodes.iter().enumerate() {
        let nm = spec.node_ref(i);
        let mut b = match n.kind {
            Kind::Input => NodeBuilder::input(nm),
            Kind::Link => NodeBuilder::link(nm),
            Kind::Output => NodeBuilder::output(nm),
            Kind::Storage => NodeBuilder::storage(nm),
        };
        if let Some(v) = &n.min {
            let m = r.metric(nb, v);
            if n.kind == Kind::Storage { b.min_volume(m) } else { b.min_flow(m) };
        }
        if let Some(v) = &n.max {
            let m = r.metric(nb, v);
            if n.kind == Kind::Storage { b.max_volume(m) } else { b.max_flow(m) };
        }
        if let Some(v) = &n.cost {
            let m = r.metric(nb, v);
            b.cost(m);
        }
        if n.kind == Kind::Storage {
            b.initial_volume(n.init.build());
        }
        if let Some(c) = n.cost_agg {
            b.cost_agg_func(match c {
                CostAgg::Sum => CostAggFunc::Sum,
                CostAgg::Max => CostAggFunc::Max,
                CostAgg::Min => CostAggFunc::Min,
            });
        }
        nb.node(b);
    }
    for (a, b) in &spec.edges {
        nb.connect(spec.node_ref(*a), spec.node_ref(*b));
    }
    for a in &spec.aggs {
        let mut b = AggregatedNodeBuilder::new(a.name.as_str());
        for g in &a.groups {
            b.nodes(g.iter().map(|i| spec.node_ref(*i)).collect());
        }
        if let Some(v) = &a.min {
            b.min_flow(r.metric(nb, v));
        }
        if let Some(v) = &a.max {
            b.max_flow(r.metric(nb, v));
        }
        match &a.rel {
            None => {}
            Some(Rel::Proportion(f)) => {
                let mut p = ProportionalFactorsBuilder::default();
                for v in f {
                    p.factor(r.metric(nb, v));
                }
                b.relationship(Box::new(p));
            }
            Some(Rel::Ratio(f)) => {
                let mut p = RatioFactorsBuilder::default();
                for v in f {
                    p.factor(r.metric(nb, v));
                }
                b.relationship(Box::new(p));
            }
            Some(Rel::Coefficients(f, rhs)) => {
                let mut p = CoefficientFactorsBuilder::default();
                for v in f {
                    p.factor(r.metric(nb, v));
                }
                if let Some(v) = rhs {
                    p.rhs(r.metric(nb, v));
                }
                b.relationship(Box::new(p));
            }
            Some(Rel::Exclusive { min_active, max_active }) => {
                let mut p = ExclusivityBuilder::default();
                p.min_active(*min_active).max_active(*max_active);
                b.relationship(Box::new(p));
            }
        }
        nb.agg_node(b);
    }
    for v in &spec.vss {
        let nodes: Vec<UnresolvedNode> = v.nodes.iter().map(|i| spec.node_ref(*i)).collect();
        let mut b = VirtualStorageNodeBuilder::new(&v.name, &nodes);
        if let Some(f) = &v.factors {
            b.factors(f);
        }
        if let Some(m) = &v.min {
            b.min_volume(r.metric(nb, m));
        }
        b.max_volume(r.metric(nb, &v.max));
        b.initial_volume(v.init.build());
        if let Some(m) = &v.cost {
            b.cost(r.metric(nb, m));
        }
        b.reset(match v.reset {
            Reset::Never => VirtualStorageReset::Never,
            Reset::Day(day, month) => VirtualStorageReset::DayOfYear { day, month },
            Reset::Months(months) => VirtualStorageReset::NumberOfMonths { months },
        });
        b.reset_volume(if v.reset_to_max { VirtualStorageResetVolume::Max } else { VirtualStorageResetVolume::Initial });
        if let Some(w) = v.window {
            b.rolling_window(NonZeroUsize::new(w).unwrap());
        }
        if let Some((sd, sm, ed, em)) = v.active {
            b.active_period(VirtualStorageActivePeriod::Period {
                start_day: sd,
                start_month: sm,
                end_day: ed,
                end_month: em,
            });
        }
        nb.virtual_storage_node(b);
    }
}

pub fn probe_metrics(spec: &Spec) -> (Vec<UnresolvedMetricF64>, Cols) {
    let mut m = Vec::new();
    let mut map = BTreeMap::new();
    let mut add = |k: String, u: UnresolvedMetricF64| {
        map.insert(k, m.len());
        m.push(u);
    };
    for e in 0..spec.edges.len() {
        add(format!("e{e}"), UnresolvedMetricF64::EdgeFlow(spec.edge_ref(e)));
    }
    for (i, n) in spec.nodes.iter().enumerate() {
        let r = spec.node_ref(i);
        add(format!("in{i}"), UnresolvedMetricF64::NodeInFlow(r.clone()));
        add(format!("out{i}"), UnresolvedMetricF64::NodeOutFlow(r.clone()));
        if n.kind == Kind::Storage {
            add(format!("vol{i}"), UnresolvedMetricF64::NodeVolume(r.clone()));
            add(format!("pvol{i}"), UnresolvedMetricF64::NodeProportionalVolume(r.clone()));
            add(format!("mvol{i}"), UnresolvedMetricF64::NodeMaxVolume(r));
        }
    }
    for (i, a) in spec.aggs.iter().enumerate() {
        add(format!("ain{i}"), UnresolvedMetricF64::AggregatedNodeInFlow(a.name.as_str().into()));
        add(format!("aout{i}"), UnresolvedMetricF64::AggregatedNodeOutFlow(a.name.as_str().into()));
    }
    for (i, a) in spec.vss.iter().enumerate() {
        add(format!("vsv{i}"), UnresolvedMetricF64::VirtualStorageVolume(a.name.as_str().into()));
        add(format!("vsp{i}"), UnresolvedMetricF64::VirtualStorageProportionalVolume(a.name.as_str().into()));
    }
    (m, Cols { map })
}

/// The groups of storages whose totals are observed.
pub fn storage_groups(spec: &Spec) -> Vec<Vec<usize>> {
    let all: Vec<usize> = (0..spec.nodes.len()).filter(|i| spec.nodes[*i].kind == Kind::Storage).collect();
    if all.is_empty() {
        return vec![];
    }
    vec![all.iter().copied().step_by(2).collect(), all.into_iter().rev().collect()]
}

/// Aggregated storages, and what a parameter sees of the storages at the start of a timestep.
fn storage_probes(spec: &Spec, nb: &mut NetworkBuilder, metrics: &mut Vec<UnresolvedMetricF64>, cols: &mut Cols) {
    use UnresolvedMetricF64 as U;
    let mut add = |k: String, u: U| {
        cols.map.insert(k, metrics.len());
        metrics.push(u);
    };
    let mut both = |nb: &mut NetworkBuilder, k: String, u: U| {
        let name = format!("start-{k}");
        let mut b = AggregatedParameterBuilder::before(name.as_str().into(), AggFuncF64::Sum);
        b.metric(u.clone());
        nb.parameters().f64(Box::new(b));
        add(format!("s{k}"), U::new_parameter_before(name.as_str()));
        add(k, u);
    };
    let groups = storage_groups(spec);
    for (k, g) in groups.iter().enumerate() {
        let name = format!("storages-{k}");
        let mut b = AggregatedStorageNodeBuilder::new(name.as_str());
        for i in g {
            b.node(spec.node_ref(*i));
        }
        nb.agg_storage_node(b);
        both(nb, format!("agv{k}"), U::AggregatedStorageNodeVolume(name.as_str().into()));
        both(nb, format!("agp{k}"), U::AggregatedStorageNodeProportionalVolume(name.as_str().into()));
    }
    for i in groups.last().into_iter().flatten() {
        both(nb, format!("vol{i}"), U::NodeVolume(spec.node_ref(*i)));
        both(nb, format!("pvol{i}"), U::NodeProportionalVolume(spec.node_ref(*i)));
    }
}

pub fn build_model(spec: &Spec) -> Result<(Model, ProbeData, Cols), String> {
    build_model_in(spec, domain(spec.start.at(0, 0, 0, 0), spec.step_hours, spec.t, spec.sizes))
}

pub fn build_model_in(spec: &Spec, d: ModelDomain) -> Result<(Model, ProbeData, Cols), String> {
    let mut nb = NetworkBuilder::default();
    build_network(spec, &mut nb);
    let (mut metrics, mut cols) = probe_metrics(spec);
    storage_probes(spec, &mut nb, &mut metrics, &mut cols);
    let (probe, data) = Probe::new("probe", metrics, vec![]);
    nb.recorder(Box::new(probe));
    let model = ModelBuilder::new(d, nb).build().map_err(|e| format!("{e:?}"))?;
    Ok((model, data, cols))
}

// ---------------------------------------------------------------- reference

const FREE: f64 = 1e30;

/// The state a timestep starts from, per scenario.
#[derive(Clone, Debug)]
pub struct Start {
    /// Storage volumes by node index (NaN for others).
    pub vol: Vec<f64>,
    /// Virtual storage volumes (after resets and recoveries).
    pub vs: Vec<f64>,
}

/// The linear programme timestep `t` must solve, with `start` the volumes at its beginning.
/// Columns 0..edges are edge flows; further columns are activity binaries.
pub fn step_lp(spec: &Spec, t: usize, sim: usize, start: &Start) -> Lp {
    let gi = spec.gi(sim);
    let ne = spec.edges.len();
    let dt = spec.days();
    let mut lp = Lp { n: ne, c: vec![0.0; ne], ..Default::default() };
    // node -> list of (column, sign) making up its controlled flow
    let flow = |i: usize| -> Vec<(usize, f64)> {
        match spec.nodes[i].kind {
            Kind::Input | Kind::Link => spec.outs(i).map(|e| (e, 1.0)).collect(),
            Kind::Output => spec.ins(i).map(|e| (e, 1.0)).collect(),
            Kind::Storage => spec.ins(i).map(|e| (e, 1.0)).chain(spec.outs(i).map(|e| (e, -1.0))).collect(),
        }
    };
    // Exclusivity: one binary per distinct set of nodes.
    let mut sets: Vec<Vec<usize>> = Vec::new();
    for a in &spec.aggs {
        if let Some(Rel::Exclusive { .. }) = a.rel {
            for g in &a.groups {
                if !sets.contains(g) {
                    sets.push(g.clone());
                }
            }
        }
    }
    for _ in &sets {
        lp.bins.push(lp.n);
        lp.n += 1;
        lp.c.push(0.0);
    }
    for (i, n) in spec.nodes.iter().enumerate() {
        let f = flow(i);
        match n.kind {
            Kind::Storage => {
                let (lo, hi) = volume_limits(n, t, gi);
                let avail = start.vol[i] - lo;
                let missing = hi - start.vol[i];
                lp.rows.push(Row {
                    a: f,
                    lo: -avail / dt,
                    hi: if hi >= FREE { FREE } else { missing / dt },
                    what: format!("volume limits of {}", n.name),
                });
            }
            _ => {
                let (lo, hi) = flow_limits(&n.min, &n.max, t, gi);
                let mine: Vec<usize> = (0..sets.len()).filter(|k| sets[*k].contains(&i)).collect();
                if mine.is_empty() {
                    lp.rows.push(Row { a: f.clone(), lo, hi, what: format!("flow limits of {}", n.name) });
                } else {
                    for k in mine {
                        let b = lp.bins[k];
                        // flow <= max * active, flow >= min * active
                        let mut up = f.clone();
                        up.push((b, -hi));
                        lp.rows.push(Row { a: up, lo: -FREE, hi: 0.0, what: format!("max flow of {} when active", n.name) });
                        let mut dn = f.clone();
                        dn.push((b, -lo));
                        lp.rows.push(Row { a: dn, lo: 0.0, hi: FREE, what: format!("min flow of {} when active", n.name) });
                    }
                }
                if n.kind == Kind::Link {
                    let mut a: Vec<(usize, f64)> = spec.ins(i).map(|e| (e, 1.0)).collect();
                    a.extend(spec.outs(i).map(|e| (e, -1.0)));
                    lp.rows.push(Row { a, lo: 0.0, hi: 0.0, what: format!("mass balance of {}", n.name) });
                }
            }
        }
    }
    for a in &spec.aggs {
        let sum = |g: &Vec<usize>, k: f64| -> Vec<(usize, f64)> {
            g.iter().flat_map(|i| flow(*i)).map(|(c, s)| (c, s * k)).collect()
        };
        let all: Vec<(usize, f64)> = a.groups.iter().flat_map(|g| sum(g, 1.0)).collect();
        let (lo, hi) = flow_limits(&a.min, &a.max, t, gi);
        lp.rows.push(Row { a: all, lo, hi, what: format!("flow limits of aggregated node {}", a.name) });
        match &a.rel {
            None => {}
            Some(Rel::Proportion(f)) => {
                let fs: Vec<f64> = f.iter().map(|v| v.at(t, gi)).collect();
                let f0 = 1.0 - fs.iter().sum::<f64>();
                // flow_k / f_k == flow_0 / f_0
                for (k, fk) in fs.iter().enumerate() {
                    let mut r = sum(&a.groups[0], *fk);
                    r.extend(sum(&a.groups[k + 1], -f0));
                    lp.rows.push(Row { a: r, lo: 0.0, hi: 0.0, what: format!("proportion {k} of {}", a.name) });
                }
            }
            Some(Rel::Ratio(f)) => {
                let fs: Vec<f64> = f.iter().map(|v| v.at(t, gi)).collect();
                for k in 1..fs.len() {
                    let mut r = sum(&a.groups[0], fs[k]);
                    r.extend(sum(&a.groups[k], -fs[0]));
                    lp.rows.push(Row { a: r, lo: 0.0, hi: 0.0, what: format!("ratio {k} of {}", a.name) });
                }
            }
            Some(Rel::Coefficients(f, rhs)) => {
                let fs: Vec<f64> = f.iter().map(|v| v.at(t, gi)).collect();
                let b = rhs.as_ref().map(|v| v.at(t, gi)).unwrap_or(0.0);
                let mut r = Vec::new();
                for (k, fk) in fs.iter().enumerate() {
                    r.extend(sum(&a.groups[k], *fk));
                }
                lp.rows.push(Row { a: r, lo: b, hi: b, what: format!("coefficients of {}", a.name) });
            }
            Some(Rel::Exclusive { min_active, max_active }) => {
                let r = a.groups.iter().map(|g| (lp.bins[sets.iter().position(|s| s == g).unwrap()], 1.0)).collect();
                lp.rows.push(Row {
                    a: r,
                    lo: *min_active as f64,
                    hi: *max_active as f64,
                    what: format!("active count of {}", a.name),
                });
            }
        }
    }
    for (k, v) in spec.vss.iter().enumerate() {
        if !vs_active(v, spec.date(t).date()) {
            continue;
        }
        let lo = v.min.as_ref().map(|m| m.at(t, gi)).unwrap_or(0.0);
        let hi = v.max.at(t, gi);
        let avail = (start.vs[k] - lo).max(0.0);
        let missing = (hi - start.vs[k]).max(0.0);
        let mut a = Vec::new();
        for (j, i) in v.nodes.iter().enumerate() {
            let f = v.factors.as_ref().map(|f| f[j]).unwrap_or(1.0);
            a.extend(flow(*i).into_iter().map(|(c, s)| (c, s * f)));
        }
        lp.rows.push(Row { a, lo: -missing / dt, hi: avail / dt, what: format!("volume of virtual storage {}", v.name) });
    }
    for (e, (a, b)) in spec.edges.iter().enumerate() {
        lp.c[e] = edge_cost_out(spec, *a, t, gi) + edge_cost_in(spec, *b, t, gi);
    }
    lp
}

pub fn flow_limits(min: &Option<Val>, max: &Option<Val>, t: usize, gi: [usize; 2]) -> (f64, f64) {
    (min.as_ref().map(|v| v.at(t, gi)).unwrap_or(0.0), max.as_ref().map(|v| v.at(t, gi)).unwrap_or(FREE))
}

pub fn volume_limits(n: &NodeSpec, t: usize, gi: [usize; 2]) -> (f64, f64) {
    flow_limits(&n.min, &n.max, t, gi)
}

fn node_cost(spec: &Spec, i: usize, t: usize, gi: [usize; 2]) -> f64 {
    let n = &spec.nodes[i];
    let mut c = n.cost.as_ref().map(|v| v.at(t, gi)).unwrap_or(0.0);
    if let Some(agg) = n.cost_agg {
        for v in &spec.vss {
            if v.nodes.contains(&i) {
                let vc = v.cost.as_ref().map(|x| x.at(t, gi)).unwrap_or(0.0);
                c = match agg {
                    CostAgg::Sum => c + vc,
                    CostAgg::Max => c.max(vc),
                    CostAgg::Min => c.min(vc),
                };
            }
        }
    }
    c
}

fn edge_cost_out(spec: &Spec, i: usize, t: usize, gi: [usize; 2]) -> f64 {
    let c = node_cost(spec, i, t, gi);
    match spec.nodes[i].kind {
        Kind::Input => c,
        Kind::Link => c / 2.0,
        Kind::Storage => -c,
        Kind::Output => unreachable!(),
    }
}

fn edge_cost_in(spec: &Spec, i: usize, t: usize, gi: [usize; 2]) -> f64 {
    let c = node_cost(spec, i, t, gi);
    match spec.nodes[i].kind {
        Kind::Output | Kind::Storage => c,
        Kind::Link => c / 2.0,
        Kind::Input => unreachable!(),
    }
}

pub fn vs_active(v: &VsSpec, d: Date) -> bool {
    match v.active {
        None => true,
        Some((sd, sm, ed, em)) => {
            let x = (d.month(), d.day());
            let a = (sm, sd);
            let b = (em, ed);
            if a <= b { a <= x && x <= b } else { x >= a || x <= b }
        }
    }
}

/// Reference accounting of one virtual storage in one scenario.
#[derive(Clone, Debug)]
pub struct VsModel {
    pub volume: f64,
    last_reset: Option<Date>,
    history: std::collections::VecDeque<f64>,
}

impl VsModel {
    pub fn new() -> Self {
        Self { volume: 0.0, last_reset: None, history: Default::default() }
    }
    /// Start-of-step update; returns the volume available to the step.
    pub fn before(&mut self, v: &VsSpec, spec: &Spec, t: usize, gi: [usize; 2]) -> (f64, bool) {
        let d = spec.date(t).date();
        let due = if t == 0 || !vs_active(v, d) {
            true
        } else {
            match v.reset {
                Reset::Never => false,
                Reset::Day(day, month) => d.day() == day && d.month() == month,
                Reset::Months(n) => {
                    let l = self.last_reset.unwrap();
                    (d.year() as i32 * 12 + d.month() as i32) - (l.year() as i32 * 12 + l.month() as i32) >= n
                }
            }
        };
        let max = v.max.at(t, gi);
        if due {
            let init = v.init.volume(max);
            self.volume = if v.reset_to_max { max } else { init };
            self.last_reset = Some(d);
            if let Some(w) = v.window {
                self.history = vec![(max - init) / w as f64; w].into();
            }
        }
        if let Some(w) = v.window {
            if self.history.len() >= w {
                self.volume += self.history.pop_front().unwrap() * spec.days();
            }
        }
        (self.volume, due && t > 0)
    }
    /// End-of-step update with the members' flows (by node).
    pub fn after(&mut self, v: &VsSpec, spec: &Spec, t: usize, flows: &dyn Fn(usize) -> f64) {
        if vs_active(v, spec.date(t).date()) {
            let mut f = 0.0;
            for (j, i) in v.nodes.iter().enumerate() {
                f += v.factors.as_ref().map(|f| f[j]).unwrap_or(1.0) * flows(*i);
            }
            self.volume -= f * spec.days();
            if v.window.is_some() {
                self.history.push_back(f);
            }
        }
    }
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy, Debug)]
pub struct GenOpts {
    pub max_t: usize,
    pub max_s: usize,
    pub storages: usize,
    pub aggs: usize,
    pub rels: bool,
    pub exclusive: bool,
    pub vss: usize,
    pub general: bool,
    pub min_flows: bool,
    pub subdaily: bool,
    /// Values may change over time.
    pub dynamic: bool,
    /// Every flow node gets a finite maximum.
    pub all_max: bool,
}

impl Default for GenOpts {
    fn default() -> Self {
        GenOpts {
            max_t: 6,
            max_s: 2,
            storages: 2,
            aggs: 1,
            rels: true,
            exclusive: false,
            vss: 1,
            general: true,
            min_flows: true,
            subdaily: true,
            dynamic: true,
            all_max: false,
        }
    }
}

pub fn gen_val(s: &mut Src, o: &GenOpts, t: usize, sizes: [usize; 2], simple_only: bool, f: &mut dyn FnMut(&mut Src) -> f64) -> Val {
    let k = s.below(if o.dynamic { 6 } else { 2 });
    match k {
        0 => Val::lit(f(s)),
        1 => Val { how: How::ConstParam, ..Val::lit(f(s)) },
        _ => {
            let how = if k >= 4 && o.general && !simple_only { How::General } else { How::Simple };
            let group = s.us(2);
            let by_scenario = s.bool();
            let base: Vec<f64> = (0..t).map(|_| f(s)).collect();
            let table = base
                .iter()
                .map(|b| (0..sizes[group]).map(|j| if by_scenario && j > 0 { f(s) } else { *b }).collect())
                .collect();
            Val { how, group, table }
        }
    }
}

pub fn gen_date(s: &mut Src) -> Date {
    let y = *s.pick(&[2019i16, 2020, 2021, 2023, 2024, 2000, 2100]);
    let m = s.int(1, 12) as i8;
    let d = *s.pick(&[1i8, 2, 15, 27, 28, 29, 30, 31]);
    let last = Date::new(y, m, 1).unwrap().days_in_month();
    Date::new(y, m, d.min(last)).unwrap()
}

pub fn gen_spec(s: &mut Src, o: &GenOpts) -> Spec {
    let start = gen_date(s);
    let step_hours = if o.subdaily { *s.pick(&[24i64, 24, 24, 48, 168, 12, 6, 1]) } else { 24 };
    let t = s.size(1, o.max_t);
    let s0 = s.size(1, o.max_s);
    let s1 = if s0 < o.max_s { s.size(1, 2) } else { 1 };
    let sizes = [s0, s1];
    let n_in = s.size(1, 3);
    let n_sto = if o.storages > 0 { s.size(0, o.storages) } else { 0 };
    let n_link = s.size(0, 5);
    let n_out = s.size(1, 3);
    let mut nodes: Vec<NodeSpec> = Vec::new();
    let mut mids: Vec<Kind> = vec![Kind::Storage; n_sto];
    mids.extend(vec![Kind::Link; n_link]);
    s.shuffle(&mut mids);
    let mut kinds = vec![Kind::Input; n_in];
    kinds.extend(mids);
    kinds.extend(vec![Kind::Output; n_out]);
    for (i, kind) in kinds.iter().enumerate() {
        let name = format!("{}{}", match kind { Kind::Input => "in", Kind::Link => "link", Kind::Output => "out", Kind::Storage => "res" }, i);
        let mut n = NodeSpec { name, sub: None, kind: *kind, min: None, max: None, cost: None, cost_agg: None, init: Init::Absolute(0.0) };
        if s.chance(1, 8) {
            n.sub = Some("part".to_string());
        }
        match kind {
            Kind::Input => {
                if o.all_max || !s.chance(1, 5) {
                    n.max = Some(gen_val(s, o, t, sizes, false, &mut |s| s.real(0.0, 40.0)));
                }
                if s.chance(1, 3) {
                    n.cost = Some(gen_val(s, o, t, sizes, false, &mut |s| s.real(0.0, 6.0)));
                }
            }
            Kind::Link => {
                if o.all_max || s.chance(1, 2) {
                    n.max = Some(gen_val(s, o, t, sizes, false, &mut |s| s.real(0.0, 30.0)));
                }
                if s.chance(2, 5) {
                    n.cost = Some(gen_val(s, o, t, sizes, false, &mut |s| s.real(-4.0, 8.0)));
                }
            }
            Kind::Output => {
                if o.all_max || !s.chance(1, 10) {
                    n.max = Some(gen_val(s, o, t, sizes, false, &mut |s| s.real(0.0, 25.0)));
                }
                if s.chance(5, 6) {
                    n.cost = Some(gen_val(s, o, t, sizes, false, &mut |s| s.real(-20.0, 3.0)));
                }
            }
            Kind::Storage => {
                let top = s.real(1.0, 200.0).max(1.0);
                let varying = o.dynamic && s.chance(1, 4);
                n.max = Some(if varying {
                    gen_val(s, o, t, sizes, true, &mut |s| top + s.real(0.0, 20.0))
                } else {
                    Val { how: *s.pick(&[How::Lit, How::ConstParam]), ..Val::lit(top) }
                });
                if s.chance(1, 3) {
                    n.min = Some(gen_val(s, o, t, sizes, true, &mut |s| s.num(0.0, 0.5, 0.125) * top));
                }
                n.init = match s.below(8) {
                    0 | 1 | 2 => Init::Absolute(s.num(0.0, 1.0, 0.125) * top),
                    3 | 4 | 5 => Init::Proportional(s.num(0.0, 1.0, 0.125)),
                    6 => Init::DistAbsolute { absolute: s.real(0.0, 150.0), prior: s.real(0.0, 100.0) },
                    _ => Init::DistProportional { total: s.real(0.0, 300.0), proportion: s.num(0.0, 1.0, 0.125), prior: s.real(0.0, 100.0) },
                };
                if s.chance(2, 3) {
                    n.cost = Some(gen_val(s, o, t, sizes, false, &mut |s| s.real(-8.0, 2.0)));
                }
            }
        }
        if o.min_flows && *kind != Kind::Storage && s.chance(1, 8) {
            n.min = Some(gen_val(s, o, t, sizes, false, &mut |s| s.real(0.0, 4.0)));
        }
        nodes.push(n);
    }
    // edges
    let nn = nodes.len();
    let mut edges: Vec<(usize, usize)> = Vec::new();
    let add = |e: (usize, usize), edges: &mut Vec<(usize, usize)>| {
        if e.0 != e.1 && !edges.contains(&e) && nodes[e.0].kind != Kind::Output && nodes[e.1].kind != Kind::Input {
            edges.push(e);
        }
    };
    for j in n_in..nn {
        let hi = if j >= nn - n_out { nn - n_out } else { j };
        let i = hi - 1 - s.us(hi.min(3).max(1).min(hi));
        add((i, j), &mut edges);
    }
    for i in 0..nn - n_out {
        if !edges.iter().any(|e| e.0 == i) {
            let lo = (i + 1).max(n_in);
            let j = lo + s.us(nn - lo);
            add((i, j), &mut edges);
        }
    }
    let extra = s.us(4);
    for _ in 0..extra {
        let i = s.us(nn - n_out);
        let j = n_in + s.us(nn - n_in);
        // mostly forward, sometimes a cycle
        let e = if j > i || s.chance(1, 4) { (i, j) } else { (j, i) };
        add(e, &mut edges);
    }
    if s.bool() {
        s.shuffle(&mut edges);
    }
    let flow_nodes: Vec<usize> = (0..nn).filter(|i| nodes[*i].kind != Kind::Storage).collect();
    let mut vss = Vec::new();
    let n_vs = if o.vss > 0 { s.us(o.vss + 1) } else { 0 };
    for k in 0..n_vs {
        vss.push(gen_vs(s, o, k, t, sizes, step_hours, &flow_nodes));
    }
    if !vss.is_empty() {
        for n in nodes.iter_mut() {
            if n.kind != Kind::Storage && s.chance(1, 2) {
                n.cost_agg = Some(*s.pick(&[CostAgg::Sum, CostAgg::Max, CostAgg::Min]));
            }
        }
    }
    let mut aggs = Vec::new();
    let n_agg = if o.aggs > 0 { s.us(o.aggs + 1) } else { 0 };
    for k in 0..n_agg {
        aggs.push(gen_agg(s, o, k, t, sizes, &flow_nodes, &nodes));
    }
    let mut spec = Spec { start, step_hours, t, sizes, nodes, edges, aggs, vss };
    fix_exclusive(&mut spec);
    spec
}

/// Members of exclusive sets get finite, known maximum flows (an unlimited member is a separate class).
fn fix_exclusive(spec: &mut Spec) {
    let mut members: Vec<usize> = Vec::new();
    for a in &spec.aggs {
        if let Some(Rel::Exclusive { .. }) = a.rel {
            members.extend(a.groups.iter().flatten());
        }
    }
    for i in members {
        if spec.nodes[i].max.is_none() {
            spec.nodes[i].max = Some(Val::lit(30.0));
        }
    }
}

pub fn gen_agg(s: &mut Src, o: &GenOpts, k: usize, t: usize, sizes: [usize; 2], flow_nodes: &[usize], nodes: &[NodeSpec]) -> AggSpec {
    let mut pool = flow_nodes.to_vec();
    s.shuffle(&mut pool);
    let what = if o.rels { s.below(if o.exclusive { 6 } else { 4 }) } else { 0 };
    if what < 4 && s.chance(1, 6) {
        // the net inflow of a storage may take part as well
        if let Some(i) = nodes.iter().position(|n| n.kind == Kind::Storage) {
            let at = s.below(pool.len() as u64 + 1) as usize;
            pool.insert(at, i);
        }
    }
    let m = s.size(1, 3.min(pool.len()));
    let mut groups: Vec<Vec<usize>> = pool[..m].iter().map(|i| vec![*i]).collect();
    if pool.len() > m && s.chance(1, 5) {
        groups[0].push(pool[m]);
    }
    let mut a = AggSpec { name: format!("agg{k}"), groups, min: None, max: None, rel: None };
    let _ = nodes;
    let m = a.groups.len();
    match what {
        _ if m < 2 => {}
        1 => {
            let top = 0.9 / (m - 1) as f64;
            let f = (0..m - 1).map(|_| gen_val(s, o, t, sizes, false, &mut |s| (s.num(0.05, 1.0, 0.05) * top).max(0.01))).collect();
            a.rel = Some(Rel::Proportion(f));
        }
        2 => {
            let f = (0..m).map(|_| gen_val(s, o, t, sizes, false, &mut |s| s.num(0.25, 4.0, 0.25))).collect();
            a.rel = Some(Rel::Ratio(f));
        }
        3 => {
            a.groups.truncate(2);
            let f = vec![
                gen_val(s, o, t, sizes, false, &mut |s| s.num(0.25, 3.0, 0.25)),
                gen_val(s, o, t, sizes, false, &mut |s| if s.bool() { -s.num(0.25, 3.0, 0.25) } else { s.num(0.25, 3.0, 0.25) }),
            ];
            let rhs = if s.bool() { Some(gen_val(s, o, t, sizes, false, &mut |s| s.real(0.0, 6.0))) } else { None };
            a.rel = Some(Rel::Coefficients(f, rhs));
        }
        4 | 5 => {
            let max_active = 1 + s.below(m as u64 - 1);
            let min_active = if s.chance(1, 3) { s.below(max_active + 1) } else { 0 };
            a.rel = Some(Rel::Exclusive { min_active, max_active });
        }
        _ => {}
    }
    if a.rel.is_none() || s.chance(1, 3) {
        if s.chance(3, 4) {
            a.max = Some(gen_val(s, o, t, sizes, false, &mut |s| s.real(0.0, 40.0)));
        }
        if s.chance(1, 5) {
            a.min = Some(gen_val(s, o, t, sizes, false, &mut |s| s.real(0.0, 3.0)));
        }
    }
    a
}

pub fn gen_vs(s: &mut Src, o: &GenOpts, k: usize, t: usize, sizes: [usize; 2], step_hours: i64, flow_nodes: &[usize]) -> VsSpec {
    let mut pool = flow_nodes.to_vec();
    s.shuffle(&mut pool);
    let m = s.size(1, 3.min(pool.len()));
    let nodes = pool[..m].to_vec();
    let factors = if s.bool() { Some((0..m).map(|_| s.num(0.25, 2.0, 0.25)).collect()) } else { None };
    let top = s.real(4.0, 120.0).max(4.0);
    let varying = o.dynamic && s.chance(1, 4);
    let max = if varying {
        gen_val(s, o, t, sizes, true, &mut |s| top + s.real(0.0, 20.0))
    } else {
        Val { how: *s.pick(&[How::Lit, How::ConstParam]), ..Val::lit(top) }
    };
    let init = if s.bool() { Init::Proportional(s.num(0.0, 1.0, 0.125)) } else { Init::Absolute(s.num(0.0, 1.0, 0.125) * top) };
    let min = if s.chance(1, 4) { Some(Val::lit(s.num(0.0, 0.25, 0.125) * top)) } else { None };
    let cost = if s.chance(1, 2) { Some(gen_val(s, o, t, sizes, false, &mut |s| s.real(-6.0, 8.0))) } else { None };
    let daily = step_hours == 24;
    let reset = match s.below(3) {
        0 => Reset::Never,
        1 if daily => Reset::Day(s.int(1, 28) as i8, s.int(1, 12) as i8),
        _ => Reset::Months(s.int(1, 13) as i32),
    };
    let window = if daily && !varying && s.chance(1, 3) { Some(s.size(1, 5)) } else { None };
    let active = if daily && s.chance(1, 4) {
        Some((s.int(1, 28) as i8, s.int(1, 12) as i8, s.int(1, 28) as i8, s.int(1, 12) as i8))
    } else {
        None
    };
    VsSpec { name: format!("vs{k}"), nodes, factors, min, max, init, cost, reset, reset_to_max: s.chance(1, 3), window, active }
}
