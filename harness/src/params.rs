//! C08..C12: parameters. A generated directed graph of parameters of every kind is run inside a small
//! water system; an independent evaluator predicts every parameter's value, in every scenario, timestep
//! and phase.

use crate::alloc::{Sol, run_model};
use crate::check;
use crate::runner::{Arm, Fail, Info, Prop, fail, guarded};
use crate::sim::{Probe, ProbeData, domain, gen_date, sizes_index};
use crate::src::Src;
use jiff::ToSpan;
use jiff::civil::{Date, DateTime};
use ndarray::{Array1, Array2};
use pywr_core::agg_funcs::{AggFuncF64, AggFuncU64};
use pywr_core::metric::{UnresolvedMetricF64, UnresolvedMetricU64};
use pywr_core::models::{Model, ModelBuilder, ModelDomain};
use pywr_core::network::{NetworkBuilder, UnresolvedEdge};
use pywr_core::node::{UnresolvedNode, UnresolvedStorageInitialVolume};
use pywr_core::parameters::*;
use pywr_core::{AggregatedNodeBuilder, NodeBuilder};
use std::collections::VecDeque;
use std::fmt::Write;

// ---------------------------------------------------------------- description

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ret {
    Before,
    After,
    AfterElse,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Nm {
    Vol1,
    Vol2,
    PVol1,
    PVol2,
    MaxVol1,
    OutIn,
    InOut,
    EdgeR2Out,
    MaxFlowOut,
    AggIn,
    AggOut,
    MultiIn,
    MultiOut,
    MultiEdge,
    AggVol,
    AggPVol,
}

pub const NMS: [Nm; 16] = [
    Nm::Vol1,
    Nm::Vol2,
    Nm::PVol1,
    Nm::PVol2,
    Nm::MaxVol1,
    Nm::OutIn,
    Nm::InOut,
    Nm::EdgeR2Out,
    Nm::MaxFlowOut,
    Nm::AggIn,
    Nm::AggOut,
    Nm::MultiIn,
    Nm::MultiOut,
    Nm::MultiEdge,
    Nm::AggVol,
    Nm::AggPVol,
];

#[derive(Clone, Debug)]
pub enum M {
    Lit(f64),
    P(usize, Ret, Option<&'static str>),
    N(Nm),
}

#[derive(Clone, Debug)]
pub enum MU {
    Lit(u64),
    P(usize, Ret, Option<&'static str>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ph {
    Before,
    After,
    Both,
}

#[derive(Clone, Copy, Debug)]
pub enum Af {
    Sum,
    Mean,
    Product,
    Min,
    Max,
    CountNonZero,
    CountPos,
    AnyNonZero(f64),
}

#[derive(Clone, Copy, Debug)]
pub enum Au {
    Sum,
    Product,
    Min,
    Max,
    Any,
    All,
}

#[derive(Clone, Copy, Debug)]
pub enum Pr {
    Lt,
    Gt,
    Eq,
    Le,
    Ge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Interp {
    No,
    First,
    Last,
}

#[derive(Clone, Copy, Debug)]
pub enum Rb {
    Linear,
    Cubic,
    Quintic,
    Thin,
    Gauss(f64),
    Mq(f64),
    Imq(f64),
}

#[derive(Clone, Debug)]
pub enum K {
    Const(f64),
    ConstScen(Vec<f64>, usize),
    Array1(Vec<f64>, Option<i32>),
    Array2(Vec<Vec<f64>>, usize, Option<i32>),
    Vector(Vec<f64>),
    Neg(M),
    Max(M, f64),
    Min(M, f64),
    NegMax(M, f64),
    NegMin(M, f64),
    Offset(M, f64),
    Poly(M, Vec<f64>, Option<f64>, Option<f64>),
    Diff(M, M, Option<M>, Option<M>),
    Div(Ph, M, M),
    Agg(Ph, Af, Vec<M>),
    Indexed(MU, Vec<M>),
    Interp(M, Vec<(f64, M)>, bool),
    Discount(M, i16),
    Deficit(M, M),
    Delay(M, u64, f64),
    Rolling(M, usize, f64, usize, Af),
    CcInterp(M, Vec<M>, Vec<M>),
    CcPiece(M, Vec<M>, Vec<[f64; 2]>, f64, f64),
    Cc(M, Vec<M>, Vec<M>),
    VolBetween(M, Option<M>, Option<M>),
    Hydro(Box<Hydro>),
    Daily(Vec<f64>),
    Diurnal(Vec<f64>),
    Monthly(Vec<f64>, Interp),
    Weekly(Vec<f64>, Interp),
    Drawdown(i8, i8, Option<u8>),
    Rbf(Vec<(u32, f64)>, Rb),
    // u64
    UArray1(Vec<u64>, Option<i32>),
    UArray2(Vec<Vec<u64>>, usize, Option<i32>),
    UAgg(Ph, Au, Vec<MU>),
    Asym(MU, MU),
    Thresh(M, M, Pr, bool),
    MultiThresh(M, Vec<M>, Pr, bool),
    CcIndex(M, Vec<M>),
    UDelay(MU, u64, u64),
    URolling(MU, usize, u64, usize, Au),
    // multi
    Apportion(M, M),
    Muskingum(M, M, M, M, Option<(f64, f64)>),
    Py(Box<Py>),
}

pub const PYTHON: &[&str] = &["one", "the two"];
/// What else a dictionary of Python has: a whole number, which is an index.
pub const PYTHON_INDEX: &str = "n";

/// A Python object: a weighted sum of what it is told.
#[derive(Clone, Debug)]
pub struct Py {
    pub class: bool,
    pub ph: Ph,
    pub ms: Vec<(M, f64)>,
    pub us: Vec<(MU, u64)>,
    /// Weights of: one, the timestep's index, day, month, hour and days, the simulation and its second index,
    /// whether it is the first timestep, its year, day of the year (counted from one, and as an index with the
    /// 29th of February in every year, and with the part of the day), whether that is a leap year, and its date's year.
    pub w: [f64; 15],
    /// Weight of the number of calls of this scenario's object.
    pub count: f64,
    pub raise: Option<usize>,
    pub args: Vec<serde_json::Value>,
    pub kwargs: Vec<(String, serde_json::Value)>,
}

#[derive(Clone, Debug)]
pub struct Hydro {
    pub actual_flow: Option<M>,
    pub target: Option<M>,
    pub elevation: Option<f64>,
    pub min_head: Option<f64>,
    pub max_flow: Option<M>,
    pub min_flow: Option<M>,
    pub efficiency: Option<f64>,
    pub water_elevation: Option<M>,
    pub density: Option<f64>,
    pub flow_conv: Option<f64>,
    pub energy_conv: Option<f64>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    F,
    U,
    Multi(&'static [&'static str]),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd)]
pub enum Cl {
    Const,
    Simple,
    General,
}

#[derive(Clone, Debug)]
pub struct P {
    pub name: String,
    pub k: K,
    pub ty: Ty,
    pub cl: Cl,
    pub before: bool,
    pub after: bool,
}

#[derive(Clone, Debug)]
pub struct PNet {
    pub start: DateTime,
    pub step_hours: i64,
    pub t: usize,
    pub sizes: [usize; 2],
    pub ps: Vec<P>,
    /// Order in which the builders are added.
    pub order: Vec<usize>,
    pub inflow: Vec<Vec<f64>>,
    pub demand: Vec<Vec<f64>>,
    pub vmax: [f64; 2],
    pub vinit: [f64; 2],
}

impl PNet {
    pub fn scen(&self) -> usize {
        self.sizes[0] * self.sizes[1]
    }
    pub fn date(&self, t: usize) -> DateTime {
        self.start + ((t as i64) * self.step_hours).hours()
    }
    pub fn show(&self) -> String {
        let (inflow, demand) = (cut(&format!("{:?}", self.inflow), 300), cut(&format!("{:?}", self.demand), 300));
        let mut s = format!(
            "start {} step {}h x{} scenarios {}x{} inflow {inflow} demand {demand} vmax {:?} vinit {:?}\n",
            self.start, self.step_hours, self.t, self.sizes[0], self.sizes[1], self.vmax, self.vinit
        );
        for (i, p) in self.ps.iter().enumerate() {
            let d = cut(&format!("{:?}", p.k), 900);
            let _ = writeln!(s, "p{i} {} {:?} {}", p.name, p.cl, d);
        }
        let _ = writeln!(s, "order {:?}", self.order);
        s
    }
}

// ---------------------------------------------------------------- building

fn cut(s: &str, n: usize) -> String {
    if s.len() > n { format!("{}…", &s[..n]) } else { s.to_string() }
}

fn nref(n: &str) -> UnresolvedNode {
    UnresolvedNode::new(n, None)
}

pub fn nm_metric(n: Nm) -> UnresolvedMetricF64 {
    use UnresolvedMetricF64 as U;
    match n {
        Nm::Vol1 => U::NodeVolume(nref("r1")),
        Nm::Vol2 => U::NodeVolume(nref("r2")),
        Nm::PVol1 => U::NodeProportionalVolume(nref("r1")),
        Nm::PVol2 => U::NodeProportionalVolume(nref("r2")),
        Nm::MaxVol1 => U::NodeMaxVolume(nref("r1")),
        Nm::OutIn => U::NodeInFlow(nref("out")),
        Nm::InOut => U::NodeOutFlow(nref("in")),
        Nm::EdgeR2Out => U::EdgeFlow(UnresolvedEdge::new(nref("r2"), nref("out"))),
        Nm::MaxFlowOut => U::NodeMaxFlow(nref("out")),
        Nm::AggIn => U::AggregatedNodeInFlow("agg".into()),
        Nm::AggOut => U::AggregatedNodeOutFlow("agg".into()),
        Nm::MultiIn => U::MultiNodeInFlow { nodes: vec![nref("out"), nref("lk")], name: "mi".into() },
        Nm::MultiOut => U::MultiNodeOutFlow { nodes: vec![nref("in"), nref("lk")], name: "mo".into() },
        Nm::MultiEdge => U::MultiEdgeFlow {
            edges: vec![UnresolvedEdge::new(nref("in"), nref("r1")), UnresolvedEdge::new(nref("r2"), nref("out"))],
            name: "me".into(),
        },
        Nm::AggVol => U::AggregatedStorageNodeVolume("aggs".into()),
        Nm::AggPVol => U::AggregatedStorageNodeProportionalVolume("aggs".into()),
    }
}

impl PNet {
    fn pm(&self, i: usize, r: Ret, key: Option<&str>) -> UnresolvedMetricF64 {
        let n = self.ps[i].name.as_str();
        match (r, key) {
            (Ret::Before, None) => UnresolvedMetricF64::new_parameter_before(n),
            (Ret::After, None) => UnresolvedMetricF64::new_parameter_after(n),
            (Ret::AfterElse, None) => UnresolvedMetricF64::new_parameter_after_else_initial(n),
            (Ret::Before, Some(k)) => UnresolvedMetricF64::new_parameter_before_key(n, k),
            (_, Some(k)) => UnresolvedMetricF64::new_parameter_after_key(n, k),
        }
    }
    fn m(&self, m: &M) -> UnresolvedMetricF64 {
        match m {
            M::Lit(v) => (*v).into(),
            M::P(i, r, k) => self.pm(*i, *r, *k),
            M::N(n) => nm_metric(*n),
        }
    }
    fn mu(&self, m: &MU) -> UnresolvedMetricU64 {
        match m {
            MU::Lit(v) => (*v).into(),
            MU::P(i, r, None) => UnresolvedMetricU64::ParameterValue {
                name: self.ps[*i].name.as_str().into(),
                return_value: match r {
                    Ret::Before => ParameterReturnValue::Before,
                    Ret::After => ParameterReturnValue::After,
                    Ret::AfterElse => ParameterReturnValue::AfterOrElseInitial,
                },
            },
            MU::P(..) => unreachable!(),
        }
    }
    pub fn add_param(&self, nb: &mut NetworkBuilder, i: usize) {
        let p = &self.ps[i];
        let name: ParameterName = p.name.as_str().into();
        let m = |x: &M| self.m(x);
        let om = |x: &Option<M>| x.as_ref().map(|x| self.m(x));
        let g = |g: usize| format!("g{g}");
        let mut f64p = |b: Box<dyn ParameterBuilder<f64>>| {
            nb.parameters().f64(b);
        };
        let a2 = |v: &Vec<Vec<f64>>| Array2::from_shape_fn((v.len(), v[0].len()), |(t, s)| v[t][s]);
        match &p.k {
            K::Const(v) => f64p(Box::new(ConstantParameterBuilder::new(name, *v))),
            K::ConstScen(v, gr) => f64p(Box::new(ConstantScenarioParameterBuilder::new(name, v.clone(), &g(*gr)))),
            K::Array1(v, o) => {
                let mut b = Array1ParameterBuilder::new(name, Array1::from(v.clone()));
                if let Some(o) = o {
                    b.timestep_offset(*o);
                }
                f64p(Box::new(b))
            }
            K::Array2(v, gr, o) => {
                let mut b = Array2ParameterBuilder::new(name, a2(v), &g(*gr));
                if let Some(o) = o {
                    b.timestep_offset(*o);
                }
                f64p(Box::new(b))
            }
            K::Vector(v) => f64p(Box::new(VectorParameterBuilder::new(name, v))),
            K::Neg(x) => f64p(Box::new(NegativeParameterBuilder::new(name, m(x)))),
            K::Max(x, t) => f64p(Box::new(MaxParameterBuilder::new(name, m(x), *t))),
            K::Min(x, t) => f64p(Box::new(MinParameterBuilder::new(name, m(x), *t))),
            K::NegMax(x, t) => f64p(Box::new(NegativeMaxParameterBuilder::new(name, m(x), *t))),
            K::NegMin(x, t) => f64p(Box::new(NegativeMinParameterBuilder::new(name, m(x), *t))),
            K::Offset(x, o) => f64p(Box::new(OffsetParameterBuilder::new(name, m(x), *o))),
            K::Poly(x, c, sc, of) => {
                let mut b = Polynomial1DParameterBuilder::new(name, m(x), c.clone());
                if let Some(v) = sc {
                    b.scale(*v);
                }
                if let Some(v) = of {
                    b.offset(*v);
                }
                f64p(Box::new(b))
            }
            K::Diff(a, b, lo, hi) => {
                let mut d = DifferenceParameterBuilder::new(name, m(a), m(b));
                if let Some(x) = lo {
                    d.min(m(x));
                }
                if let Some(x) = hi {
                    d.max(m(x));
                }
                f64p(Box::new(d))
            }
            K::Div(ph, a, b) => {
                let (a, b) = (m(a), m(b));
                f64p(Box::new(match ph {
                    Ph::Before => DivisionParameterBuilder::before(name, a, b),
                    Ph::After => DivisionParameterBuilder::after(name, a, b),
                    Ph::Both => DivisionParameterBuilder::both(name, a, b),
                }))
            }
            K::Agg(ph, f, ms) => {
                let f = aff(*f);
                let mut b = match ph {
                    Ph::Before => AggregatedParameterBuilder::before(name, f),
                    Ph::After => AggregatedParameterBuilder::after(name, f),
                    Ph::Both => AggregatedParameterBuilder::both(name, f),
                };
                for x in ms {
                    b.metric(m(x));
                }
                f64p(Box::new(b))
            }
            K::Indexed(ix, ms) => {
                let mut b = IndexedArrayParameterBuilder::new(name, self.mu(ix));
                for x in ms {
                    b.metric(m(x));
                }
                f64p(Box::new(b))
            }
            K::Interp(x, pts, e) => {
                let mut b = InterpolatedParameterBuilder::new(name, m(x), pts.iter().map(|(x, y)| ((*x).into(), m(y))).collect());
                b.error_on_bounds(*e);
                f64p(Box::new(b))
            }
            K::Discount(x, y) => f64p(Box::new(DiscountFactorParameterBuilder::new(name, m(x), *y))),
            K::Deficit(a, b) => f64p(Box::new(DeficitParameterBuilder::new(name, m(a), m(b)))),
            K::Delay(x, d, i) => f64p(Box::new(DelayParameterBuilder::new(name, m(x), *d, *i))),
            K::Rolling(x, w, i, mv, f) => f64p(Box::new(RollingParameterBuilder::new(name, m(x), *w, *i, *mv, aff(*f)))),
            K::CcInterp(x, cc, vs) => {
                let mut b = ControlCurveInterpolatedParameterBuilder::before(name, m(x));
                for c in cc {
                    b.control_curve(m(c));
                }
                for v in vs {
                    b.value(m(v));
                }
                f64p(Box::new(b))
            }
            K::CcPiece(x, cc, vs, max, min) => {
                let mut b = PiecewiseInterpolatedParameterBuilder::before(name, m(x), *max, *min);
                for c in cc {
                    b.control_curve(m(c));
                }
                for v in vs {
                    b.value(*v);
                }
                f64p(Box::new(b))
            }
            K::Cc(x, cc, vs) => {
                let mut b = ControlCurveParameterBuilder::before(name, m(x));
                for c in cc {
                    b.control_curve(m(c));
                }
                for v in vs {
                    b.value(m(v));
                }
                f64p(Box::new(b))
            }
            K::VolBetween(t, lo, hi) => {
                let mut b = VolumeBetweenControlCurvesParameterBuilder::new(name, m(t));
                if let Some(x) = om(lo) {
                    b.lower(x);
                }
                if let Some(x) = om(hi) {
                    b.upper(x);
                }
                f64p(Box::new(b))
            }
            K::Hydro(h) => f64p(Box::new(HydropowerTargetParameterBuilder::new(
                name,
                HydropowerTargetData {
                    actual_flow: om(&h.actual_flow),
                    target: om(&h.target),
                    elevation: h.elevation,
                    min_head: h.min_head,
                    max_flow: om(&h.max_flow),
                    min_flow: om(&h.min_flow),
                    efficiency: h.efficiency,
                    water_elevation: om(&h.water_elevation),
                    water_density: h.density,
                    flow_unit_conversion: h.flow_conv,
                    energy_unit_conversion: h.energy_conv,
                },
            ))),
            K::Daily(v) => f64p(Box::new(DailyProfileParameterBuilder::new(name, v.clone().try_into().unwrap()))),
            K::Diurnal(v) => f64p(Box::new(DiurnalProfileParameterBuilder::new(name, v.clone().try_into().unwrap()))),
            K::Monthly(v, i) => {
                let mut b = MonthlyProfileParameterBuilder::new(name, v.clone().try_into().unwrap());
                match i {
                    Interp::No => {}
                    Interp::First => {
                        b.interp_day(MonthlyInterpDay::First);
                    }
                    Interp::Last => {
                        b.interp_day(MonthlyInterpDay::Last);
                    }
                }
                f64p(Box::new(b))
            }
            K::Weekly(v, i) => {
                let mut b = WeeklyProfileParameterBuilder::new(name, WeeklyProfileValues::try_from(v.as_slice()).unwrap());
                match i {
                    Interp::No => {}
                    Interp::First => {
                        b.interp_day(WeeklyInterpDay::First);
                    }
                    Interp::Last => {
                        b.interp_day(WeeklyInterpDay::Last);
                    }
                }
                f64p(Box::new(b))
            }
            K::Drawdown(d, mo, r) => {
                let mut b = UniformDrawdownProfileParameterBuilder::new(name, *d, *mo);
                if let Some(r) = r {
                    b.residual_days(*r);
                }
                f64p(Box::new(b))
            }
            K::Rbf(pts, f) => f64p(Box::new(RbfProfileParameterBuilder::new(
                name,
                pts.clone(),
                match f {
                    Rb::Linear => RadialBasisFunction::Linear,
                    Rb::Cubic => RadialBasisFunction::Cubic,
                    Rb::Quintic => RadialBasisFunction::Quintic,
                    Rb::Thin => RadialBasisFunction::ThinPlateSpline,
                    Rb::Gauss(e) => RadialBasisFunction::Gaussian { epsilon: *e },
                    Rb::Mq(e) => RadialBasisFunction::MultiQuadric { epsilon: *e },
                    Rb::Imq(e) => RadialBasisFunction::InverseMultiQuadric { epsilon: *e },
                },
            ))),
            K::UArray1(v, o) => {
                let mut b = Array1ParameterBuilder::new(name, Array1::from(v.clone()));
                if let Some(o) = o {
                    b.timestep_offset(*o);
                }
                nb.parameters().u64(Box::new(b));
            }
            K::UArray2(v, gr, o) => {
                let a = Array2::from_shape_fn((v.len(), v[0].len()), |(t, s)| v[t][s]);
                let mut b = Array2ParameterBuilder::new(name, a, &g(*gr));
                if let Some(o) = o {
                    b.timestep_offset(*o);
                }
                nb.parameters().u64(Box::new(b));
            }
            K::UAgg(ph, f, ms) => {
                let f = auf(*f);
                let mut b = match ph {
                    Ph::Before => AggregatedIndexParameterBuilder::before(name, f),
                    Ph::After => AggregatedIndexParameterBuilder::after(name, f),
                    Ph::Both => AggregatedIndexParameterBuilder::both(name, f),
                };
                for x in ms {
                    b.metric(self.mu(x));
                }
                nb.parameters().u64(Box::new(b));
            }
            K::Asym(a, b) => {
                nb.parameters().u64(Box::new(AsymmetricSwitchIndexParameterBuilder::before(name, self.mu(a), self.mu(b))));
            }
            K::Thresh(x, t, pr, r) => {
                let mut b = ThresholdParameterBuilder::new(name, m(x), m(t), prf(*pr));
                if *r {
                    b.ratchet();
                }
                nb.parameters().u64(Box::new(b));
            }
            K::MultiThresh(x, ts, pr, r) => {
                let mut b = MultiThresholdParameterBuilder::new(name, m(x), prf(*pr));
                if *r {
                    b.ratchet();
                }
                for t in ts {
                    b.threshold(m(t));
                }
                nb.parameters().u64(Box::new(b));
            }
            K::CcIndex(x, cc) => {
                let mut b = ControlCurveIndexParameterBuilder::before(name, m(x));
                for c in cc {
                    b.control_curve(m(c));
                }
                nb.parameters().u64(Box::new(b));
            }
            K::UDelay(x, d, i) => {
                nb.parameters().u64(Box::new(DelayParameterBuilder::new(name, self.mu(x), *d, *i)));
            }
            K::URolling(x, w, i, mv, f) => {
                nb.parameters().u64(Box::new(RollingParameterBuilder::new(name, self.mu(x), *w, *i, *mv, auf(*f))));
            }
            K::Apportion(x, c) => {
                nb.parameters().multi(Box::new(ApportionParameterBuilder::before(name, m(x), m(c))));
            }
            K::Py(_) => unreachable!(),
            K::Muskingum(i, o, tt, w, init) => {
                let ic = match init {
                    None => MuskingumInitialCondition::SteadyState,
                    Some((i, o)) => MuskingumInitialCondition::Specified { inflow: *i, outflow: *o },
                };
                nb.parameters().multi(Box::new(MuskingumParameterBuilder::new(name, m(i), m(o), m(tt), m(w), ic)));
            }
        }
    }
    /// The water system: in -> r1 -> lk -> r2 -> out, with the demand table as the outlet's maximum.
    pub fn water(&self, nb: &mut NetworkBuilder) {
        let tab = |v: &Vec<Vec<f64>>| Array2::from_shape_fn((self.t, self.sizes[0]), |(t, s)| v[t][s]);
        nb.parameters().f64(Box::new(Array2ParameterBuilder::new("w-in".into(), tab(&self.inflow), "g0")));
        nb.parameters().f64(Box::new(Array2ParameterBuilder::new("w-out".into(), tab(&self.demand), "g0")));
        let mut b = NodeBuilder::input(nref("in"));
        b.max_flow(UnresolvedMetricF64::new_parameter_before("w-in")).cost((-5.0).into());
        nb.node(b);
        let mut b = NodeBuilder::link(nref("lk"));
        b.max_flow(6.0.into());
        nb.node(b);
        let mut b = NodeBuilder::output(nref("out"));
        b.max_flow(UnresolvedMetricF64::new_parameter_before("w-out")).cost((-20.0).into());
        nb.node(b);
        for k in 0..2 {
            let mut b = NodeBuilder::storage(nref(["r1", "r2"][k]));
            b.max_volume(self.vmax[k].into())
                .initial_volume(UnresolvedStorageInitialVolume::absolute(self.vinit[k]))
                .cost([-1.0, -0.5][k].into());
            nb.node(b);
        }
        let mut b = NodeBuilder::output(nref("spill"));
        b.cost(1.0.into());
        nb.node(b);
        for (a, b) in [("in", "r1"), ("r1", "lk"), ("lk", "r2"), ("r2", "out"), ("r1", "spill")] {
            nb.connect(a, b);
        }
        let mut a = AggregatedNodeBuilder::new("agg");
        a.nodes(vec![nref("in")]).nodes(vec![nref("out"), nref("lk")]);
        nb.agg_node(a);
        let mut a = pywr_core::AggregatedStorageNodeBuilder::new("aggs");
        a.node(nref("r1")).node(nref("r2"));
        nb.agg_storage_node(a);
    }
    pub fn build(&self) -> Result<(Model, ProbeData, Vec<(usize, bool, Option<&'static str>)>), String> {
        self.build_in(domain(self.start, self.step_hours, self.t, self.sizes))
    }
    pub fn build_in(&self, d: ModelDomain) -> Result<(Model, ProbeData, Vec<(usize, bool, Option<&'static str>)>), String> {
        let mut nb = NetworkBuilder::default();
        self.water(&mut nb);
        for i in &self.order {
            self.add_param(&mut nb, *i);
        }
        let mut metrics: Vec<UnresolvedMetricF64> = NMS.iter().map(|n| nm_metric(*n)).collect();
        let mut cols = Vec::new();
        for (i, p) in self.ps.iter().enumerate() {
            let keys: Vec<Option<&'static str>> = match p.ty {
                Ty::Multi(k) => k.iter().map(|k| Some(*k)).collect(),
                _ => vec![None],
            };
            for k in keys {
                if p.before {
                    metrics.push(self.pm(i, Ret::Before, k));
                    cols.push((i, false, k));
                }
                if p.after {
                    metrics.push(self.pm(i, Ret::After, k));
                    cols.push((i, true, k));
                }
            }
        }
        let (probe, data) = Probe::new("probe", metrics, vec![]);
        nb.recorder(Box::new(probe));
        let model = ModelBuilder::new(d, nb).build().map_err(|e| crate::alloc::full(&e))?;
        Ok((model, data, cols))
    }
}

fn aff(f: Af) -> AggFuncF64 {
    match f {
        Af::Sum => AggFuncF64::Sum,
        Af::Mean => AggFuncF64::Mean,
        Af::Product => AggFuncF64::Product,
        Af::Min => AggFuncF64::Min,
        Af::Max => AggFuncF64::Max,
        Af::CountNonZero => AggFuncF64::CountNonZero,
        Af::CountPos => AggFuncF64::CountFunc { func: |v| v > 0.0 },
        Af::AnyNonZero(t) => AggFuncF64::AnyNonZero { tolerance: t },
    }
}

fn auf(f: Au) -> AggFuncU64 {
    match f {
        Au::Sum => AggFuncU64::Sum,
        Au::Product => AggFuncU64::Product,
        Au::Min => AggFuncU64::Min,
        Au::Max => AggFuncU64::Max,
        Au::Any => AggFuncU64::Any,
        Au::All => AggFuncU64::All,
    }
}

fn prf(p: Pr) -> Predicate {
    match p {
        Pr::Lt => Predicate::LessThan,
        Pr::Gt => Predicate::GreaterThan,
        Pr::Eq => Predicate::EqualTo,
        Pr::Le => Predicate::LessThanOrEqualTo,
        Pr::Ge => Predicate::GreaterThanOrEqualTo,
    }
}

// ---------------------------------------------------------------- reference evaluation

/// A predicted value. `exact`: every evaluation order gives this very number. `known`: predictable at all
/// (a discrete choice made within rounding of its boundary is not).
#[derive(Clone, Copy, Debug)]
pub struct V {
    pub v: f64,
    pub exact: bool,
    pub known: bool,
    /// Scale of the rounding error to allow.
    pub mag: f64,
}

const UNKNOWN: V = V { v: f64::NAN, exact: false, known: false, mag: 0.0 };

fn ex(v: f64) -> V {
    V { v, exact: dyadic(v), known: true, mag: v.abs() }
}
fn dyadic(v: f64) -> bool {
    v.abs() < (1u64 << 28) as f64 && (v * (1u64 << 22) as f64).fract() == 0.0
}
fn mk(v: f64, ins: &[V]) -> V {
    let known = ins.iter().all(|i| i.known);
    let mag = ins.iter().map(|i| i.mag).fold(v.abs(), f64::max);
    V { v, exact: known && ins.iter().all(|i| i.exact) && dyadic(v), known, mag }
}

#[derive(Debug)]
enum E {
    /// The run must fail.
    Must,
    /// Cannot tell.
    Maybe,
}

type R = Result<V, E>;

fn close_call(a: V, b: V) -> bool {
    !(a.exact && b.exact) && (a.v - b.v).abs() <= 1e-6 * (1.0 + a.v.abs().max(b.v.abs()).max(a.mag).max(b.mag))
}

/// a >= b, or None if too close to call.
fn ge(a: V, b: V) -> Option<bool> {
    if !a.known || !b.known || close_call(a, b) { None } else { Some(a.v >= b.v) }
}

fn pred(p: Pr, a: V, b: V) -> Option<bool> {
    if !a.known || !b.known || close_call(a, b) {
        return None;
    }
    Some(match p {
        Pr::Lt => a.v < b.v,
        Pr::Gt => a.v > b.v,
        Pr::Eq => {
            let d = (a.v - b.v).abs();
            if d > 0.0 && d < 1e-3 {
                return None;
            }
            d == 0.0
        }
        Pr::Le => a.v <= b.v,
        Pr::Ge => a.v >= b.v,
    })
}

fn lerp(x: V, lo: V, hi: V, vlo: V, vhi: V) -> V {
    // linear between (lo, vlo) and (hi, vhi); flat outside
    let ins = [x, lo, hi, vlo, vhi];
    if !ins.iter().all(|i| i.known) {
        return UNKNOWN;
    }
    if x.v <= lo.v {
        return vlo;
    }
    if x.v >= hi.v {
        return vhi;
    }
    if (hi.v - lo.v).abs() < 1e-4 {
        // A nearly vertical segment: any value between the two.
        return UNKNOWN;
    }
    let r = vlo.v + (vhi.v - vlo.v) * (x.v - lo.v) / (hi.v - lo.v);
    let mut v = mk(r, &ins);
    v.exact = false;
    v.mag = v.mag * (1.0 + (vhi.v - vlo.v).abs() / (hi.v - lo.v)).max(1.0);
    v
}

#[derive(Clone)]
pub struct PState {
    mem: VecDeque<V>,
    flag: V,
}

pub struct Eval<'a> {
    pub net: &'a PNet,
    pub sim: usize,
    pub gi: [usize; 2],
    /// vb[i][key], va[i][key]
    vb: Vec<Vec<V>>,
    va: Vec<Vec<V>>,
    st: Vec<PState>,
    nodes_before: Vec<V>,
    nodes_after: Vec<V>,
    t: usize,
}

fn keys(ty: Ty) -> Vec<&'static str> {
    match ty {
        Ty::Multi(k) if k == PYTHON => [k, &[PYTHON_INDEX]].concat(),
        Ty::Multi(k) => k.to_vec(),
        _ => vec![""],
    }
}

impl<'a> Eval<'a> {
    pub fn new(net: &'a PNet, sim: usize) -> Self {
        let st = net
            .ps
            .iter()
            .map(|p| PState {
                mem: match &p.k {
                    K::Delay(_, d, i) => (0..*d).map(|_| ex(*i)).collect(),
                    K::UDelay(_, d, i) => (0..*d).map(|_| ex(*i as f64)).collect(),
                    _ => VecDeque::new(),
                },
                flag: ex(0.0),
            })
            .collect();
        let zero: Vec<Vec<V>> = net.ps.iter().map(|p| keys(p.ty).iter().map(|_| ex(0.0)).collect()).collect();
        Eval {
            net,
            sim,
            gi: sizes_index(net.sizes, sim),
            vb: zero.clone(),
            va: zero,
            st,
            nodes_before: vec![],
            nodes_after: vec![],
            t: 0,
        }
    }
    fn node_initial(&self) -> Vec<V> {
        let n = self.net;
        NMS.iter()
            .map(|m| match m {
                Nm::Vol1 => ex(n.vinit[0]),
                Nm::Vol2 => ex(n.vinit[1]),
                Nm::PVol1 => mk(n.vinit[0] / n.vmax[0], &[]),
                Nm::PVol2 => mk(n.vinit[1] / n.vmax[1], &[]),
                Nm::AggVol => ex(n.vinit[0] + n.vinit[1]),
                Nm::AggPVol => mk((n.vinit[0] + n.vinit[1]) / (n.vmax[0] + n.vmax[1]), &[]),
                _ => ex(0.0),
            })
            .collect()
    }
    /// The before phase of timestep t.
    fn before(&mut self, t: usize) -> Result<(), E> {
        self.t = t;
        let prev = std::mem::take(&mut self.nodes_after);
        self.nodes_before = if t == 0 { self.node_initial() } else { prev };
        self.limits(false);
        for i in 0..self.net.ps.len() {
            if self.net.ps[i].before {
                let v = self.eval(i, false)?;
                self.vb[i] = v;
            }
        }
        Ok(())
    }
    /// The after phase; `observed` are the node metrics at the end of the timestep.
    fn after(&mut self, observed: &[f64]) -> Result<(), E> {
        // Parameters read the very values that the probe records.
        self.nodes_after = observed.iter().map(|v| V { v: *v, exact: true, known: true, mag: v.abs().max(10.0) }).collect();
        self.limits(true);
        for i in 0..self.net.ps.len() {
            if self.net.ps[i].after {
                let v = self.eval(i, true)?;
                self.va[i] = v;
            }
            self.hook(i)?;
        }
        Ok(())
    }
    /// The configured limits do not wait for the solver.
    fn limits(&mut self, after: bool) {
        for (k, n) in NMS.iter().enumerate() {
            let now = match n {
                Nm::MaxVol1 => ex(self.net.vmax[0]),
                Nm::MaxFlowOut => ex(self.net.demand[self.t][self.gi[0]]),
                _ => continue,
            };
            if after {
                self.nodes_after[k] = now;
            } else {
                self.nodes_before[k] = now;
            }
        }
    }
    fn g(&self, m: &M, after: bool) -> V {
        match m {
            M::Lit(v) => ex(*v),
            M::N(n) => {
                let k = NMS.iter().position(|x| x == n).unwrap();
                if after { self.nodes_after[k] } else { self.nodes_before[k] }
            }
            M::P(i, r, key) => {
                let k = key.map(|k| keys(self.net.ps[*i].ty).iter().position(|x| *x == k).unwrap()).unwrap_or(0);
                match r {
                    Ret::Before => self.vb[*i][k],
                    // In the before phase `va` still holds the previous timestep's values.
                    Ret::After | Ret::AfterElse => self.va[*i][k],
                }
            }
        }
    }
    fn gu(&self, m: &MU, after: bool) -> V {
        match m {
            MU::Lit(v) => ex(*v as f64),
            MU::P(i, r, k) => self.g(&M::P(*i, *r, *k), after),
        }
    }
    fn hook(&mut self, i: usize) -> Result<(), E> {
        // Memory of parameters that look at the completed timestep.
        let general = self.net.ps[i].cl == Cl::General;
        let v = match &self.net.ps[i].k {
            K::Delay(m, ..) | K::Rolling(m, ..) if general => self.g(m, true),
            K::UDelay(m, ..) | K::URolling(m, ..) if general => self.gu(m, true),
            _ => return Ok(()),
        };
        self.push(i, v);
        Ok(())
    }
    fn push(&mut self, i: usize, v: V) {
        self.st[i].mem.push_back(v);
        if let K::Rolling(_, w, ..) | K::URolling(_, w, ..) = &self.net.ps[i].k {
            if self.st[i].mem.len() > *w {
                self.st[i].mem.pop_front();
            }
        }
    }
    fn eval(&mut self, i: usize, after: bool) -> Result<Vec<V>, E> {
        let net = self.net;
        let p = &net.ps[i];
        if let K::Apportion(m, c) = &p.k {
            let (x, c) = (self.g(m, after), self.g(c, after));
            let cc = c.v.clamp(0.0, 1.0);
            return Ok(vec![mk((1.0 - cc) * x.v, &[x, c]), mk(cc * x.v, &[x, c])]);
        }
        if let K::Muskingum(ii, oo, tt, w, init) = &p.k {
            let (k, x) = (self.g(tt, after), self.g(w, after));
            let den = 2.0 * k.v * (1.0 - x.v) + 1.0;
            let mut f;
            let mut r;
            if self.t == 0 && init.is_none() {
                // Steady state: outflow equals inflow.
                f = mk(-1.0, &[k, x]);
                r = ex(0.0);
                f.exact = false;
                r.exact = false;
                return Ok(vec![f, r]);
            }
            let (i0, o0) = if self.t == 0 {
                let (a, b) = init.unwrap();
                (ex(a), ex(b))
            } else {
                (self.g(ii, after), self.g(oo, after))
            };
            f = mk(-(1.0 - 2.0 * k.v * x.v) / den, &[k, x]);
            r = mk(
                (i0.v * (1.0 + 2.0 * k.v * x.v) + o0.v * (2.0 * k.v * (1.0 - x.v) - 1.0)) / den,
                &[k, x, i0, o0],
            );
            f.exact = false;
            r.exact = false;
            return Ok(vec![f, r]);
        }
        if let (K::Py(y), Ty::Multi(_)) = (&p.k, p.ty) {
            let v = self.python(i, y, after)?;
            let mut n = ex((3 * self.t + self.sim + if after { 50 } else { 0 }) as f64);
            for (m, w) in &y.us {
                let x = self.gu(m, after);
                n.v += *w as f64 * x.v;
                n.mag += *w as f64 * x.mag;
            }
            if !(n.mag < 1e13) {
                return Err(E::Maybe);
            }
            return Ok(vec![v, mk(v.v * -2.0 + 1.0, &[v]), n]);
        }
        Ok(vec![self.eval1(i, after)?])
    }
    fn python(&mut self, i: usize, y: &Py, after: bool) -> R {
        let (t, date) = (self.t, self.net.date(self.t));
        if y.raise == Some(t) {
            return Err(E::Must);
        }
        let y0 = date.year() as i64;
        let leap = y0 % 4 == 0 && (y0 % 100 != 0 || y0 % 400 == 0);
        let lengths = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
        let ordinal = lengths[..date.month() as usize - 1].iter().sum::<i64>() + date.day() as i64;
        let place = ordinal - 1 + (!leap && date.month() > 2) as i64;
        let parts = [
            1.0,
            t as f64,
            date.day() as f64,
            date.month() as f64,
            date.hour() as f64,
            self.net.step_hours as f64 / 24.0,
            self.sim as f64,
            self.gi[1] as f64,
            if t == 0 { 1.0 } else { 0.0 },
            date.year() as f64,
            ordinal as f64,
            place as f64,
            place as f64 + date.hour() as f64 / 24.0,
            if leap { 1.0 } else { 0.0 },
            date.year() as f64,
        ];
        let mut v: f64 = parts.iter().zip(&y.w).map(|(a, b)| a * b).sum();
        let mut ins = vec![];
        let mut mag = v.abs() + 1e4;
        for (m, w) in &y.ms {
            let x = self.g(m, after);
            v += w * x.v;
            mag += w.abs() * x.mag;
            ins.push(x);
        }
        for (m, w) in &y.us {
            let x = self.gu(m, after);
            v += *w as f64 * x.v;
            mag += *w as f64 * x.mag;
            ins.push(x);
        }
        v += y.count * self.st[i].flag.v;
        self.st[i].flag.v += 1.0;
        if after {
            v += 100.0;
        }
        let mut r = mk(v, &ins);
        r.mag = r.mag.max(mag);
        if !r.known || !(r.mag < 1e290) {
            // It may overflow
            return Err(E::Maybe);
        }
        if self.net.ps[i].ty == Ty::U {
            if r.mag > 1e13 {
                return Err(E::Maybe);
            }
        } else {
            r.exact = false;
        }
        Ok(r)
    }
    fn eval1(&mut self, i: usize, after: bool) -> R {
        let net = self.net;
        let t = self.t;
        let date = net.date(t);
        let p = &net.ps[i];
        let idx = |o: Option<i32>, n: usize| -> Result<usize, E> {
            match o {
                None => if t < n { Ok(t) } else { Err(E::Must) },
                Some(o) => Ok((t as i64 + o as i64).clamp(0, n as i64 - 1) as usize),
            }
        };
        let r = match &p.k {
            K::Const(v) => ex(*v),
            K::ConstScen(v, g) => ex(v[self.gi[*g]]),
            K::Array1(v, o) => ex(v[idx(*o, v.len())?]),
            K::Array2(v, g, o) => ex(v[idx(*o, v.len())?][self.gi[*g]]),
            K::Vector(v) => ex(*v.get(t).ok_or(E::Must)?),
            K::UArray1(v, o) => ex(v[idx(*o, v.len())?] as f64),
            K::UArray2(v, g, o) => ex(v[idx(*o, v.len())?][self.gi[*g]] as f64),
            K::Neg(m) => {
                let x = self.g(m, after);
                mk(-x.v, &[x])
            }
            K::Max(m, c) => {
                let x = self.g(m, after);
                mk(if x.v >= *c { x.v } else { *c }, &[x])
            }
            K::Min(m, c) => {
                let x = self.g(m, after);
                mk(if x.v <= *c { x.v } else { *c }, &[x])
            }
            K::NegMax(m, c) => {
                let x = self.g(m, after);
                mk(if -x.v >= *c { -x.v } else { *c }, &[x])
            }
            K::NegMin(m, c) => {
                let x = self.g(m, after);
                mk(if -x.v <= *c { -x.v } else { *c }, &[x])
            }
            K::Offset(m, o) => {
                let x = self.g(m, after);
                mk(x.v + o, &[x, ex(*o)])
            }
            K::Poly(m, cs, sc, of) => {
                let x = self.g(m, after);
                let z = x.v * sc.unwrap_or(1.0) + of.unwrap_or(0.0);
                let mut y = 0.0;
                let mut mag: f64 = 0.0;
                let mut pw = 1.0;
                let zm = x.mag.max(z.abs()).max(1.0);
                let mut pm = 1.0;
                for c in cs {
                    y += c * pw;
                    mag += (c * pm).abs();
                    pw *= z;
                    pm *= zm;
                }
                let mut v = mk(y, &[x]);
                v.mag = v.mag.max(mag);
                v.exact = v.exact && mag < 1e5 && dyadic(z * 1024.0);
                v
            }
            K::Diff(a, b, lo, hi) => {
                let (a, b) = (self.g(a, after), self.g(b, after));
                let mut ins = vec![a, b];
                let mut v = a.v - b.v;
                let lo = lo.as_ref().map(|m| self.g(m, after));
                let hi = hi.as_ref().map(|m| self.g(m, after));
                if let (Some(l), Some(h)) = (lo, hi) {
                    if !(l.v <= h.v) {
                        // An empty range: no value is right.
                        return Ok(UNKNOWN);
                    }
                }
                if let Some(l) = lo {
                    v = v.max(l.v);
                    ins.push(l);
                }
                if let Some(h) = hi {
                    v = v.min(h.v);
                    ins.push(h);
                }
                mk(v, &ins)
            }
            K::Div(_, a, b) => {
                let (a, b) = (self.g(a, after), self.g(b, after));
                if !b.known || (!b.exact && b.v.abs() < 1e-6 * (1.0 + b.mag)) {
                    return Err(E::Maybe);
                }
                if b.v == 0.0 {
                    return Err(E::Must);
                }
                let mut v = mk(a.v / b.v, &[a, b]);
                v.exact = false;
                v.mag = v.mag.max(a.mag / b.v.abs() * (1.0 + b.mag / b.v.abs()));
                v
            }
            K::Agg(_, f, ms) => {
                let xs: Vec<V> = ms.iter().map(|m| self.g(m, after)).collect();
                agg(*f, &xs)
            }
            K::UAgg(_, f, ms) => {
                let xs: Vec<V> = ms.iter().map(|m| self.gu(m, after)).collect();
                uagg(*f, &xs)?
            }
            K::Indexed(ix, ms) => {
                let k = self.gu(ix, after);
                if !k.known {
                    return Err(E::Maybe);
                }
                match ms.get(k.v as usize) {
                    None => return Err(E::Must),
                    Some(m) => self.g(m, after),
                }
            }
            K::Interp(m, pts, eb) => {
                let x = self.g(m, after);
                let ys: Vec<V> = pts.iter().map(|p| self.g(&p.1, after)).collect();
                let n = pts.len();
                if !x.known {
                    return if *eb { Err(E::Maybe) } else { Ok(UNKNOWN) };
                }
                for e in [pts[0].0, pts[n - 1].0] {
                    if *eb && close_call(x, ex(e)) {
                        return Err(E::Maybe);
                    }
                }
                if x.v < pts[0].0 {
                    if *eb {
                        return Err(E::Must);
                    }
                    ys[0]
                } else if x.v > pts[n - 1].0 {
                    if *eb {
                        return Err(E::Must);
                    }
                    ys[n - 1]
                } else {
                    let k = (1..n).find(|k| x.v <= pts[*k].0).unwrap();
                    lerp(x, ex(pts[k - 1].0), ex(pts[k].0), ys[k - 1], ys[k])
                }
            }
            K::Discount(m, y) => {
                let x = self.g(m, after);
                let n = date.year() as i32 - *y as i32;
                let f = (1.0 + x.v).powi(-n);
                let mut v = mk(f, &[x]);
                v.exact = false;
                if !f.is_finite() || (1.0 + x.v).abs() < 1e-3 {
                    return Ok(UNKNOWN);
                }
                v.mag = v.mag * (1.0 + n.abs() as f64 * x.mag / (1.0 + x.v).abs());
                v
            }
            K::Deficit(f, m) => {
                let (f, m) = (self.g(f, after), self.g(m, after));
                mk((m.v - f.v).max(0.0), &[f, m])
            }
            K::Delay(m, ..) => {
                if p.cl != Cl::General {
                    let x = self.g(m, after);
                    self.push(i, x);
                }
                self.st[i].mem.pop_front().unwrap()
            }
            K::UDelay(m, ..) => {
                if p.cl != Cl::General {
                    let x = self.gu(m, after);
                    self.push(i, x);
                }
                self.st[i].mem.pop_front().unwrap()
            }
            K::Rolling(m, _, init, mv, f) => {
                let mem: Vec<V> = self.st[i].mem.iter().copied().collect();
                let v = if mem.len() < *mv { ex(*init) } else { agg(*f, &mem) };
                if p.cl != Cl::General {
                    let x = self.g(m, after);
                    self.push(i, x);
                }
                v
            }
            K::URolling(m, _, init, mv, f) => {
                let mem: Vec<V> = self.st[i].mem.iter().copied().collect();
                let v = if mem.len() < *mv { ex(*init as f64) } else { uagg(*f, &mem)? };
                if p.cl != Cl::General {
                    let x = self.gu(m, after);
                    self.push(i, x);
                }
                v
            }
            K::CcInterp(m, cc, vs) => {
                let x = self.g(m, after);
                let cv: Vec<V> = cc.iter().map(|c| self.g(c, after)).collect();
                let vv: Vec<V> = vs.iter().map(|c| self.g(c, after)).collect();
                match band(x, &cv) {
                    None => UNKNOWN,
                    Some(k) => {
                        let hi = if k == 0 { ex(1.0) } else { cv[k - 1] };
                        let lo = if k == cv.len() { ex(0.0) } else { cv[k] };
                        lerp(x, lo, hi, vv[k + 1], vv[k])
                    }
                }
            }
            K::CcPiece(m, cc, vs, max, min) => {
                let x = self.g(m, after);
                let cv: Vec<V> = cc.iter().map(|c| self.g(c, after)).collect();
                match band(x, &cv) {
                    None => UNKNOWN,
                    Some(k) => {
                        let hi = if k == 0 { ex(*max) } else { cv[k - 1] };
                        let lo = if k == cv.len() { ex(*min) } else { cv[k] };
                        lerp(x, lo, hi, ex(vs[k][1]), ex(vs[k][0]))
                    }
                }
            }
            K::Cc(m, cc, vs) => {
                let x = self.g(m, after);
                let cv: Vec<V> = cc.iter().map(|c| self.g(c, after)).collect();
                match band(x, &cv) {
                    None => UNKNOWN,
                    Some(k) => self.g(&vs[k], after),
                }
            }
            K::CcIndex(m, cc) => {
                let x = self.g(m, after);
                let cv: Vec<V> = cc.iter().map(|c| self.g(c, after)).collect();
                match band(x, &cv) {
                    None => UNKNOWN,
                    Some(k) => ex(k as f64),
                }
            }
            K::VolBetween(tot, lo, hi) => {
                let a = self.g(tot, after);
                let l = lo.as_ref().map(|m| self.g(m, after)).unwrap_or(ex(0.0));
                let h = hi.as_ref().map(|m| self.g(m, after)).unwrap_or(ex(1.0));
                let mut v = mk(a.v * (h.v - l.v), &[a, l, h]);
                v.mag = v.mag.max(a.mag * (l.mag + h.mag));
                v
            }
            K::Hydro(h) => return self.hydro(h, after),
            K::Thresh(m, th, pr, ratchet) => {
                let prev = self.st[i].flag;
                if *ratchet && !prev.known {
                    UNKNOWN
                } else if *ratchet && prev.v == 1.0 {
                    ex(1.0)
                } else {
                    let v = match pred(*pr, self.g(m, after), self.g(th, after)) {
                        None => UNKNOWN,
                        Some(b) => ex(b as u8 as f64),
                    };
                    if *ratchet {
                        self.st[i].flag = v;
                    }
                    v
                }
            }
            K::MultiThresh(m, ths, pr, ratchet) => {
                let x = self.g(m, after);
                let mut pos = Some(ths.len());
                for (k, th) in ths.iter().enumerate() {
                    match pred(*pr, x, self.g(th, after)) {
                        None => {
                            pos = None;
                            break;
                        }
                        Some(true) => {
                            pos = Some(k);
                            break;
                        }
                        Some(false) => {}
                    }
                }
                let v = match pos {
                    None => UNKNOWN,
                    Some(k) => ex(k as f64),
                };
                if *ratchet {
                    let prev = self.st[i].flag;
                    let v = if !prev.known || !v.known { UNKNOWN } else { ex(prev.v.max(v.v)) };
                    self.st[i].flag = v;
                    v
                } else {
                    v
                }
            }
            K::Asym(on, off) => {
                let (on, off) = (self.gu(on, after), self.gu(off, after));
                let cur = self.st[i].flag;
                let v = if !cur.known || !on.known || !off.known {
                    UNKNOWN
                } else if on.v > 0.0 {
                    ex(1.0)
                } else if off.v == 0.0 {
                    ex(0.0)
                } else {
                    cur
                };
                self.st[i].flag = v;
                v
            }
            K::Daily(v) => ex(v[doy366(date.date()) - 1]),
            K::Diurnal(v) => ex(v[date.hour() as usize]),
            K::Monthly(v, ip) => monthly(v, *ip, date),
            K::Weekly(v, ip) => weekly(v, *ip, date),
            K::Drawdown(d, m, r) => drawdown(*d, *m, r.unwrap_or(0), date.date()),
            K::Rbf(pts, f) => rbf(pts, *f, date.date()),
            K::Py(y) => self.python(i, y, after)?,
            K::Apportion(..) | K::Muskingum(..) => unreachable!(),
        };
        Ok(r)
    }
    fn hydro(&self, h: &Hydro, after: bool) -> R {
        let head = match &h.water_elevation {
            Some(m) => {
                let w = self.g(m, after);
                mk(w.v - h.elevation.unwrap_or(0.0), &[w])
            }
            None => ex(h.elevation.unwrap_or(0.0)),
        };
        let mh = ex(h.min_head.unwrap_or(0.0));
        let head = mk(head.v.max(0.0), &[head]);
        let runs = if !head.known || close_call(head, mh) { None } else { Some(head.v > mh.v) };
        let runs = match runs {
            None => return Err(E::Maybe),
            Some(r) => r,
        };
        let k = 9.81
            * h.density.unwrap_or(1000.0)
            * h.efficiency.unwrap_or(1.0)
            * h.flow_conv.unwrap_or(1.0)
            * h.energy_conv.unwrap_or(1e-6);
        if !runs {
            return Ok(ex(0.0));
        }
        if after {
            let f = self.g(h.actual_flow.as_ref().unwrap(), after);
            let mut v = mk(f.v * head.v * k, &[f, head]);
            v.mag = v.mag.max(f.mag * head.mag * k);
            v.exact = false;
            return Ok(v);
        }
        let p = self.g(h.target.as_ref().unwrap(), after);
        let mut q = mk(p.v / (head.v * k), &[p, head]);
        q.exact = false;
        q.mag = q.mag.max(p.mag / (head.v * k) * (1.0 + head.mag / head.v));
        if let Some(m) = &h.max_flow {
            let x = self.g(m, after);
            q = mk(q.v.min(x.v), &[q, x]);
        }
        if let Some(m) = &h.min_flow {
            let x = self.g(m, after);
            q = mk(q.v.max(x.v), &[q, x]);
        }
        if !q.known || (q.v.abs() < 1e-9 * (1.0 + q.mag) && !q.exact) {
            return Err(E::Maybe);
        }
        if q.v < 0.0 {
            return Err(E::Must);
        }
        Ok(q)
    }
}

/// The band of descending control curves that x lies in: the first curve at or below x, or past the last.
fn band(x: V, cc: &[V]) -> Option<usize> {
    for (k, c) in cc.iter().enumerate() {
        if ge(x, *c)? {
            return Some(k);
        }
    }
    Some(cc.len())
}

fn agg(f: Af, xs: &[V]) -> V {
    let vals = xs.iter().map(|x| x.v);
    match f {
        Af::Sum => {
            let mut v = mk(vals.sum(), xs);
            v.mag = v.mag.max(xs.iter().map(|x| x.mag).sum());
            v
        }
        Af::Mean => {
            if xs.is_empty() {
                return ex(0.0);
            }
            let mut v = mk(vals.sum::<f64>() / xs.len() as f64, xs);
            v.mag = v.mag.max(xs.iter().map(|x| x.mag).sum());
            v
        }
        Af::Product => {
            let mut v = mk(vals.product(), xs);
            v.mag = v.mag.max(xs.iter().map(|x| x.mag.max(1.0)).product());
            v.exact = v.exact && v.mag < 1e5 && xs.iter().all(|x| dyadic(x.v * 1024.0));
            v
        }
        Af::Min | Af::Max => {
            if xs.is_empty() {
                return UNKNOWN;
            }
            let v = if matches!(f, Af::Min) { vals.fold(f64::INFINITY, f64::min) } else { vals.fold(f64::NEG_INFINITY, f64::max) };
            mk(v, xs)
        }
        Af::CountNonZero | Af::CountPos | Af::AnyNonZero(_) => {
            let mut n = 0;
            for x in xs {
                let (test, edge) = match f {
                    Af::CountNonZero => (x.v != 0.0, x.v.abs()),
                    Af::CountPos => (x.v > 0.0, x.v.abs()),
                    Af::AnyNonZero(t) => (x.v.abs() > t, (x.v.abs() - t).abs()),
                    _ => unreachable!(),
                };
                if !x.known || (!x.exact && edge <= 1e-6 * (1.0 + x.mag)) {
                    return UNKNOWN;
                }
                n += test as u64;
            }
            ex(if matches!(f, Af::AnyNonZero(_)) { (n > 0) as u8 as f64 } else { n as f64 })
        }
    }
}

fn uagg(f: Au, xs: &[V]) -> R {
    if !xs.iter().all(|x| x.known) {
        return Err(E::Maybe);
    }
    let v: Vec<u128> = xs.iter().map(|x| x.v as u128).collect();
    let r: u128 = match f {
        Au::Sum => v.iter().sum(),
        Au::Product => v.iter().try_fold(1u128, |a, b| a.checked_mul(*b)).ok_or(E::Maybe)?,
        Au::Min => v.iter().copied().min().unwrap_or(u64::MAX as u128),
        Au::Max => v.iter().copied().max().unwrap_or(0),
        Au::Any => v.iter().any(|x| *x != 0) as u128,
        Au::All => v.iter().all(|x| *x != 0) as u128,
    };
    if r > 1 << 50 {
        // Beyond what the comparison represents exactly.
        return Err(E::Maybe);
    }
    Ok(ex(r as f64))
}

// ---------------------------------------------------------------- calendars

pub fn leap(y: i16) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

/// Day of a 366-day year (1..=366): every calendar day keeps its number whether or not the year has a 29 February.
pub fn doy366(d: Date) -> usize {
    const CUM: [usize; 12] = [0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335];
    CUM[d.month() as usize - 1] + d.day() as usize
}

fn month_len(y: i16, m: i8) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

fn seconds_of_day(d: DateTime) -> f64 {
    d.hour() as f64 * 3600.0 + d.minute() as f64 * 60.0 + d.second() as f64
}

fn monthly(v: &[f64], ip: Interp, d: DateTime) -> V {
    let m = d.month() as usize - 1;
    let (y, mm) = (d.year(), d.month());
    match ip {
        Interp::No => ex(v[m]),
        Interp::First => {
            // Value m on the first of month m, straight to value m+1 on the first of the next month.
            let frac = ((d.day() - 1) as f64 + seconds_of_day(d) / 86400.0) / month_len(y, mm) as f64;
            inexact(v[m] + (v[(m + 1) % 12] - v[m]) * frac, v)
        }
        Interp::Last => {
            // Value m on the last day of month m, straight from value m-1 on the last day of the month before.
            let n = month_len(y, mm);
            let pos = d.day() as f64 + seconds_of_day(d) / 86400.0;
            if pos <= n as f64 {
                let frac = pos / n as f64;
                let a = v[(m + 11) % 12];
                inexact(a + (v[m] - a) * frac, v)
            } else {
                // Past the start of the last day: already on the way to the next month's value.
                let (ny, nm) = if mm == 12 { (y + 1, 1) } else { (y, mm + 1) };
                let frac = (pos - n as f64) / month_len(ny, nm) as f64;
                inexact(v[m] + (v[(m + 1) % 12] - v[m]) * frac, v)
            }
        }
    }
}

fn inexact(x: f64, v: &[f64]) -> V {
    V { v: x, exact: false, known: true, mag: v.iter().fold(x.abs(), |a, b| a.max(b.abs())) }
}

fn weekly(v: &[f64], ip: Interp, d: DateTime) -> V {
    let n = v.len();
    let day = doy366(d.date()) - 1;
    let w = (day / 7).min(n - 1);
    let frac = (day % 7) as f64 / 7.0 + seconds_of_day(d) / 86400.0 / 7.0;
    match ip {
        Interp::No => ex(v[w]),
        Interp::First => inexact(v[w] + (v[(w + 1) % n] - v[w]) * frac, v),
        Interp::Last => {
            let a = v[(w + n - 1) % n];
            inexact(a + (v[w] - a) * frac, v)
        }
    }
}

/// 1 on the reset day, falling by the same amount every day so that the day before the next reset would be
/// followed by residual/period.
fn drawdown(day: i8, month: i8, residual: u8, d: Date) -> V {
    let reset = |y: i16| -> Date {
        if day == 29 && month == 2 && !leap(y) { Date::new(y, 3, 1).unwrap() } else { Date::new(y, month, day).unwrap() }
    };
    let y = d.year();
    let (a, b) = if d >= reset(y) { (reset(y), reset(y + 1)) } else { (reset(y - 1), reset(y)) };
    let since = |x: Date| days_between(a, x);
    let total = since(b);
    let slope = (residual as f64 / total - 1.0) / total;
    inexact(1.0 + slope * since(d), &[1.0])
}

pub fn days_between(a: Date, b: Date) -> f64 {
    let x = a.at(0, 0, 0, 0).duration_until(b.at(0, 0, 0, 0));
    x.as_secs() as f64 / 86400.0
}

pub fn rbf(pts: &[(u32, f64)], f: Rb, d: Date) -> V {
    let phi = |r: f64| -> f64 {
        match f {
            Rb::Linear => r,
            Rb::Cubic => r * r * r,
            Rb::Quintic => r * r * r * r * r,
            Rb::Thin => if r == 0.0 { 0.0 } else { r * r * r.ln() },
            Rb::Gauss(e) => (-(e * r) * (e * r)).exp(),
            Rb::Mq(e) => (1.0 + (e * r) * (e * r)).sqrt(),
            Rb::Imq(e) => 1.0 / (1.0 + (e * r) * (e * r)).sqrt(),
        }
    };
    let all: Vec<(f64, f64)> = [-365.0, 0.0, 365.0].iter().flat_map(|o| pts.iter().map(move |p| (p.0 as f64 + o, p.1))).collect();
    let n = all.len();
    let mut a: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let mut r: Vec<f64> = (0..n).map(|j| phi((all[i].0 - all[j].0).abs())).collect();
            r.push(all[i].1);
            r
        })
        .collect();
    let scale = a.iter().flat_map(|r| r[..n].iter()).fold(0.0f64, |x, y| x.max(y.abs()));
    let mut worst = f64::INFINITY;
    for c in 0..n {
        let p = (c..n).max_by(|x, y| a[*x][c].abs().partial_cmp(&a[*y][c].abs()).unwrap()).unwrap();
        a.swap(c, p);
        worst = worst.min(a[c][c].abs() / scale);
        if a[c][c] == 0.0 {
            return UNKNOWN;
        }
        for r in 0..n {
            if r != c {
                let k = a[r][c] / a[c][c];
                if k != 0.0 {
                    for j in c..=n {
                        let x = a[c][j];
                        a[r][j] -= k * x;
                    }
                }
            }
        }
    }
    if worst < 1e-7 {
        // Too ill-conditioned to predict.
        return UNKNOWN;
    }
    let w: Vec<f64> = (0..n).map(|i| a[i][n] / a[i][i]).collect();
    // Days are numbered from 0 through a 365-day year; 29 February repeats 28 February.
    let k = doy366(d) - 1;
    let x = if k <= 58 { k.min(58) } else { k - 1 } as f64;
    let mut y = 0.0;
    let mut mag: f64 = 0.0;
    for i in 0..n {
        let term = w[i] * phi((x - all[i].0).abs());
        y += term;
        mag += term.abs();
    }
    V { v: y, exact: false, known: true, mag: mag / worst.min(1.0).max(1e-7) * 1e-4 + mag }
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tag {
    Const, ConstScen, Array1, Array2, Vector, Neg, Max, Min, NegMax, NegMin, Offset, Poly, Diff, Div, Agg, Indexed,
    Interp, Discount, Deficit, Delay, Rolling, CcInterp, CcPiece, Cc, VolBetween, Hydro, Daily, Diurnal, Monthly,
    Weekly, Drawdown, Rbf, UArray1, UArray2, UAgg, Asym, Thresh, MultiThresh, CcIndex, UDelay, URolling, Apportion,
    Muskingum, Py,
}
use Tag as T;

pub const BASE: &[T] = &[T::Const, T::Array1, T::ConstScen, T::Array2, T::Agg, T::Neg, T::UArray1];
pub const FUNCS: &[T] = &[
    T::ConstScen, T::Array1, T::Array2, T::Vector, T::Neg, T::Max, T::Min, T::NegMax, T::NegMin, T::Offset, T::Poly,
    T::Diff, T::Div, T::Agg, T::Agg, T::Indexed, T::Interp, T::Interp, T::Discount, T::UArray1, T::UArray2, T::UAgg,
    T::UAgg, T::Hydro, T::Apportion, T::Thresh, T::MultiThresh, T::Deficit,
];
pub const STATEFUL: &[T] = &[
    T::Delay, T::Rolling, T::UDelay, T::URolling, T::Thresh, T::MultiThresh, T::Asym, T::Muskingum, T::Deficit,
    T::Delay, T::Rolling, T::Asym,
];
pub const CURVES: &[T] = &[T::CcInterp, T::CcPiece, T::Cc, T::VolBetween, T::CcIndex, T::Indexed, T::Cc, T::CcIndex];
pub const CALENDAR: &[T] = &[T::Daily, T::Diurnal, T::Monthly, T::Monthly, T::Weekly, T::Weekly, T::Drawdown, T::Drawdown, T::Rbf];

/// Who is asking for an input.
#[derive(Clone, Copy, PartialEq, Eq)]
enum Who {
    /// Constant and simple inputs only.
    Simple,
    Phase(Ph),
}

struct Gen<'s> {
    s: &'s mut Src,
    net: PNet,
}

impl Gen<'_> {
    fn lit(&mut self) -> f64 {
        self.s.num(0.0, 12.0, 0.25) * if self.s.chance(1, 5) { -1.0 } else { 1.0 }
    }
    fn refs(&self, who: Who, u: bool) -> Vec<(usize, Ret, Option<&'static str>)> {
        let mut v = Vec::new();
        for (i, p) in self.net.ps.iter().enumerate() {
            if who == Who::Simple && p.cl == Cl::General {
                continue;
            }
            if u && p.ty != Ty::U && p.ty != Ty::Multi(PYTHON) {
                continue;
            }
            let ks: Vec<Option<&'static str>> = match p.ty {
                Ty::Multi(_) if u => vec![Some(PYTHON_INDEX)],
                Ty::Multi(k) => k.iter().map(|k| Some(*k)).collect(),
                _ => vec![None],
            };
            for k in ks {
                if p.before {
                    v.push((i, Ret::Before, k));
                }
                if p.after && who == Who::Phase(Ph::After) {
                    v.push((i, Ret::After, k));
                }
                if p.after && (k.is_none() || who == Who::Phase(Ph::After)) && who != Who::Simple {
                    v.push((i, Ret::AfterElse, k));
                }
            }
        }
        v
    }
    fn m(&mut self, who: Who) -> M {
        let c = self.s.below(8);
        if c >= 3 {
            let r = self.refs(who, false);
            if !r.is_empty() {
                // Prefer recent parameters: deeper graphs.
                let k = r.len() - 1 - self.s.us(r.len()).min(self.s.us(r.len()));
                return M::P(r[k].0, r[k].1, r[k].2);
            }
        }
        if c >= 1 && who != Who::Simple {
            return M::N(*self.s.pick(&NMS));
        }
        M::Lit(self.lit())
    }
    fn mu(&mut self, who: Who) -> MU {
        if self.s.chance(3, 4) {
            let r = self.refs(who, true);
            if !r.is_empty() {
                let k = self.s.us(r.len());
                return MU::P(r[k].0, r[k].1, r[k].2);
            }
        }
        MU::Lit(self.s.below(4))
    }
    /// An index below n, almost always.
    fn mix(&mut self, who: Who, n: usize) -> MU {
        let ok: Vec<_> = self
            .refs(who, true)
            .into_iter()
            .filter(|r| match &self.net.ps[r.0].k {
                K::UArray1(v, _) => v.iter().all(|x| (*x as usize) < n),
                K::UArray2(v, ..) => v.iter().flatten().all(|x| (*x as usize) < n),
                K::CcIndex(_, c) => c.len() < n,
                K::MultiThresh(_, c, ..) => c.len() < n,
                K::Asym(..) | K::Thresh(..) => n > 1,
                _ => false,
            })
            .collect();
        if !ok.is_empty() && self.s.chance(9, 10) {
            let r = *self.s.pick(&ok);
            return MU::P(r.0, r.1, r.2);
        }
        if self.s.chance(1, 12) { self.mu(who) } else { MU::Lit(self.s.below(n as u64)) }
    }
    fn all(&self, ms: &[&M], c: Cl) -> bool {
        ms.iter().all(|m| match m {
            M::Lit(_) => true,
            M::N(_) => false,
            M::P(i, ..) => self.net.ps[*i].cl <= c,
        })
    }
    fn allu(&self, ms: &[&MU], c: Cl) -> bool {
        ms.iter().all(|m| match m {
            MU::Lit(_) => true,
            MU::P(i, ..) => self.net.ps[*i].cl <= c,
        })
    }
    fn phase(&mut self) -> Ph {
        *self.s.pick(&[Ph::Before, Ph::After, Ph::Both])
    }
    fn af(&mut self) -> Af {
        *self.s.pick(&[Af::Sum, Af::Mean, Af::Product, Af::Min, Af::Max, Af::CountNonZero, Af::CountPos, Af::AnyNonZero(0.25)])
    }
    fn au(&mut self) -> Au {
        *self.s.pick(&[Au::Sum, Au::Product, Au::Min, Au::Max, Au::Any, Au::All])
    }
    fn pr(&mut self) -> Pr {
        *self.s.pick(&[Pr::Lt, Pr::Gt, Pr::Eq, Pr::Le, Pr::Ge])
    }
    fn len(&mut self) -> usize {
        let t = self.net.t;
        if self.s.chance(1, 40) { self.s.size(1, t) } else { t + self.s.us(3) }
    }
    fn off(&mut self) -> Option<i32> {
        if self.s.chance(1, 3) { Some(self.s.int(-4, 4) as i32) } else { None }
    }
    fn curves(&mut self, who: Who) -> (M, Vec<M>) {
        let x = if self.s.chance(3, 4) {
            M::N(*self.s.pick(&[Nm::PVol1, Nm::PVol2, Nm::AggPVol]))
        } else if self.s.bool() {
            M::Lit(self.s.num(0.0, 1.0, 0.125))
        } else {
            // A profile in [0, 1]
            self.unit(who)
        };
        let n = self.s.size(1, 3);
        let mut cs: Vec<f64> = (0..n).map(|_| self.s.num(0.0, 1.0, 0.125)).collect();
        cs.sort_by(|a, b| b.partial_cmp(a).unwrap());
        let mut out: Vec<M> = cs.iter().map(|c| M::Lit(*c)).collect();
        // One curve may vary by time.
        if self.s.chance(1, 2) {
            let k = self.s.us(n);
            let lo = if k + 1 < n { cs[k + 1] } else { 0.0 };
            let hi = if k > 0 { cs[k - 1] } else { 1.0 };
            let vals: Vec<f64> = (0..self.net.t).map(|_| lo + (hi - lo) * self.s.num(0.0, 1.0, 0.25)).collect();
            let i = self.net.ps.len();
            self.push(K::Array1(vals, None), Ty::F, Cl::Simple, true, false);
            out[k] = M::P(i, Ret::Before, None);
        }
        (x, out)
    }
    fn unit(&mut self, _who: Who) -> M {
        let vals: Vec<f64> = (0..self.net.t).map(|_| self.s.num(0.0, 1.0, 0.125)).collect();
        let i = self.net.ps.len();
        self.push(K::Array1(vals, None), Ty::F, Cl::Simple, true, false);
        M::P(i, Ret::Before, None)
    }
    /// A value for an argument of a Python object.
    fn json(&mut self, depth: usize) -> serde_json::Value {
        use serde_json::json;
        match self.s.below(if depth > 0 { 9 } else { 6 }) {
            0 => json!(self.s.int(-5, 100)),
            1 => json!(self.s.num(-5.0, 5.0, 0.25)),
            2 => json!(self.s.bool()),
            3 => json!(*self.s.pick(&["", "text", "it's \"quoted\"", "ü"])),
            4 => serde_json::Value::Null,
            5 => json!(*self.s.pick(&[1e300, 9007199254740993.0, -0.0, 3.0])),
            6 | 7 => {
                let n = self.s.us(4);
                serde_json::Value::Array((0..n).map(|_| self.json(depth - 1)).collect())
            }
            _ => {
                let n = self.s.us(3);
                serde_json::Value::Object((0..n).map(|k| (format!("k {k}"), self.json(depth - 1))).collect())
            }
        }
    }
    fn push(&mut self, k: K, ty: Ty, cl: Cl, before: bool, after: bool) {
        let i = self.net.ps.len();
        // Names whose alphabetical order has nothing to do with dependency order.
        let name = format!("{}-{}", ["m", "b", "z", "a", "k"][i * 7 % 5], i);
        self.net.ps.push(P { name, k, ty, cl, before, after });
    }
    fn add(&mut self, tag: Tag) {
        let b = Who::Phase(Ph::Before);
        let (t, sizes) = (self.net.t, self.net.sizes);
        let by_phase = |ph: Ph| (ph != Ph::After, ph != Ph::Before);
        let g = Cl::General;
        macro_rules! f {
            ($k:expr) => {{
                let k = $k;
                self.push(k, Ty::F, g, true, false)
            }};
        }
        macro_rules! u {
            ($k:expr) => {{
                let k = $k;
                self.push(k, Ty::U, g, true, false)
            }};
        }
        match tag {
            T::Const => {
                let k = K::Const(self.lit());
                self.push(k, Ty::F, Cl::Const, true, false)
            }
            T::ConstScen => {
                let gr = self.s.us(2);
                let k = K::ConstScen((0..sizes[gr]).map(|_| self.lit()).collect(), gr);
                self.push(k, Ty::F, Cl::Const, true, false)
            }
            T::Array1 => {
                let o = self.off();
                let n = if o.is_some() { self.s.size(1, t + 2) } else { self.len() };
                let k = K::Array1((0..n).map(|_| self.lit()).collect(), o);
                self.push(k, Ty::F, Cl::Simple, true, false)
            }
            T::Array2 => {
                let gr = self.s.us(2);
                let o = self.off();
                let n = if o.is_some() { self.s.size(1, t + 2) } else { self.len() };
                let k = K::Array2((0..n).map(|_| (0..sizes[gr]).map(|_| self.lit()).collect()).collect(), gr, o);
                self.push(k, Ty::F, Cl::Simple, true, false)
            }
            T::Vector => {
                let n = self.len();
                let k = K::Vector((0..n).map(|_| self.lit()).collect());
                self.push(k, Ty::F, g, true, false)
            }
            T::UArray1 => {
                let o = self.off();
                let n = if o.is_some() { self.s.size(1, t + 2) } else { self.len() };
                let k = K::UArray1((0..n).map(|_| self.s.below(4)).collect(), o);
                self.push(k, Ty::U, Cl::Simple, true, false)
            }
            T::UArray2 => {
                let gr = self.s.us(2);
                let o = self.off();
                let n = if o.is_some() { self.s.size(1, t + 2) } else { self.len() };
                let k = K::UArray2((0..n).map(|_| (0..sizes[gr]).map(|_| self.s.below(4)).collect()).collect(), gr, o);
                self.push(k, Ty::U, Cl::Simple, true, false)
            }
            T::Neg => f!(K::Neg(self.m(b))),
            T::Max => f!(K::Max(self.m(b), self.lit())),
            T::Min => f!(K::Min(self.m(b), self.lit())),
            T::NegMax => f!(K::NegMax(self.m(b), self.lit())),
            T::NegMin => f!(K::NegMin(self.m(b), self.lit())),
            T::Offset => f!(K::Offset(self.m(b), self.lit())),
            T::Poly => {
                let x = self.m(b);
                let n = self.s.us(4);
                let c = (0..n).map(|_| self.s.num(-2.0, 2.0, 0.5)).collect();
                let sc = if self.s.bool() { Some(self.s.num(0.0, 1.0, 0.25)) } else { None };
                let of = if self.s.bool() { Some(self.s.num(-2.0, 2.0, 0.5)) } else { None };
                f!(K::Poly(x, c, sc, of))
            }
            T::Diff => {
                let who = if self.s.chance(1, 3) { Who::Simple } else { b };
                let (x, y) = (self.m(who), self.m(who));
                let (mut lo, mut hi) = (None, None);
                if self.s.bool() {
                    lo = Some(M::Lit(self.s.num(-6.0, 0.0, 0.5)));
                }
                if self.s.bool() {
                    hi = Some(M::Lit(self.s.num(0.0, 8.0, 0.5)));
                }
                if self.s.chance(1, 5) {
                    let m = self.m(who);
                    if self.s.bool() { lo = Some(m) } else { hi = Some(m) }
                }
                let mut all = vec![&x, &y];
                all.extend(lo.iter());
                all.extend(hi.iter());
                let cl = if self.all(&all, Cl::Simple) { Cl::Simple } else { g };
                self.push(K::Diff(x.clone(), y.clone(), lo.clone(), hi.clone()), Ty::F, cl, true, false)
            }
            T::Div => {
                let ph = self.phase();
                let who = Who::Phase(ph);
                let x = self.m(who);
                let y = if self.s.chance(3, 4) { M::Lit(self.s.num(0.25, 8.0, 0.25)) } else { self.m(who) };
                let (be, af) = by_phase(ph);
                self.push(K::Div(ph, x, y), Ty::F, g, be, af)
            }
            T::Agg => {
                let ph = self.phase();
                let who = if ph == Ph::Before && self.s.chance(1, 3) { Who::Simple } else { Who::Phase(ph) };
                let n = self.s.size(1, 4);
                let ms: Vec<M> = (0..n).map(|_| self.m(who)).collect();
                let f = self.af();
                let refs: Vec<&M> = ms.iter().collect();
                let cl = if ph != Ph::Before {
                    g
                } else if self.all(&refs, Cl::Const) {
                    Cl::Const
                } else if self.all(&refs, Cl::Simple) {
                    Cl::Simple
                } else {
                    g
                };
                let (be, af) = by_phase(ph);
                self.push(K::Agg(ph, f, ms), Ty::F, cl, be, af)
            }
            T::UAgg => {
                let ph = self.phase();
                let who = if ph == Ph::Before && self.s.chance(1, 3) { Who::Simple } else { Who::Phase(ph) };
                let n = self.s.size(1, 4);
                let ms: Vec<MU> = (0..n).map(|_| self.mu(who)).collect();
                let f = self.au();
                let refs: Vec<&MU> = ms.iter().collect();
                let cl = if ph != Ph::Before {
                    g
                } else if self.allu(&refs, Cl::Const) {
                    Cl::Const
                } else if self.allu(&refs, Cl::Simple) {
                    Cl::Simple
                } else {
                    g
                };
                let (be, af) = by_phase(ph);
                self.push(K::UAgg(ph, f, ms), Ty::U, cl, be, af)
            }
            T::Indexed => {
                let n = self.s.size(2, 4);
                let ms: Vec<M> = (0..n).map(|_| self.m(b)).collect();
                let ix = self.mix(b, n);
                f!(K::Indexed(ix, ms))
            }
            T::Interp => {
                let x = self.m(b);
                let n = self.s.size(2, 5);
                let mut at = self.s.num(-8.0, 2.0, 0.5);
                let eb = self.s.chance(1, 8);
                if eb {
                    at = -400.0;
                }
                let mut pts = Vec::new();
                for k in 0..n {
                    let y = if self.s.chance(3, 4) { M::Lit(self.lit()) } else { self.m(b) };
                    pts.push((at, y));
                    at += self.s.num(0.5, 6.0, 0.5);
                    if eb && k + 2 == n {
                        at = 4000.0;
                    }
                }
                f!(K::Interp(x, pts, eb))
            }
            T::Discount => {
                let x = if self.s.chance(3, 4) { M::Lit(self.s.num(0.0, 0.25, 0.015625)) } else { self.unit(b) };
                let y = self.net.start.year() - self.s.int(-3, 12) as i16;
                f!(K::Discount(x, y))
            }
            T::Hydro => {
                let o = |s: &mut Src, v: &[f64]| if s.bool() { Some(*s.pick(v)) } else { None };
                let elevation = o(self.s, &[1.0, 2.5]);
                let min_head = o(self.s, &[0.5, 2.0]);
                let efficiency = o(self.s, &[0.85, 0.5]);
                let density = o(self.s, &[1000.0, 998.0]);
                let flow_conv = o(self.s, &[0.011574, 1.0]);
                let energy_conv = o(self.s, &[1e-3, 1.0, 1e-6]);
                let we = if self.s.chance(3, 4) { Some(self.m(b)) } else { None };
                let pos = |g: &mut Self, who| if g.s.bool() { M::Lit(g.s.num(0.25, 40.0, 0.25)) } else { g.m(who) };
                let target = if self.s.chance(2, 3) { Some(pos(self, b)) } else { None };
                let actual = if target.is_none() || self.s.bool() { Some(pos(self, Who::Phase(Ph::After))) } else { None };
                let mx = if target.is_some() && self.s.bool() { Some(pos(self, b)) } else { None };
                let mn = if target.is_some() && self.s.chance(1, 3) { Some(M::Lit(self.s.num(0.0, 2.0, 0.25))) } else { None };
                let (be, af) = (target.is_some(), actual.is_some());
                let h = Hydro {
                    actual_flow: actual, target, elevation, min_head, max_flow: mx, min_flow: mn, efficiency,
                    water_elevation: we, density, flow_conv, energy_conv,
                };
                self.push(K::Hydro(Box::new(h)), Ty::F, g, be, af)
            }
            T::Apportion => {
                let x = self.m(b);
                let c = match self.s.us(3) {
                    0 => M::Lit(self.s.num(-0.5, 2.0, 0.125)),
                    1 => self.unit(b),
                    _ => {
                        let vals: Vec<f64> = (0..t).map(|_| self.s.num(-0.5, 2.0, 0.125)).collect();
                        let i = self.net.ps.len();
                        self.push(K::Array1(vals, None), Ty::F, Cl::Simple, true, false);
                        M::P(i, Ret::Before, None)
                    }
                };
                self.push(K::Apportion(x, c), Ty::Multi(APPORTION), g, true, false)
            }
            T::Muskingum => {
                let (i, o) = (M::N(Nm::InOut), M::N(Nm::OutIn));
                let (i, o) = if self.s.chance(1, 3) { (self.m(b), self.m(b)) } else { (i, o) };
                let k = if self.s.bool() { M::Lit(self.s.num(0.5, 4.0, 0.25)) } else { M::Lit(1.0) };
                let w = if self.s.bool() { M::Lit(self.s.num(0.0, 0.5, 0.0625)) } else { M::Lit(0.25) };
                let init = if self.s.bool() { Some((self.s.num(0.0, 8.0, 0.5), self.s.num(0.0, 8.0, 0.5))) } else { None };
                self.push(K::Muskingum(i, o, k, w, init), Ty::Multi(MUSKINGUM), g, true, false)
            }
            T::Py => {
                let class = self.s.bool();
                let ph = if class { self.phase() } else { Ph::Before };
                let who = Who::Phase(ph);
                let ty = *self.s.pick(&[Ty::F, Ty::F, Ty::U, Ty::Multi(PYTHON)]);
                let whole = ty == Ty::U;
                let n = if whole { 0 } else { self.s.us(4) };
                let ms = (0..n).map(|_| (self.m(who), self.s.num(-3.0, 3.0, 0.25))).collect();
                let n = self.s.us(3);
                let us = (0..n).map(|_| (self.mu(who), self.s.below(4))).collect();
                let mut w = [0.0; 15];
                for (k, x) in w.iter_mut().enumerate() {
                    if self.s.bool() {
                        *x = if !whole {
                            self.s.num(-4.0, 4.0, 0.25)
                        } else if k == 5 || k == 12 {
                            0.0
                        } else {
                            self.s.below(5) as f64
                        };
                    }
                }
                let count = if class && self.s.chance(2, 3) { self.s.below(4) as f64 } else { 0.0 };
                let raise = if self.s.chance(1, 25) { Some(self.s.us(t)) } else { None };
                let n = self.s.us(4);
                let args = (0..n).map(|_| self.json(2)).collect();
                let n = self.s.us(4);
                let kwargs = (0..n).map(|k| (format!("{}_{k}", ["key", "value", "a", "class"][k]), self.json(2))).collect();
                let (be, af) = by_phase(ph);
                self.push(K::Py(Box::new(Py { class, ph, ms, us, w, count, raise, args, kwargs })), ty, g, be, af)
            }
            T::Deficit => {
                let a = Who::Phase(Ph::After);
                let (x, y) = (self.m(a), self.m(a));
                self.push(K::Deficit(x, y), Ty::F, g, false, true)
            }
            T::Delay | T::UDelay => {
                let who = if self.s.chance(1, 3) { Who::Simple } else { Who::Phase(Ph::After) };
                let d = self.s.size(1, 4) as u64;
                if tag == T::Delay {
                    let m = self.m(who);
                    let cl = if self.all(&[&m], Cl::Simple) { Cl::Simple } else { g };
                    let i = self.lit();
                    self.push(K::Delay(m, d, i), Ty::F, cl, true, false)
                } else {
                    let m = self.mu(who);
                    let cl = if self.allu(&[&m], Cl::Simple) { Cl::Simple } else { g };
                    let i = self.s.below(5);
                    self.push(K::UDelay(m, d, i), Ty::U, cl, true, false)
                }
            }
            T::Rolling | T::URolling => {
                let who = if self.s.chance(1, 3) { Who::Simple } else { Who::Phase(Ph::After) };
                let w = self.s.size(1, 4);
                let mv = self.s.us(w + 1);
                if tag == T::Rolling {
                    let m = self.m(who);
                    let cl = if self.all(&[&m], Cl::Simple) { Cl::Simple } else { g };
                    let (i, f) = (self.lit(), self.af());
                    self.push(K::Rolling(m, w, i, mv, f), Ty::F, cl, true, false)
                } else {
                    let m = self.mu(who);
                    let cl = if self.allu(&[&m], Cl::Simple) { Cl::Simple } else { g };
                    let (i, f) = (self.s.below(5), self.au());
                    self.push(K::URolling(m, w, i, mv, f), Ty::U, cl, true, false)
                }
            }
            T::CcInterp => {
                let (x, cc) = self.curves(b);
                let vs = (0..cc.len() + 2).map(|_| self.m(b)).collect();
                f!(K::CcInterp(x, cc, vs))
            }
            T::CcPiece => {
                let (x, cc) = self.curves(b);
                let vs = (0..cc.len() + 1).map(|_| [self.lit(), self.lit()]).collect();
                let max = *self.s.pick(&[1.0, 1.0, 0.75, 2.0, 5.0, 10.0]);
                let min = *self.s.pick(&[0.0, 0.0, 0.25, -1.0, -3.0]);
                f!(K::CcPiece(x, cc, vs, max, min))
            }
            T::Cc => {
                let (x, cc) = self.curves(b);
                let vs = (0..cc.len() + 1).map(|_| self.m(b)).collect();
                f!(K::Cc(x, cc, vs))
            }
            T::CcIndex => {
                let (x, cc) = self.curves(b);
                u!(K::CcIndex(x, cc))
            }
            T::VolBetween => {
                let tot = self.m(Who::Simple);
                let lo = if self.s.bool() { Some(self.unit(b)) } else { None };
                let hi = if self.s.bool() { Some(M::Lit(self.s.num(0.0, 1.0, 0.125))) } else { None };
                self.push(K::VolBetween(tot, lo, hi), Ty::F, Cl::Simple, true, false)
            }
            T::Thresh => {
                let (x, th) = (self.m(b), self.m(b));
                let (p, r) = (self.pr(), self.s.bool());
                u!(K::Thresh(x, th, p, r))
            }
            T::MultiThresh => {
                let x = self.m(b);
                let n = self.s.size(1, 3);
                let ths = (0..n).map(|_| self.m(b)).collect();
                let (p, r) = (self.pr(), self.s.bool());
                u!(K::MultiThresh(x, ths, p, r))
            }
            T::Asym => {
                let (x, y) = (self.mu(b), self.mu(b));
                u!(K::Asym(x, y))
            }
            T::Daily => {
                let k = K::Daily((0..366).map(|d| d as f64 * 0.25 + self.lit()).collect());
                self.push(k, Ty::F, Cl::Simple, true, false)
            }
            T::Diurnal => {
                let k = K::Diurnal((0..24).map(|_| self.lit()).collect());
                self.push(k, Ty::F, Cl::Simple, true, false)
            }
            T::Monthly => {
                let ip = *self.s.pick(&[Interp::No, Interp::First, Interp::Last]);
                let k = K::Monthly((0..12).map(|_| self.lit()).collect(), ip);
                self.push(k, Ty::F, Cl::Simple, true, false)
            }
            T::Weekly => {
                let ip = *self.s.pick(&[Interp::No, Interp::First, Interp::Last]);
                let n = 52 + self.s.us(2);
                let k = K::Weekly((0..n).map(|_| self.lit()).collect(), ip);
                self.push(k, Ty::F, Cl::Simple, true, false)
            }
            T::Drawdown => {
                let mo = self.s.int(1, 12) as i8;
                let d = self.s.int(1, 28) as i8;
                let r = if self.s.bool() { Some(self.s.below(100) as u8) } else { None };
                self.push(K::Drawdown(d, mo, r), Ty::F, Cl::Simple, true, false)
            }
            T::Rbf => {
                let n = self.s.size(1, 6);
                let mut at = self.s.below(40) as u32;
                let mut pts = Vec::new();
                for _ in 0..n {
                    pts.push((at, self.lit()));
                    at += 20 + self.s.below(40) as u32;
                }
                let f = *self.s.pick(&[Rb::Linear, Rb::Cubic, Rb::Quintic, Rb::Thin, Rb::Gauss(0.0), Rb::Mq(0.0), Rb::Imq(0.0)]);
                let e = self.s.num(0.01, 0.05, 0.005);
                let f = match f {
                    Rb::Gauss(_) => Rb::Gauss(e),
                    Rb::Mq(_) => Rb::Mq(e),
                    Rb::Imq(_) => Rb::Imq(e),
                    f => f,
                };
                self.push(K::Rbf(pts, f), Ty::F, Cl::Simple, true, false)
            }
        }
    }
}

pub const APPORTION: &[&str] = &["upper", "lower"];
pub const MUSKINGUM: &[&str] = &["inflow_factor", "rhs"];

/// `main` are the kinds under test; `extra` supplies their inputs and consumers.
pub fn gen_pnet(s: &mut Src, main: &[T], extra: &[T], tmax: usize) -> PNet {
    let t = s.size(1, tmax);
    let sizes = [s.size(1, 3), s.size(1, 2)];
    let date = gen_date(s);
    let step_hours = *s.pick(&[24, 24, 24, 6, 168, 1]);
    let hour = if s.chance(1, 4) { s.int(0, 23) as i8 } else { 0 };
    let start = date.at(hour, 0, 0, 0);
    let inflow = (0..t).map(|_| (0..sizes[0]).map(|_| s.num(0.0, 10.0, 0.5)).collect()).collect();
    let demand = (0..t).map(|_| (0..sizes[0]).map(|_| s.num(0.0, 8.0, 0.5)).collect()).collect();
    let vmax = [*s.pick(&[20.0, 8.0, 10.0]), *s.pick(&[10.0, 16.0])];
    let vinit = [vmax[0] * s.num(0.0, 1.0, 0.125), vmax[1] * s.num(0.0, 1.0, 0.125)];
    let net = PNet { start, step_hours, t, sizes, ps: vec![], order: vec![], inflow, demand, vmax, vinit };
    let mut g = Gen { s, net };
    let n = g.s.size(1, 10);
    for k in 0..n {
        let use_main = k + 1 == n || g.s.chance(3, 5);
        let tag = if use_main { *g.s.pick(main) } else { *g.s.pick(extra) };
        g.add(tag);
    }
    let mut net = g.net;
    let mut order: Vec<usize> = (0..net.ps.len()).collect();
    if s.bool() {
        s.shuffle(&mut order);
    }
    net.order = order;
    net
}

// ---------------------------------------------------------------- comparison

pub struct Seen {
    pub rows: Vec<Vec<Vec<f64>>>,
    pub err: Option<String>,
}

pub fn kind(k: &K) -> String {
    let d = format!("{k:?}");
    d.split(['(', ' ']).next().unwrap_or("").to_string()
}

pub fn run_pnet(net: &PNet) -> Result<(Seen, Vec<(usize, bool, Option<&'static str>)>), Fail> {
    match guarded(|| -> Result<_, String> {
        let (model, data, cols) = net.build()?;
        let r = run_model(&model, Sol::Highs);
        Ok((Seen { rows: data.table(), err: r.err() }, cols))
    }) {
        Err(p) => {
            let kinds: Vec<String> = net.ps.iter().map(|p| kind(&p.k)).collect();
            fail("panic", format!("panic: {p}\nkinds {kinds:?}\n{}", net.show()))
        }
        Ok(Err(e)) => fail("build-error", format!("a valid network was rejected: {e}\n{}", net.show())),
        Ok(Ok(x)) => Ok(x),
    }
}

/// Compare every parameter value of a run with the prediction.
pub fn verify_pnet(net: &PNet, info: &mut Info) -> Result<(), Fail> {
    let (seen, cols) = run_pnet(net)?;
    compare_pnet(net, &seen, &cols, info)
}

/// The parameters of a network are the same when all scenarios are stepped together, on any number of threads.
pub fn c26_values(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    use pywr_core::solvers::{SimdIpmF64Solver, SimdIpmSolverSettingsBuilder};
    let net = gen_pnet(s, &all_kinds(), &all_kinds(), 8);
    let mut b = SimdIpmSolverSettingsBuilder::default().ignore_feature_requirements();
    let threads = s.bool().then(|| s.size(1, 4));
    if let Some(n) = threads {
        b = b.parallel().threads(n);
    }
    let built = match guarded(|| net.build()) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return fail("build-error", format!("a valid network was rejected: {e}\n{}", net.show())),
        Err(p) => return fail("panic", format!("{p}\n{}", net.show())),
    };
    let (model, data, cols) = built;
    let err = match guarded(|| model.run_multi_scenario::<SimdIpmF64Solver>(&b.build()).map(|_| ())) {
        Ok(r) => r.err().map(|e| crate::alloc::full(&e)),
        Err(p) => Some(format!("panic: {p}")),
    };
    let rows = data.table();
    if err.as_deref().is_some_and(crate::alloc::unsolved) {
        // The system could not be solved, which is decided elsewhere.
        info.label("stopped");
        let mut part = net.clone();
        part.t = rows.len();
        return compare_pnet(&part, &Seen { rows, err: None }, &cols, info);
    }
    if threads.is_some() {
        info.label("threads");
    }
    if net.scen() > 4 {
        info.label("several-batches");
    }
    let r = compare_pnet(&net, &Seen { rows, err }, &cols, info);
    info.desc(format!("threads {threads:?}"));
    r
}

/// The values of the columns (a parameter, whether after the solve, and a key) against the prediction.
pub fn compare_pnet(net: &PNet, seen: &Seen, cols: &[(usize, bool, Option<&'static str>)], info: &mut Info) -> Result<(), Fail> {
    let rows = &seen.rows;
    let mut compared = 0u64;
    let mut unknown = 0u64;
    let mut excuse = false;
    let mut must: Option<String> = None;
    let kinds: std::collections::BTreeSet<String> = net.ps.iter().map(|p| kind(&p.k)).collect();
    for k in kinds {
        info.label(leak(&k));
    }
    'sim: for sim in 0..net.scen() {
        let mut ev = Eval::new(net, sim);
        for t in 0..net.t {
            match ev.before(t) {
                Ok(()) => {}
                Err(E::Maybe) => {
                    excuse = true;
                    continue 'sim;
                }
                Err(E::Must) => {
                    if rows.len() > t {
                        must = Some(format!("scenario {sim} step {t}: no valid value exists, but the step completed"));
                    }
                    excuse = true;
                    continue 'sim;
                }
            }
            let Some(row) = rows.get(t) else {
                if net.ps.iter().any(|p| p.after && matches!(p.k, K::Div(..) | K::UAgg(..) | K::Hydro(..) | K::Py(..))) {
                    excuse = true;
                }
                continue 'sim;
            };
            let row = &row[sim];
            match ev.after(&row[..NMS.len()]) {
                Ok(()) => {}
                Err(E::Maybe) => {
                    excuse = true;
                    continue 'sim;
                }
                Err(E::Must) => {
                    must = Some(format!("scenario {sim} step {t}: no valid value exists, but the step completed"));
                    excuse = true;
                    continue 'sim;
                }
            }
            for (c, (i, after, key)) in cols.iter().enumerate() {
                let kx = key.map(|k| keys(net.ps[*i].ty).iter().position(|x| *x == k).unwrap()).unwrap_or(0);
                let v = if *after { ev.va[*i][kx] } else { ev.vb[*i][kx] };
                if !v.known || !v.v.is_finite() || v.mag > 1e13 {
                    // What follows from it (an overflow, say) cannot be told either.
                    excuse = true;
                    unknown += 1;
                    continue;
                }
                let got = row[NMS.len() + c];
                let tol = 1e-9 * v.mag.max(1.0);
                compared += 1;
                if !((got - v.v).abs() <= tol) {
                    return fail(
                        &format!("value-{}", kind(&net.ps[*i].k)),
                        format!(
                            "{} ({:?}{}) in scenario {sim} step {t} ({}), {} phase: got {got}, expected {}\n{}",
                            net.ps[*i].name,
                            kind(&net.ps[*i].k),
                            key.map(|k| format!(" key {k}")).unwrap_or_default(),
                            net.date(t),
                            if *after { "after" } else { "before" },
                            v.v,
                            net.show()
                        ),
                    );
                }
            }
        }
    }
    if let Some(m) = must {
        return fail("missing-error", format!("{m}\n{}", net.show()));
    }
    if let Some(e) = &seen.err {
        check!(
            !e.starts_with("panic") || (excuse && e.contains("overflow")),
            "panic",
            "the run panicked at step {}: {e}\n{}",
            rows.len(),
            net.show()
        );
        if !excuse {
            return fail("unexpected-error", format!("the run stopped at step {}: {e}\n{}", rows.len(), net.show()));
        }
        info.label("run-error");
    } else {
        check!(rows.len() == net.t, "row-count", "{} of {} rows", rows.len(), net.t);
    }
    info.count("compared", compared);
    info.count("unknown", unknown);
    info.nontrivial = compared >= 4 && net.ps.iter().any(|p| p.cl != Cl::Const);
    info.desc(net.show());
    Ok(())
}

pub fn leak(s: &str) -> &'static str {
    use std::sync::Mutex;
    static M: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
    let mut m = M.lock().unwrap();
    if let Some(x) = m.iter().find(|x| **x == s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.push(l);
    l
}

fn functions(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let extra: Vec<T> = BASE.iter().chain(&[T::Monthly, T::Thresh, T::MultiThresh, T::Const]).copied().collect();
    let net = gen_pnet(s, FUNCS, &extra, 6);
    verify_pnet(&net, info)
}

fn stateful(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let extra: Vec<T> = BASE.iter().chain(&[T::UArray2, T::UAgg, T::Thresh, T::Div]).copied().collect();
    let net = gen_pnet(s, STATEFUL, &extra, 10);
    verify_pnet(&net, info)
}

fn curves(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let net = gen_pnet(s, CURVES, BASE, 8);
    verify_pnet(&net, info)
}

fn calendar(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let mut net = gen_pnet(s, CALENDAR, &[T::Const], 2);
    net.ps.retain(|p| !matches!(p.k, K::Const(_)));
    for (i, p) in net.ps.iter_mut().enumerate() {
        p.name = format!("p{i}");
    }
    net.order = (0..net.ps.len()).collect();
    // Spread the steps over a long period.
    net.step_hours = *s.pick(&[24, 24, 1, 6, 7, 24 * 7, 24 * 29, 5, 12]);
    net.t = if net.step_hours < 24 { s.size(24, 120) } else { s.size(100, 500) };
    net.sizes = [1, 1];
    let r = |v: &mut Vec<Vec<f64>>, t: usize| {
        v.truncate(1);
        v[0].truncate(1);
        let x = v[0].clone();
        v.resize(t, x);
    };
    r(&mut net.inflow, net.t);
    r(&mut net.demand, net.t);
    verify_pnet(&net, info)
}

/// Visit every f64 input of a parameter.
pub fn each_m(k: &mut K, f: &mut dyn FnMut(&mut M)) {
    match k {
        K::Neg(m) | K::Max(m, _) | K::Min(m, _) | K::NegMax(m, _) | K::NegMin(m, _) | K::Offset(m, _) | K::Poly(m, ..)
        | K::Discount(m, _) | K::Delay(m, ..) | K::Rolling(m, ..) => f(m),
        K::Div(_, a, b) | K::Deficit(a, b) | K::Apportion(a, b) | K::Thresh(a, b, ..) => {
            f(a);
            f(b);
        }
        K::Diff(a, b, lo, hi) => {
            f(a);
            f(b);
            lo.iter_mut().for_each(&mut *f);
            hi.iter_mut().for_each(&mut *f);
        }
        K::VolBetween(a, lo, hi) => {
            f(a);
            lo.iter_mut().for_each(&mut *f);
            hi.iter_mut().for_each(&mut *f);
        }
        K::Agg(_, _, ms) | K::Indexed(_, ms) => ms.iter_mut().for_each(f),
        K::Interp(x, pts, _) => {
            f(x);
            pts.iter_mut().for_each(|p| f(&mut p.1));
        }
        K::CcInterp(x, cc, vs) | K::Cc(x, cc, vs) => {
            f(x);
            cc.iter_mut().for_each(&mut *f);
            vs.iter_mut().for_each(f);
        }
        K::CcPiece(x, cc, ..) | K::CcIndex(x, cc) | K::MultiThresh(x, cc, ..) => {
            f(x);
            cc.iter_mut().for_each(f);
        }
        K::Muskingum(a, b, c, d, _) => [a, b, c, d].into_iter().for_each(f),
        K::Py(y) => y.ms.iter_mut().for_each(|m| f(&mut m.0)),
        K::Hydro(h) => [&mut h.actual_flow, &mut h.target, &mut h.max_flow, &mut h.min_flow, &mut h.water_elevation]
            .into_iter()
            .flatten()
            .for_each(f),
        _ => {}
    }
}

pub fn each_mu(k: &mut K, f: &mut dyn FnMut(&mut MU)) {
    match k {
        K::Indexed(m, _) | K::UDelay(m, ..) | K::URolling(m, ..) => f(m),
        K::UAgg(_, _, ms) => ms.iter_mut().for_each(f),
        K::Py(y) => y.us.iter_mut().for_each(|m| f(&mut m.0)),
        K::Asym(a, b) => {
            f(a);
            f(b);
        }
        _ => {}
    }
}

fn same_tables(a: &Seen, b: &Seen, ca: &[(usize, bool, Option<&'static str>)], cb: &[(usize, bool, Option<&'static str>)], shift: usize, net: &PNet, what: &str) -> Result<u64, Fail> {
    check!(
        a.err.is_some() == b.err.is_some() && a.rows.len() == b.rows.len(),
        "differs-outcome",
        "{what}: {:?} after {} steps against {:?} after {} steps\n{}",
        a.err,
        a.rows.len(),
        b.err,
        b.rows.len(),
        net.show()
    );
    let mut n = 0;
    for (t, (ra, rb)) in a.rows.iter().zip(&b.rows).enumerate() {
        for (sim, (xa, xb)) in ra.iter().zip(rb).enumerate() {
            for (c, (i, after, key)) in ca.iter().enumerate() {
                let Some(d) = cb.iter().position(|x| *x == (*i + shift, *after, *key)) else { continue };
                let (x, y) = (xa[NMS.len() + c], xb[NMS.len() + d]);
                n += 1;
                if !(x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= 1e-9 * x.abs().max(y.abs()).max(1e-3)) {
                    return fail(
                        &format!("differs-{}", kind(&net.ps[*i].k)),
                        format!("{what}: {} {key:?} after={after} step {t} scenario {sim}: {x} against {y}\n{}", net.ps[*i].name, net.show()),
                    );
                }
            }
        }
    }
    Ok(n)
}

pub fn all_kinds() -> Vec<T> {
    FUNCS.iter().chain(STATEFUL).chain(CURVES).chain(CALENDAR).copied().collect()
}

/// The same parameters added in another order give the same values.
fn order(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let mut net = gen_pnet(s, &all_kinds(), BASE, 6);
    net.order = (0..net.ps.len()).collect();
    let (a, ca) = run_pnet(&net)?;
    net.order.reverse();
    let (b, cb) = run_pnet(&net)?;
    let n = same_tables(&a, &b, &ca, &cb, 0, &net, "forward against reverse order")?;
    s.shuffle(&mut net.order);
    let (c, cc) = run_pnet(&net)?;
    same_tables(&a, &c, &ca, &cc, 0, &net, "forward against shuffled order")?;
    info.nontrivial = n >= 4 && net.ps.len() > 1;
    info.count("compared", n);
    info.desc(net.show());
    Ok(())
}

/// A fixed number may be given directly, or through a constant, a scenario constant, an array, or a computed parameter.
fn reexpress(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let net = gen_pnet(s, &all_kinds(), BASE, 6);
    let (a, ca) = run_pnet(&net)?;
    let simple_only = net.ps.iter().any(|p| matches!(p.k, K::VolBetween(..)));
    // Collect literals.
    let mut lits: Vec<f64> = Vec::new();
    let mut ulits: Vec<u64> = Vec::new();
    let mut other = net.clone();
    for p in &mut other.ps {
        each_m(&mut p.k, &mut |m| {
            if let M::Lit(v) = m {
                lits.push(*v);
            }
        });
        each_mu(&mut p.k, &mut |m| {
            if let MU::Lit(v) = m {
                ulits.push(*v);
            }
        });
    }
    let (nl, nu) = (lits.len(), ulits.len());
    let mut fresh: Vec<P> = Vec::new();
    let mk = |name: String, k: K, ty: Ty, cl: Cl| P { name, k, ty, cl, before: true, after: false };
    let mut use_l = Vec::new();
    for (j, v) in lits.iter().enumerate() {
        let c = s.us(if simple_only { 5 } else { 7 });
        use_l.push(if c == 0 { None } else { Some(fresh.len()) });
        let n = format!("x{j}");
        fresh.push(match c {
            0 | 1 => mk(n, K::Const(*v), Ty::F, Cl::Const),
            2 => mk(n, K::ConstScen(vec![*v; net.sizes[1]], 1), Ty::F, Cl::Const),
            3 => mk(n, K::Array1(vec![*v; net.t], None), Ty::F, Cl::Simple),
            4 => mk(n, K::Agg(Ph::Before, Af::Max, vec![M::Lit(*v)]), Ty::F, Cl::Const),
            5 => mk(n, K::Max(M::Lit(*v), -1e6), Ty::F, Cl::General),
            _ => mk(n, K::Agg(Ph::Both, Af::Min, vec![M::Lit(*v)]), Ty::F, Cl::General),
        });
        if c == 6 {
            fresh.last_mut().unwrap().after = true;
        }
    }
    let mut use_u = Vec::new();
    for (j, v) in ulits.iter().enumerate() {
        let c = s.us(4);
        use_u.push(if c == 0 { None } else { Some(fresh.len()) });
        let n = format!("y{j}");
        fresh.push(match c {
            0 | 1 => mk(n, K::UArray1(vec![*v; net.t], None), Ty::U, Cl::Simple),
            2 => mk(n, K::UArray2(vec![vec![*v; net.sizes[0]]; net.t], 0, None), Ty::U, Cl::Simple),
            _ => mk(n, K::UAgg(Ph::Before, Au::Sum, vec![MU::Lit(*v)]), Ty::U, Cl::Const),
        });
    }
    let shift = fresh.len();
    let (mut j, mut ju) = (0, 0);
    for p in &mut other.ps {
        each_m(&mut p.k, &mut |m| match m {
            M::Lit(_) => {
                if let Some(k) = use_l[j] {
                    *m = M::P(k, Ret::Before, None);
                }
                j += 1;
            }
            M::P(i, ..) => *i += shift,
            M::N(_) => {}
        });
        each_mu(&mut p.k, &mut |m| match m {
            MU::Lit(_) => {
                if let Some(k) = use_u[ju] {
                    *m = MU::P(k, Ret::Before, None);
                }
                ju += 1;
            }
            MU::P(i, ..) => *i += shift,
        });
    }
    fresh.extend(other.ps);
    other.ps = fresh;
    other.order = (0..other.ps.len()).collect();
    if s.bool() {
        s.shuffle(&mut other.order);
    }
    let (b, cb) = run_pnet(&other)?;
    let n = same_tables(&a, &b, &ca, &cb, shift, &net, "numbers against parameters").map_err(|f| Fail { sig: f.sig, msg: format!("{}\n--- re-expressed\n{}", f.msg, other.show()) })?;
    info.nontrivial = n >= 4 && use_l.iter().flatten().count() + use_u.iter().flatten().count() > 0;
    info.count("compared", n);
    info.count("literals-replaced", (nl + nu) as u64);
    info.desc(other.show());
    Ok(())
}

/// Adds a copy of a parameter that is calculated at the start of the timestep, of any kind, in which one of its inputs
/// is the given value of parameter `a`.
fn early_copy(s: &mut Src, net: &mut PNet, a: usize, value: &M) -> bool {
    let whole = net.ps[a].ty == Ty::U;
    let slots = |p: &P| {
        let (mut k, mut n) = (p.k.clone(), (0, 0));
        each_m(&mut k, &mut |_| n.0 += 1);
        if whole {
            each_mu(&mut k, &mut |_| n.1 += 1);
        }
        n
    };
    let ok: Vec<usize> = (0..net.ps.len())
        .filter(|i| {
            let p = &net.ps[*i];
            // (These kinds use values of the end of the timestep.)
            let late = matches!(p.k, K::Delay(..) | K::UDelay(..) | K::Rolling(..) | K::URolling(..) | K::Hydro(..) | K::Deficit(..));
            p.before && !p.after && !late && *i != a && slots(p) != (0, 0)
        })
        .collect();
    if ok.is_empty() {
        return false;
    }
    let mut p = net.ps[*s.pick(&ok)].clone();
    let (n, nu) = slots(&p);
    let at = s.us(n + nu);
    let (mut j, mut ju) = (0, n);
    each_m(&mut p.k, &mut |m| {
        if j == at {
            *m = value.clone();
        }
        j += 1;
    });
    each_mu(&mut p.k, &mut |m| {
        if ju == at {
            if let M::P(i, r, _) = value {
                *m = MU::P(*i, *r, None);
            }
        }
        ju += 1;
    });
    p.name = "early".into();
    p.cl = Cl::General;
    net.ps.push(p);
    true
}

/// Adds a parameter that uses the given value of parameter `a` in one of the phases.
fn user(s: &mut Src, net: &mut PNet, a: usize, r: Ret, phases: &[Ph]) {
    let ph = *s.pick(phases);
    let (before, after) = (ph != Ph::After, ph != Ph::Before);
    let key = match net.ps[a].ty {
        Ty::Multi(k) => Some(*s.pick(k)),
        _ => None,
    };
    let lit = M::Lit(1.0);
    let m = M::P(a, r, key);
    if before && phases.contains(&Ph::Before) && s.bool() && early_copy(s, net, a, &m) {
        return;
    }
    let (k, ty) = match s.us(4) {
        0 if net.ps[a].ty == Ty::U => (K::UAgg(ph, Au::Sum, vec![MU::Lit(1), MU::P(a, r, None)]), Ty::U),
        1 => (K::Div(ph, m, lit), Ty::F),
        2 => (K::Div(ph, lit, m), Ty::F),
        3 if ph == Ph::Before => (K::Max(m, 0.0), Ty::F),
        _ => (K::Agg(ph, Af::Sum, vec![lit, m]), Ty::F),
    };
    net.ps.push(P { name: "early".into(), k, ty, cl: Cl::General, before, after });
}

/// Faulty definitions are rejected with an error.
fn invalid(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let mut net = gen_pnet(s, &all_kinds(), BASE, 3);
    let n = net.ps.len();
    let fault = s.us(7);
    let mut i = s.us(n);
    let what;
    match fault {
        0 => {
            // Same name twice, possibly of another type.
            let name = net.ps[i].name.clone();
            let k = match s.us(3) {
                0 => (K::Const(1.0), Ty::F),
                1 => (K::UArray1(vec![1; net.t], None), Ty::U),
                _ => (K::Apportion(M::Lit(1.0), M::Lit(0.5)), Ty::Multi(APPORTION)),
            };
            net.ps.push(P { name, k: k.0, ty: k.1, cl: Cl::Const, before: true, after: false });
            what = "duplicate-name";
        }
        1 => {
            // A loop of one to three parameters.
            let len = s.size(1, 3);
            let base = net.ps.len();
            for j in 0..len {
                net.ps.push(P {
                    name: format!("loop{j}"),
                    k: K::Max(M::P(base + (j + 1) % len, Ret::Before, None), 1.0),
                    ty: Ty::F,
                    cl: Cl::General,
                    before: true,
                    after: false,
                });
            }
            i = base;
            what = "cycle";
        }
        2 => {
            // A reference to a parameter that does not exist: added as a parameter but never built.
            let base = net.ps.len();
            net.ps.push(P { name: "ghost".into(), k: K::Const(1.0), ty: Ty::F, cl: Cl::Const, before: true, after: false });
            net.ps.push(P { name: "user".into(), k: K::Neg(M::P(base, Ret::Before, None)), ty: Ty::F, cl: Cl::General, before: true, after: false });
            i = base;
            what = "missing";
        }
        3 => {
            // A value of this timestep's end used before it: by a parameter calculated before, or in both phases.
            let ok: Vec<usize> = (0..n).filter(|i| net.ps[*i].after).collect();
            if ok.is_empty() {
                return Ok(());
            }
            let a = *s.pick(&ok);
            user(s, &mut net, a, Ret::After, &[Ph::Before, Ph::Both]);
            what = "after-in-before";
        }
        4 => {
            // A start-of-timestep value of a parameter that has none.
            let ok: Vec<usize> = (0..n).filter(|i| !net.ps[*i].before).collect();
            if ok.is_empty() {
                return Ok(());
            }
            let a = *s.pick(&ok);
            user(s, &mut net, a, Ret::Before, &[Ph::Before, Ph::After, Ph::Both]);
            what = "no-before";
        }
        5 => {
            // An end-of-timestep value of a parameter that has none. (The value of a simple parameter is the same at
            // both ends; nothing is promised about asking for the one at the end.)
            let ok: Vec<usize> = (0..n).filter(|i| !net.ps[*i].after && net.ps[*i].cl == Cl::General).collect();
            if ok.is_empty() {
                return Ok(());
            }
            let a = *s.pick(&ok);
            let r = *s.pick(&[Ret::After, Ret::AfterElse]);
            let ph: &[Ph] = if r == Ret::After { &[Ph::After] } else { &[Ph::Before, Ph::After, Ph::Both] };
            user(s, &mut net, a, r, ph);
            what = "no-after";
        }
        _ => {
            // A number used where a whole number (an index) is needed.
            let ok: Vec<usize> = (0..n).filter(|i| net.ps[*i].ty == Ty::F && net.ps[*i].before).collect();
            if ok.is_empty() {
                return Ok(());
            }
            i = *s.pick(&ok);
            net.ps.push(P { name: "early".into(), k: K::UAgg(Ph::Before, Au::Sum, vec![MU::P(i, Ret::Before, None)]), ty: Ty::U, cl: Cl::General, before: true, after: false });
            what = "number-for-index";
        }
    }
    net.order = (0..net.ps.len()).filter(|j| !(fault == 2 && *j == i)).collect();
    s.shuffle(&mut net.order);
    let r = guarded(|| {
        let mut nb = NetworkBuilder::default();
        net.water(&mut nb);
        for i in &net.order {
            net.add_param(&mut nb, *i);
        }
        let d = domain(net.start, net.step_hours, net.t, net.sizes);
        ModelBuilder::new(d, nb).build().map(|_| ()).map_err(|e| crate::alloc::full(&e))
    });
    info.label(what);
    info.nontrivial = true;
    info.desc(net.show());
    let want = match fault {
        2 => "ghost",
        1 => "loop0",
        0 | 6 => net.ps[i].name.as_str(),
        _ => "early",
    };
    match r {
        Err(p) => fail("panic", format!("{what}: panic {p}\n{}", net.show())),
        Ok(Ok(())) => fail(&format!("accepted-{what}"), format!("{what}: the network was accepted\n{}", net.show())),
        Ok(Err(e)) => {
            check!(e.contains(want), "unnamed-culprit", "{what}: the error does not name {want}: {e}\n{}", net.show());
            Ok(())
        }
    }
}

/// A parameter reading a node's limit sees the limit of this timestep, wherever that limit comes from.
fn node_limit(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let t = s.size(2, 5);
    let start = gen_date(s).at(0, 0, 0, 0);
    let vals: Vec<f64> = (0..t).map(|_| s.num(0.0, 20.0, 0.5)).collect();
    let general = s.bool();
    // (A maximum volume has to be known without general parameters.)
    let volume = !general && s.bool();
    let consumer_first = s.bool();
    let shown = format!("values {vals:?} general={general} volume={volume} consumer_first={consumer_first}");
    let r = guarded(|| -> Result<_, String> {
        let mut nb = NetworkBuilder::default();
        nb.parameters().f64(Box::new(Array1ParameterBuilder::new("base".into(), Array1::from(vals.clone()))));
        let metric = if volume { UnresolvedMetricF64::NodeMaxVolume(nref("n")) } else { UnresolvedMetricF64::NodeMaxFlow(nref("n")) };
        let mut add = |k: usize| {
            if k == 0 {
                nb.parameters().f64(Box::new(MaxParameterBuilder::new("limit".into(), UnresolvedMetricF64::new_parameter_before("base"), -1e6)));
            } else {
                nb.parameters().f64(Box::new(MaxParameterBuilder::new("reader".into(), metric.clone(), -1e6)));
            }
        };
        if consumer_first {
            add(1);
            add(0);
        } else {
            add(0);
            add(1);
        }
        let lim = UnresolvedMetricF64::new_parameter_before(if general { "limit" } else { "base" });
        let mut i = NodeBuilder::input(nref("i"));
        i.max_flow(1.0.into());
        nb.node(i);
        if volume {
            let mut n = NodeBuilder::storage(nref("n"));
            n.max_volume(lim).initial_volume(UnresolvedStorageInitialVolume::absolute(0.0));
            nb.node(n);
        } else {
            let mut n = NodeBuilder::link(nref("n"));
            n.max_flow(lim);
            nb.node(n);
        }
        nb.node(NodeBuilder::output(nref("o")));
        nb.connect("i", "n");
        nb.connect("n", "o");
        let (probe, data) = Probe::new("probe", vec![UnresolvedMetricF64::new_parameter_before("reader")], vec![]);
        nb.recorder(Box::new(probe));
        let model = ModelBuilder::new(domain(start, 24, t, [1, 1]), nb).build().map_err(|e| crate::alloc::full(&e))?;
        run_model(&model, Sol::Highs)?;
        Ok(data.table())
    });
    info.nontrivial = vals.windows(2).any(|w| w[0] != w[1]);
    info.desc(&shown);
    match r {
        Err(p) => fail("panic", format!("panic {p}; {shown}")),
        Ok(Err(e)) => fail("run-error", format!("{e}; {shown}")),
        Ok(Ok(rows)) => {
            for k in 0..t {
                let x = rows[k][0][0];
                let last = if k == 0 { 0.0 } else { vals[k - 1] };
                let sig = if general && consumer_first && x == last { "stale-general-limit-read-through-node" } else { "node-limit-wrong" };
                check!((x - vals[k]).abs() < 1e-9, sig, "step {k}: the limit is {}, the parameter reading it got {x}; {shown}", vals[k]);
            }
            Ok(())
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            rule: "at least four parameter values compared with the prediction, not all of them constants",
            arms: vec![Arm { name: "functions", quick: 24000, thorough: 1500000, run: functions }],
        },
        Prop {
            id: "C09",
            rule: "values compared between two forms of one network with at least one difference between them, or a network with one definite fault",
            arms: vec![
                Arm { name: "order", quick: 6000, thorough: 200000, run: order },
                Arm { name: "reexpress", quick: 6000, thorough: 200000, run: reexpress },
                Arm { name: "invalid", quick: 6000, thorough: 100000, run: invalid },
                Arm { name: "node-limit", quick: 400, thorough: 4000, run: node_limit },
            ],
        },
        Prop {
            id: "C10",
            rule: "at least four parameter values compared with the prediction, not all of them constants",
            arms: vec![Arm { name: "stateful", quick: 24000, thorough: 1500000, run: stateful }],
        },
        Prop {
            id: "C11",
            rule: "at least four parameter values compared with the prediction, not all of them constants",
            arms: vec![Arm { name: "curves", quick: 24000, thorough: 1500000, run: curves }],
        },
        Prop {
            id: "C12",
            rule: "at least four parameter values compared with the prediction, not all of them constants",
            arms: vec![Arm { name: "calendar", quick: 8000, thorough: 400000, run: calendar }],
        },
    ]
}
