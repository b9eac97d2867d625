//! C13 outputs report the simulated state, C14 aggregation of outputs over time.

use crate::alloc::full;
use crate::check;
use crate::domains::{Cal, DAY, at, from_nanos, gen_cal, nanos};
use crate::runner::{Arm, Fail, Info, Prop, fail, guarded, scratch_dir};
use crate::src::Src;
use jiff::civil::DateTime;
use ndarray::Array2;
use pywr_core::NodeBuilder;
use pywr_core::agg_funcs::AggFuncF64;
use pywr_core::metric::{UnresolvedMetricF64, UnresolvedMetricU64};
use pywr_core::models::{Model, ModelBuilder, ModelDomain, ModelDomainBuilder, ModelResult};
use pywr_core::network::NetworkBuilder;
use pywr_core::node::UnresolvedNode;
use pywr_core::parameters::Array2ParameterBuilder;
use pywr_core::recorders::*;
use pywr_core::scenario::{ScenarioDomainBuilder, ScenarioGroupBuilder, ScenarioLabelOrIndex};
use pywr_core::solvers::HighsSolver;
use pywr_core::timestep::{PywrDuration, TimeDomainBuilder};
use std::num::{NonZeroI64, NonZeroU32};
use std::path::Path;

// ---------------------------------------------------------------- functions and frequencies

#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    Sum,
    Mean,
    Product,
    Min,
    Max,
    NonZero,
    Above2,
    Any(f64),
}

fn gen_f(s: &mut Src) -> F {
    match s.below(8) {
        0 => F::Sum,
        1 => F::Mean,
        2 => F::Product,
        3 => F::Min,
        4 => F::Max,
        5 => F::NonZero,
        6 => F::Above2,
        _ => F::Any(*s.pick(&[0.0, 0.5, 1e-6])),
    }
}

impl F {
    fn core(self) -> AggFuncF64 {
        match self {
            F::Sum => AggFuncF64::Sum,
            F::Mean => AggFuncF64::Mean,
            F::Product => AggFuncF64::Product,
            F::Min => AggFuncF64::Min,
            F::Max => AggFuncF64::Max,
            F::NonZero => AggFuncF64::CountNonZero,
            F::Above2 => AggFuncF64::CountFunc { func: |v| v > 2.0 },
            F::Any(t) => AggFuncF64::AnyNonZero { tolerance: t },
        }
    }
    /// The function of values with weights (used by the mean only).
    fn of(self, v: &[(f64, f64)]) -> f64 {
        let mut acc = match self {
            F::Product => 1.0,
            F::Min => f64::INFINITY,
            F::Max => f64::NEG_INFINITY,
            _ => 0.0,
        };
        let mut weight = 0.0;
        for (x, w) in v {
            weight += w;
            match self {
                F::Sum => acc += x,
                F::Mean => acc += x * w,
                F::Product => acc *= x,
                F::Min => acc = if *x < acc { *x } else { acc },
                F::Max => acc = if *x > acc { *x } else { acc },
                F::NonZero => acc += (*x != 0.0) as u8 as f64,
                F::Above2 => acc += (*x > 2.0) as u8 as f64,
                F::Any(t) => acc = if *x > t || *x < -t { 1.0 } else { acc },
            }
        }
        if self == F::Mean { acc / weight } else { acc }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fq {
    Month,
    Year,
    Days(i64),
    All,
}

impl Fq {
    fn core(self) -> Option<AggregationFrequency> {
        match self {
            Fq::Month => Some(AggregationFrequency::Monthly),
            Fq::Year => Some(AggregationFrequency::Annual),
            Fq::Days(n) => Some(AggregationFrequency::Days(NonZeroI64::new(n).unwrap())),
            Fq::All => None,
        }
    }
    /// The end of the period that holds `x`; `first` is the start of the first value.
    fn end_of(self, first: i128, x: i128) -> i128 {
        let d = from_nanos(x);
        let month = |y: i64, m: i64| nanos(DateTime::new(y as i16, m as i8, 1, 0, 0, 0, 0).unwrap());
        match self {
            Fq::Month if d.month() == 12 => month(d.year() as i64 + 1, 1),
            Fq::Month => month(d.year() as i64, d.month() as i64 + 1),
            Fq::Year => month(d.year() as i64 + 1, 1),
            Fq::Days(n) => first + ((x - first).div_euclid(n as i128 * DAY) + 1) * n as i128 * DAY,
            Fq::All => i128::MAX,
        }
    }
}

fn gen_fq(s: &mut Src, fine: bool) -> Fq {
    if fine {
        match s.below(4) {
            0 => Fq::Month,
            1 => Fq::Days(s.int(1, 12)),
            2 => Fq::Days(*s.pick(&[7, 10, 30, 31])),
            _ => Fq::Year,
        }
    } else {
        match s.below(5) {
            0 => Fq::Month,
            1 => Fq::Year,
            2 => Fq::Days(*s.pick(&[30, 31, 60, 365, 366])),
            3 => Fq::Days(s.int(1, 40)),
            _ => Fq::All,
        }
    }
}

/// A value over [start, end), reported while step `emit` is processed (END: when the run is finalised).
#[derive(Clone, Copy, Debug, PartialEq)]
struct Pv {
    emit: usize,
    start: i128,
    end: i128,
    v: f64,
}

const END: usize = usize::MAX;
/// An end that is not reported.
const ANY: i128 = i128::MIN;

/// One level of aggregation. None when a value holds a whole period, which is documented as not supported.
fn level(input: &[Pv], fq: Fq, f: F) -> Option<Vec<Pv>> {
    let Some(first) = input.first() else { return Some(vec![]) };
    let first = first.start;
    let mut out = Vec::new();
    let mut group: Vec<(f64, f64)> = Vec::new();
    let (mut g_start, mut g_end, mut last) = (first, fq.end_of(first, first), first);
    for p in input {
        let mut x = p.start;
        let mut yields = 0;
        while x < p.end {
            if x >= g_end {
                out.push(Pv { emit: p.emit, start: g_start, end: x, v: f.of(&group) });
                yields += 1;
                group.clear();
                g_start = x;
                g_end = fq.end_of(first, x);
            }
            let e = if g_end < p.end { g_end } else { p.end };
            group.push((p.v, (e - x) as f64 / DAY as f64));
            x = e;
        }
        if yields > 1 {
            return None;
        }
        last = p.end;
    }
    out.push(Pv { emit: END, start: g_start, end: last, v: f.of(&group) });
    Some(out)
}

/// Levels from the innermost outwards.
fn aggregate(input: &[Pv], levels: &[(Fq, F)]) -> Option<Vec<Pv>> {
    let mut v = input.to_vec();
    for (fq, f) in levels {
        v = level(&v, *fq, *f)?;
    }
    Some(v)
}

/// Levels as `aggregate`, with what is known to go wrong with the last, unfinished period: it ends at the
/// start of its last value, and it is the only one that is passed on when the run is finalised.
fn aggregate_known(input: &[Pv], levels: &[(Fq, F)]) -> Vec<Pv> {
    let mut v = input.to_vec();
    for (fq, f) in levels {
        let mut out = Vec::new();
        // (start, value, days)
        let mut group: Vec<(i128, f64, f64)> = Vec::new();
        let days = |a: i128, b: i128| (b - a) as f64 / DAY as f64;
        let value = |g: &[(i128, f64, f64)]| {
            let v: Vec<(f64, f64)> = g.iter().map(|x| (x.1, x.2)).collect();
            (*f != F::Mean || v.iter().any(|x| x.1 != 0.0)).then(|| f.of(&v))
        };
        let first = v.first().map_or(0, |p| p.start);
        let mut g_end = fq.end_of(first, first);
        for p in &v {
            if *fq == Fq::All {
                group.push((p.start, p.v, days(p.start, p.end)));
                continue;
            }
            let mut x = p.start;
            while x < p.end {
                if x >= g_end {
                    if p.emit != END {
                        if let Some(v) = value(&group) {
                            out.push(Pv { emit: p.emit, start: group[0].0, end: x, v });
                        }
                    }
                    group.clear();
                    g_end = fq.end_of(first, x);
                }
                let e = if g_end < p.end { g_end } else { p.end };
                group.push((x, p.v, days(x, e)));
                x = e;
            }
        }
        if let (Some(a), Some(b)) = (group.first(), group.last()) {
            if let Some(v) = value(&group) {
                out.push(Pv { emit: END, start: a.0, end: b.0, v });
            }
        }
        v = out;
    }
    v
}

fn core_agg(levels: &[(Fq, F)]) -> Aggregator {
    let mut a: Option<Aggregator> = None;
    for (fq, f) in levels {
        a = Some(Aggregator::new(fq.core(), f.core(), a));
    }
    a.unwrap()
}

fn gen_levels(s: &mut Src) -> Vec<(Fq, F)> {
    let n = s.size(1, 3);
    (0..n).map(|i| (gen_fq(s, i == 0), gen_f(s))).collect()
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1.0) || a == b
}

/// `g` is `w` rounded to `d` decimals.
fn rounded(g: f64, w: f64, d: u32) -> bool {
    let scale = 10f64.powi(d as i32);
    let whole = ((g * scale).round() - g * scale).abs() <= 1e-6 * (g * scale).abs().max(1.0);
    ((g - w).abs() <= 0.5 / scale * (1.0 + 1e-9) + 1e-12 * w.abs() && whole) || g == w
}

fn show_pv(p: &Pv) -> String {
    let e = if p.emit == END { "end".to_string() } else { p.emit.to_string() };
    let until = if p.end == ANY { "?".to_string() } else { from_nanos(p.end).to_string() };
    format!("{} [{} .. {until}) at {e}", p.v, from_nanos(p.start))
}

thread_local! {
    /// Report what is known to go wrong at the end of the run; only the "unfinished" arms do.
    static STRICT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn strictly(f: impl FnOnce() -> Result<(), Fail>) -> Result<(), Fail> {
    STRICT.with(|x| x.set(true));
    let r = f();
    STRICT.with(|x| x.set(false));
    r
}

/// Compare reported values with the reference. What is known to go wrong at the end of the run has its own
/// classes: only the end of the last period, or more.
fn compare(got: &[Pv], want: &[Pv], known: &[Pv], emits: bool, tol: &dyn Fn(f64, f64) -> bool, ctx: &str) -> Result<(), Fail> {
    let same = |a: &Pv, b: &Pv| (!emits || a.emit == b.emit) && a.start == b.start && (a.end == b.end || a.end == ANY) && tol(a.v, b.v);
    let eq = |a: &[Pv], b: &[Pv]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y));
    if eq(got, want) {
        return Ok(());
    }
    let list = |v: &[Pv]| v.iter().map(show_pv).collect::<Vec<_>>().join("; ");
    if eq(got, known) {
        if !STRICT.with(|x| x.get()) {
            return Ok(());
        }
        let only_end = known.len() == want.len() && known.iter().zip(want).all(|(a, b)| a.start == b.start && close(a.v, b.v));
        let n = want.iter().filter(|p| p.emit != END).count();
        let msg = format!("{ctx}: at the end reported {}; expected {}", list(&got[n.min(got.len())..]), list(&want[n..]));
        return fail(if only_end { "final-period-end" } else { "nested-final-period" }, msg);
    }
    let sig = if got.len() != want.len() {
        "period-count"
    } else if got.iter().zip(want).any(|(a, b)| a.start != b.start || (a.end != b.end && a.end != ANY)) {
        "period-bounds"
    } else if got.iter().zip(want).any(|(a, b)| !tol(a.v, b.v)) {
        "period-value"
    } else {
        "period-when"
    };
    fail(
        sig,
        format!(
            "{ctx}:\n  reported {}\n  expected {}",
            list(got),
            list(want)
        ),
    )
}

/// The aggregator on its own, fed with contiguous values.
fn c14_aggregator(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let levels = gen_levels(s);
    let d = crate::sim::gen_date(s);
    let mut x = nanos(d.at(if s.chance(1, 3) { s.int(0, 23) as i8 } else { 0 }, 0, 0, 0));
    let n = s.size(1, 60);
    // Lengths in hours: all equal, or different.
    let base = *s.pick(&[24i64, 24, 168, 1, 6, 48, 120, 240, 720, 36, 17]);
    let vary = s.chance(1, 3);
    let mut input = Vec::new();
    for k in 0..n {
        let h = if vary { s.int(1, base) } else { base } as i128;
        let v = s.num(-4.0, 6.0, 0.5);
        input.push(Pv { emit: k, start: x, end: x + h * DAY / 24, v });
        x += h * DAY / 24;
    }
    let Some(want) = aggregate(&input, &levels) else {
        info.label("unsupported");
        return Ok(());
    };
    let agg = core_agg(&levels);
    let mut state = agg.setup();
    let ctx = format!("{levels:?} of {}", input.iter().map(show_pv).collect::<Vec<_>>().join("; "));
    info.desc(&ctx);
    let mut got = Vec::new();
    let pv = |emit: usize, p: PeriodValue<f64>| Pv { emit, start: nanos(p.start), end: nanos(p.end()), v: p.value };
    for (k, p) in input.iter().enumerate() {
        let dur = PywrDuration::from_minutes(((p.end - p.start) / (DAY / 1440)) as i64);
        if let Some(v) = agg.append_value(&mut state, PeriodValue::new(from_nanos(p.start), dur, p.v)) {
            got.push(pv(k, v));
        }
    }
    if let Some(v) = agg.finalise(&mut state) {
        got.push(pv(END, v));
    }
    info.nontrivial = want.len() > 1;
    if levels.len() > 1 {
        info.label("nested");
    }
    if vary {
        info.label("unequal");
    }
    compare(&got, &want, &aggregate_known(&input, &levels), true, &close, &ctx)
}

// ---------------------------------------------------------------- models with outputs

#[path = "outdoc.rs"]
pub mod outdoc;

#[derive(Clone, Debug, PartialEq)]
struct Om {
    name: String,
    attr: String,
    ty: String,
    sub: Option<String>,
    /// 0..params: a parameter; then supply outflow, demand inflow, constant; then what else a document has
    what: usize,
}

#[derive(Clone, Debug)]
struct Ms {
    name: String,
    metrics: Vec<Om>,
    levels: Vec<(Fq, F)>,
}

#[derive(Clone, Debug)]
enum Rec {
    Wide(usize),
    Long(Vec<usize>, Option<u32>),
    Memory(usize, Option<F>, Option<F>, Option<F>, bool),
    Hdf(usize),
}

/// What else a document has
#[derive(Clone, Debug)]
enum Ex {
    /// Of parameters
    Sum(Vec<usize>),
    Const(f64),
    /// By time-step
    Time(Vec<f64>),
}

#[derive(Clone)]
struct Case {
    cal: Cal,
    steps: Vec<i128>,
    sizes: Vec<usize>,
    labels: Vec<Option<Vec<String>>>,
    combos: Option<Vec<Vec<usize>>>,
    /// tables[p] = (group, [t][s])
    tables: Vec<(usize, Vec<Vec<f64>>)>,
    cap: Vec<Vec<f64>>,
    sets: Vec<Ms>,
    recs: Vec<Rec>,
    more: Vec<Ex>,
}

fn text(s: &mut Src, fs: bool) -> String {
    let n = s.size(1, 5);
    let al: &[char] = if fs { &['a', 'b', 'Z', '0', ' ', '-', '_', 'é', '.'] } else { &['a', 'b', 'Z', '0', ' ', '-', ',', '"', '\n', '\'', 'é', ';'] };
    let mut t: String = (0..n).map(|_| *s.pick(al)).collect();
    if fs {
        t = t.trim_matches('.').to_string();
        t.push('x');
    }
    t
}

fn value(s: &mut Src) -> f64 {
    match s.below(5) {
        0 => 0.0,
        1 => s.num(-5.0, 5.0, 1.0),
        2 => s.num(-5.0, 5.0, 0.0625),
        3 => s.real(-1e3, 1e3),
        _ => s.real(-1.0, 1.0) * *s.pick(&[1e-9, 1e-3, 1e6, 1e12]),
    }
}

fn gen_case(s: &mut Src, hdf: bool) -> Option<Case> {
    let cal = gen_cal(s, false);
    if nanos(cal.end) < nanos(cal.start) {
        return None;
    }
    let mut steps = Vec::new();
    while at(cal.start, cal.months, cal.rest, steps.len() as i64) <= nanos(cal.end) {
        steps.push(at(cal.start, cal.months, cal.rest, steps.len() as i64));
    }
    let n = steps.len();
    steps.push(at(cal.start, cal.months, cal.rest, n as i64));
    let g = s.size(0, 2);
    let sizes: Vec<usize> = (0..g).map(|_| s.size(1, 3)).collect();
    let labels: Vec<Option<Vec<String>>> = sizes
        .iter()
        .map(|k| s.chance(1, 3).then(|| (0..*k).map(|i| format!("{}{i}", text(s, hdf))).collect()))
        .collect();
    let combos = (g > 0 && s.chance(1, 4)).then(|| {
        let k = s.size(1, 4);
        (0..k).map(|_| sizes.iter().map(|n| s.us(*n)).collect()).collect()
    });
    let np = s.size(1, 4);
    let tables = (0..np)
        .map(|_| {
            let gr = if g == 0 { 0 } else { s.us(g) };
            let w = sizes.get(gr).copied().unwrap_or(1);
            (gr, (0..n).map(|_| (0..w).map(|_| value(s)).collect()).collect())
        })
        .collect();
    let w0 = sizes.first().copied().unwrap_or(1);
    let cap = (0..n).map(|_| (0..w0).map(|_| s.num(0.0, 10.0, 0.25)).collect()).collect();
    let nms = s.size(1, 3);
    let mut sets: Vec<Ms> = Vec::new();
    for k in 0..nms {
        let m = s.size(1, 4);
        let mut metrics: Vec<Om> = Vec::new();
        for i in 0..m {
            let mut name = text(s, hdf);
            let attr = if s.bool() { text(s, hdf) } else { format!("attr{i}") };
            if metrics.iter().any(|o| o.name == name && o.attr == attr) || (hdf && name == "scenarios") || (hdf && name == "time") {
                name = format!("{name}{i}");
            }
            metrics.push(Om { name, attr, what: s.us(np + 3), ty: "Ty".into(), sub: Some("Sub".into()) });
        }
        let levels = if s.bool() { vec![] } else { gen_levels(s) };
        sets.push(Ms { name: format!("set {k}"), metrics, levels });
    }
    let nr = s.size(1, 4);
    let fo = |s: &mut Src| s.chance(4, 5).then(|| gen_f(s));
    let recs = (0..nr)
        .map(|_| match s.below(if hdf { 4 } else { 3 }) {
            0 => Rec::Wide(s.us(nms)),
            1 => {
                let k = s.size(1, nms);
                Rec::Long((0..k).map(|_| s.us(nms)).collect(), s.bool().then(|| s.int(1, 9) as u32))
            }
            2 => Rec::Memory(s.us(nms), fo(s), fo(s), fo(s), s.bool()),
            _ => Rec::Hdf(s.us(nms)),
        })
        .collect();
    Some(Case { cal, steps, sizes, labels, combos, tables, cap, sets, recs, more: vec![] })
}

impl Case {
    fn n(&self) -> usize {
        self.steps.len() - 1
    }
    fn show(&self) -> String {
        format!(
            "{:?} groups {:?} labels {:?} combos {:?} tables {:?} cap {:?} sets {:?} recs {:?} more {:?}",
            self.cal, self.sizes, self.labels, self.combos, self.tables, self.cap, self.sets, self.recs, self.more
        )
    }
    fn domain(&self) -> Result<ModelDomain, String> {
        let mut sb = ScenarioDomainBuilder::default();
        for (i, n) in self.sizes.iter().enumerate() {
            let mut g = ScenarioGroupBuilder::new(&format!("g{i}"), *n);
            if let Some(l) = &self.labels[i] {
                g = g.with_labels(l);
            }
            sb = sb.with_group(g.build().map_err(|e| full(&e))?).map_err(|e| full(&e))?;
        }
        if let Some(c) = &self.combos {
            sb = sb.with_combinations(c.iter().map(|r| r.iter().map(|i| ScenarioLabelOrIndex::Index(*i)).collect()).collect());
        }
        let mut db = ModelDomainBuilder::new(TimeDomainBuilder::new(self.cal.start, self.cal.end, self.cal.dur.clone()));
        db.scenario(sb);
        db.build().map_err(|e| full(&e))
    }
    /// The scenarios run: position in each group.
    fn scenarios(&self) -> Vec<Vec<usize>> {
        if self.sizes.is_empty() {
            return vec![vec![0]];
        }
        if let Some(c) = &self.combos {
            return c.clone();
        }
        let mut v: Vec<Vec<usize>> = vec![vec![]];
        for n in &self.sizes {
            v = v.into_iter().flat_map(|p| (0..*n).map(move |i| [p.clone(), vec![i]].concat())).collect();
        }
        v
    }
    fn metric(&self, what: usize) -> UnresolvedMetricF64 {
        let np = self.tables.len();
        match what.checked_sub(np) {
            None => UnresolvedMetricF64::new_parameter_before(format!("p{what}").as_str()),
            Some(0) => UnresolvedMetricF64::NodeOutFlow(UnresolvedNode::new("supply", None)),
            Some(1) => UnresolvedMetricF64::NodeInFlow(UnresolvedNode::new("demand", None)),
            _ => 7.25.into(),
        }
    }
    fn expected(&self, what: usize, t: usize, sc: &[usize]) -> f64 {
        match what.checked_sub(self.tables.len()) {
            None => {
                let (g, tab) = &self.tables[what];
                tab[t][sc[*g]]
            }
            Some(0) | Some(1) => self.cap[t][sc[0]],
            Some(2) => 7.25,
            Some(k) => match &self.more[k - 3] {
                Ex::Sum(v) => v.iter().map(|p| self.expected(*p, t, sc)).sum(),
                Ex::Const(v) => *v,
                Ex::Time(v) => v[t],
            },
        }
    }
    fn network(&self, dir: &Path) -> NetworkBuilder {
        let mut nb = NetworkBuilder::default();
        let grp = |g: usize| format!("g{g}");
        let scen = !self.sizes.is_empty();
        let mut add = |name: String, g: usize, tab: &Vec<Vec<f64>>| {
            if scen {
                let a = Array2::from_shape_fn((tab.len(), tab[0].len()), |(t, s)| tab[t][s]);
                nb.parameters().f64(Box::new(Array2ParameterBuilder::new(name.as_str().into(), a, &grp(g))));
            } else {
                let a = ndarray::Array1::from_iter(tab.iter().map(|r| r[0]));
                nb.parameters().f64(Box::new(pywr_core::parameters::Array1ParameterBuilder::new(name.as_str().into(), a)));
            }
        };
        for (i, (g, tab)) in self.tables.iter().enumerate() {
            add(format!("p{i}"), *g, tab);
        }
        add("cap".to_string(), 0, &self.cap);
        let mut i = NodeBuilder::input(UnresolvedNode::new("supply", None));
        i.max_flow(UnresolvedMetricF64::new_parameter_before("cap"));
        let mut o = NodeBuilder::output(UnresolvedNode::new("demand", None));
        o.cost((-10.0).into());
        nb.node(i);
        nb.node(o);
        nb.connect("supply", "demand");
        for ms in &self.sets {
            let mut b = MetricSetBuilder::new(&ms.name);
            if !ms.levels.is_empty() {
                b.aggregator(core_agg(&ms.levels));
            }
            for m in &ms.metrics {
                b.metric(UnresolvedOutputMetric::new(&m.name, &m.attr, "Ty", Some("Sub"), self.metric(m.what)));
            }
            nb.metric_set(b);
        }
        for (k, r) in self.recs.iter().enumerate() {
            let name = format!("rec{k}");
            match r {
                Rec::Wide(m) => {
                    nb.recorder(Box::new(CsvWideFmtOutputBuilder::new(&name, dir.join(format!("{k}.csv")), &self.sets[*m].name)));
                }
                Rec::Long(ms, dp) => {
                    let mut b = CsvLongFmtOutputBuilder::new(&name, dir.join(format!("{k}.csv")), dp.and_then(NonZeroU32::new));
                    for m in ms {
                        b.metric_set(&self.sets[*m].name);
                    }
                    nb.recorder(Box::new(b));
                }
                Rec::Memory(m, a, b, c, tm) => {
                    let f = |x: &Option<F>| x.map(|x| x.core());
                    let order = if *tm { AggregationOrder::TimeMetricScenario } else { AggregationOrder::MetricTimeScenario };
                    nb.recorder(Box::new(MemoryRecorderBuilder::new(&name, &self.sets[*m].name, Aggregation::new(f(a), f(b), f(c)), order)));
                }
                Rec::Hdf(m) => {
                    nb.recorder(Box::new(HDF5RecorderBuilder::new(&name, dir.join(format!("{k}.h5")), &self.sets[*m].name)));
                }
            }
        }
        nb
    }
    /// What a metric set yields for one scenario: per metric, the sequence of values.
    fn yields(&self, ms: &Ms, sc: &[usize], known: bool) -> Option<Vec<Vec<Pv>>> {
        ms.metrics
            .iter()
            .map(|m| {
                let raw: Vec<Pv> = (0..self.n())
                    .map(|t| Pv { emit: t, start: self.steps[t], end: self.steps[t + 1], v: self.expected(m.what, t, sc) })
                    .collect();
                match known {
                    _ if ms.levels.is_empty() => Some(raw),
                    false => aggregate(&raw, &ms.levels),
                    true => Some(aggregate_known(&raw, &ms.levels)),
                }
            })
            .collect()
    }
}

fn run(model: &Model) -> Result<ModelResult, String> {
    match guarded(|| model.run::<HighsSolver>(&Default::default()).map_err(|e| full(&e))) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// RFC 4180.
pub fn parse_csv(t: &str) -> Vec<Vec<String>> {
    let mut rows = Vec::new();
    let mut row = Vec::new();
    let mut cell = String::new();
    let mut quoted = false;
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '"' if quoted && it.peek() == Some(&'"') => {
                cell.push('"');
                it.next();
            }
            '"' => quoted = !quoted,
            ',' if !quoted => row.push(std::mem::take(&mut cell)),
            '\n' if !quoted => {
                row.push(std::mem::take(&mut cell));
                rows.push(std::mem::take(&mut row));
            }
            '\r' if !quoted => {}
            c => cell.push(c),
        }
    }
    if !cell.is_empty() || !row.is_empty() {
        row.push(cell);
        rows.push(row);
    }
    rows
}

fn num(x: &str) -> Result<f64, Fail> {
    x.parse().map_err(|_| Fail { sig: "not-a-number".into(), msg: format!("`{x}` where a value is expected") })
}

fn when(x: &str) -> Result<i128, Fail> {
    x.parse::<DateTime>().map(nanos).map_err(|_| Fail { sig: "not-a-date".into(), msg: format!("`{x}` where a date is expected") })
}

/// Long-format rows, in any form: (start, end, simulation, label, set, name, attribute, value)
type LongRow = (i128, i128, usize, String, String, String, String, f64);

struct Run {
    case: Case,
    result: ModelResult,
    scen: Vec<Vec<usize>>,
    labels: Vec<String>,
    /// Positions among the simulated members of each group
    sims: Vec<Vec<usize>>,
    dir: crate::runner::Scratch,
}

fn run_case(s: &mut Src, info: &mut Info, hdf: bool, doc: bool) -> Result<Option<Run>, Fail> {
    let Some(mut case) = gen_case(s, hdf) else { return Ok(None) };
    let scen = case.scenarios();
    let c = case.clone();
    for ms in case.sets.iter_mut() {
        // A step longer than a period is documented as not supported.
        if c.yields(ms, &scen[0], false).is_none() {
            ms.levels = vec![];
        }
    }
    let dir = scratch_dir("rec");
    let model = if doc {
        let v = case.document(s, hdf, &dir);
        info.desc(&v);
        let b = crate::schema::builder(&v, Some(&dir), Some(&dir)).map_err(|e| Fail { sig: "document".into(), msg: format!("{e}: {v}") })?;
        b.build().map_err(|e| Fail { sig: "build".into(), msg: format!("{}: {v}", full(&e)) })?
    } else {
        info.desc(case.show());
        let d = case.domain().map_err(|e| Fail { sig: "domain".into(), msg: format!("{e}: {}", case.show()) })?;
        ModelBuilder::new(d, case.network(&dir)).build().map_err(|e| Fail { sig: "build".into(), msg: full(&e) })?
    };
    let d = model.domain();
    let labels: Vec<String> = d.scenarios().indices().iter().map(|i| i.label()).collect();
    let sims: Vec<Vec<usize>> = d.scenarios().indices().iter().map(|i| i.simulation_indices().to_vec()).collect();
    check!(labels.len() == scen.len(), "scenarios", "{} scenarios, expected {}", labels.len(), scen.len());
    for (k, i) in d.scenarios().indices().iter().enumerate() {
        check!(i.simulation_id() == k, "simulation-id", "{}: {k}", i.simulation_id());
    }
    let result = run(&model).map_err(|e| Fail { sig: "run".into(), msg: format!("{e}: {}", case.show()) })?;
    Ok(Some(Run { case, result, scen, labels, sims, dir }))
}

impl Run {
    /// Expected yields [scenario][metric]
    fn want(&self, m: usize, known: bool) -> Vec<Vec<Vec<Pv>>> {
        self.scen.iter().map(|sc| self.case.yields(&self.case.sets[m], sc, known).unwrap()).collect()
    }
    /// Rows of a set of metric sets grouped to [set][scenario][metric] sequences.
    fn check_long(&self, rows: &[LongRow], sets: &[usize], what: &str, digits: Option<u32>, in_order: bool) -> Result<(), Fail> {
        let mut used = 0;
        let mut seen = Vec::new();
        for m in sets {
            if seen.contains(m) {
                continue;
            }
            seen.push(*m);
            let times = sets.iter().filter(|x| *x == m).count();
            let (want, known) = (self.want(*m, false), self.want(*m, true));
            let set = &self.case.sets[*m];
            for (si, (per, per_known)) in want.iter().zip(&known).enumerate() {
                // Several metrics of a set can share name and attribute: keep the order within them.
                let mut done: Vec<(&str, &str)> = Vec::new();
                for om in set.metrics.iter() {
                    let key = (om.name.as_str(), om.attr.as_str());
                    if done.contains(&key) {
                        continue;
                    }
                    done.push(key);
                    let same: Vec<usize> = (0..set.metrics.len()).filter(|j| set.metrics[*j].name == key.0 && set.metrics[*j].attr == key.1).collect();
                    let got: Vec<Pv> = rows
                        .iter()
                        .filter(|r| r.2 == si && r.4 == set.name && r.5 == key.0 && r.6 == key.1)
                        .map(|r| Pv { emit: 0, start: r.0, end: r.1, v: r.7 })
                        .collect();
                    used += got.len();
                    if let Some(r) = rows.iter().find(|r| r.2 == si && r.3 != self.labels[si]) {
                        return fail("label", format!("{what}: label `{}` for scenario {si}, expected `{}`", r.3, self.labels[si]));
                    }
                    let merge = |per: &[Vec<Pv>]| {
                        let mut w = Vec::new();
                        for k in 0..per[same[0]].len() {
                            for _ in 0..times {
                                for j in &same {
                                    w.push(per[*j][k]);
                                }
                            }
                        }
                        w
                    };
                    // The reported values may be rounded.
                    let tol = |g: f64, w: f64| match digits {
                        None => close(g, w),
                        Some(d) => rounded(g, w, d),
                    };
                    let ctx = format!("{what}, metric {key:?} of scenario {si}, {:?}", set.levels);
                    compare(&got, &merge(per), &merge(per_known), false, &tol, &ctx)?;
                }
            }
        }
        check!(used == rows.len(), "extra-rows", "{what}: {} rows, {used} expected", rows.len());
        let _ = in_order;
        Ok(())
    }
}

/// Long CSV and memory recorder tables.
fn c13_long(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    c13_long_of(s, info, false)
}

fn c13_long_of(s: &mut Src, info: &mut Info, doc: bool) -> Result<(), Fail> {
    let Some(r) = run_case(s, info, false, doc)? else { return Ok(()) };
    let mut any = false;
    for (k, rec) in r.case.recs.iter().enumerate() {
        match rec {
            Rec::Long(sets, dp) => {
                let t = std::fs::read_to_string(r.dir.join(format!("{k}.csv"))).map_err(|e| Fail { sig: "no-file".into(), msg: e.to_string() })?;
                let rows = parse_csv(&t);
                let head: Vec<&str> = rows.first().map(|h| h.iter().map(|x| x.as_str()).collect()).unwrap_or_default();
                // The head comes with the first row.
                let none = rows.is_empty() && sets.iter().all(|m| r.want(*m, true).iter().flatten().all(|x| x.is_empty()));
                check!(
                    none || head == ["time_start", "time_end", "simulation_id", "label", "metric_set", "name", "attribute", "value"],
                    "header",
                    "{head:?}: {}",
                    r.case.show()
                );
                let mut v = Vec::new();
                for x in rows.iter().skip(1) {
                    check!(x.len() == 8, "columns", "{x:?}");
                    v.push((when(&x[0])?, when(&x[1])?, num(&x[2])? as usize, x[3].clone(), x[4].clone(), x[5].clone(), x[6].clone(), num(&x[7])?));
                }
                r.check_long(&v, sets, "long CSV", *dp, true).map_err(|f| Fail { msg: format!("{}: {}", f.msg, r.case.show()), ..f })?;
                any = true;
                info.label("long-csv");
            }
            Rec::Memory(m, ..) => {
                let res = r.result.network_result.get(&format!("rec{k}"));
                let Some(res) = res else { return fail("no-result", format!("memory recorder has no result: {}", r.case.show())) };
                let df = res.to_dataframe().map_err(|e| Fail { sig: "dataframe".into(), msg: full(&e) })?;
                let st = |c: &str| -> Vec<String> { df.column(c).unwrap().str().unwrap().iter().map(|x| x.unwrap().to_string()).collect() };
                let sims: Vec<usize> = df.column("simulation_id").unwrap().u32().unwrap().iter().map(|x| x.unwrap() as usize).collect();
                let vals: Vec<f64> = df.column("value").unwrap().f64().unwrap().iter().map(|x| x.unwrap()).collect();
                let (a, b, l, ms, nm, at) = (st("time_start"), st("time_end"), st("label"), st("metric_set"), st("name"), st("attribute"));
                let mut v = Vec::new();
                for i in 0..vals.len() {
                    v.push((when(&a[i])?, when(&b[i])?, sims[i], l[i].clone(), ms[i].clone(), nm[i].clone(), at[i].clone(), vals[i]));
                }
                r.check_long(&v, &[*m], "memory recorder", None, false).map_err(|f| Fail { msg: format!("{}: {}", f.msg, r.case.show()), ..f })?;
                any = true;
                info.label("memory");
            }
            _ => {}
        }
    }
    info.nontrivial = any && r.case.n() > 1;
    Ok(())
}

fn c13_wide(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    c13_wide_of(s, info, false)
}

fn c13_wide_of(s: &mut Src, info: &mut Info, doc: bool) -> Result<(), Fail> {
    let Some(r) = run_case(s, info, false, doc)? else { return Ok(()) };
    for (k, rec) in r.case.recs.iter().enumerate() {
        let Rec::Wide(m) = rec else { continue };
        let t = std::fs::read_to_string(r.dir.join(format!("{k}.csv"))).map_err(|e| Fail { sig: "no-file".into(), msg: e.to_string() })?;
        let rows = parse_csv(&t);
        let set = &r.case.sets[*m];
        let ns = r.scen.len();
        let heads: Vec<Vec<String>> = vec![
            std::iter::once("node".to_string()).chain((0..ns).flat_map(|_| set.metrics.iter().map(|o| o.name.clone()))).collect(),
            std::iter::once("attribute".to_string()).chain((0..ns).flat_map(|_| set.metrics.iter().map(|o| o.attr.clone()))).collect(),
            std::iter::once("simulation_id".to_string()).chain((0..ns).flat_map(|i| set.metrics.iter().map(move |_| i.to_string()))).collect(),
            std::iter::once("label".to_string()).chain((0..ns).flat_map(|i| { let l = r.labels[i].clone(); set.metrics.iter().map(move |_| l.clone()) })).collect(),
        ];
        check!(rows.len() >= 4 && rows[..4] == heads[..], "header", "{:?} expected {heads:?}", &rows[..rows.len().min(4)]);
        let (want, known) = (r.want(*m, false), r.want(*m, true));
        let cols: Vec<(&Vec<Pv>, &Vec<Pv>)> = want.iter().zip(&known).flat_map(|(x, y)| x.iter().zip(y)).collect();
        for (c, (w, kn)) in cols.iter().enumerate() {
            let mut got = Vec::new();
            for x in &rows[4..] {
                check!(x.len() == cols.len() + 1, "columns", "{x:?}");
                let start = when(&x[0])?;
                // The end is not in the file.
                got.push(Pv { emit: 0, start, end: ANY, v: num(&x[c + 1])? });
            }
            compare(&got, w, kn, false, &|g, w| rounded(g, w, 2), &format!("wide CSV, column {} of {:?}: {}", c + 1, set.levels, r.case.show()))?;
        }
        info.label("wide-csv");
        info.nontrivial = r.case.n() > 1;
    }
    Ok(())
}

/// The single aggregated value of a memory recorder.
fn c13_aggregate(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    c13_aggregate_of(s, info, false)
}

fn c13_aggregate_of(s: &mut Src, info: &mut Info, doc: bool) -> Result<(), Fail> {
    let Some(r) = run_case(s, info, false, doc)? else { return Ok(()) };
    for (k, rec) in r.case.recs.iter().enumerate() {
        let Rec::Memory(m, fs, ft, fm, tm) = rec else { continue };
        let res = r.result.network_result.get(&format!("rec{k}"));
        let Some(res) = res else { return fail("no-result", "memory recorder has no result".to_string()) };
        let got = match guarded(|| res.aggregated_value()) {
            Ok(x) => x.map_err(|e| full(&e)),
            Err(p) => {
                // Nothing at all was recorded
                let lost = r.want(*m, true).iter().flatten().any(|x| x.is_empty());
                if lost && !STRICT.with(|x| x.get()) {
                    info.label("nothing-recorded");
                    continue;
                }
                return fail(if lost { "final-period-aggregate" } else { "panic" }, format!("{p}: {}", r.case.show()));
            }
        };
        // [scenario][period][metric]
        let (want, known) = (r.want(*m, false), r.want(*m, true));
        let one = |f: &Option<F>, v: &[(f64, f64)]| -> Result<f64, ()> {
            if v.len() == 1 {
                Ok(v[0].0)
            } else {
                f.map(|f| f.of(v)).ok_or(())
            }
        };
        let expect = |want: &[Vec<Vec<Pv>>]| -> Result<f64, ()> {
            let mut per = Vec::new();
            for sc in want {
                let n = sc[0].len();
                let days = |p: &Pv| (p.end - p.start) as f64 / DAY as f64;
                let x = if *tm {
                    let mut v = Vec::new();
                    for m in sc {
                        v.push((one(ft, &m.iter().map(|p| (p.v, days(p))).collect::<Vec<_>>())?, 1.0));
                    }
                    one(fm, &v)?
                } else {
                    let mut v = Vec::new();
                    for i in 0..n {
                        v.push((one(fm, &sc.iter().map(|m| (m[i].v, 1.0)).collect::<Vec<_>>())?, days(&sc[0][i])));
                    }
                    one(ft, &v)?
                };
                per.push((x, 1.0));
            }
            one(fs, &per)
        };
        let mag = r.case.tables.iter().flat_map(|t| t.1.iter().flatten()).fold(10.0f64, |a, x| a.max(x.abs()));
        let same = |w: &Result<f64, ()>| match (w, &got) {
            (Err(()), Err(_)) => true,
            // Sums of large values of both signs lose digits. A mean over no time is an error.
            (Ok(w), Ok(g)) => (w - g).abs() <= 1e-9 * w.abs().max(g.abs()).max(mag) || w == g,
            (Ok(w), Err(_)) => w.is_nan(),
            _ => false,
        };
        let w = expect(&want);
        if !same(&w) {
            let lost = known.iter().flatten().any(|x| x.is_empty()) && got.is_err();
            let known = lost || same(&expect(&known));
            if known && !STRICT.with(|x| x.get()) {
                info.label("unfinished");
                continue;
            }
            let sig = if known { "final-period-aggregate" } else { "value" };
            return fail(sig, format!("aggregated to {got:?}, expected {w:?}: recorder {k} of {}", r.case.show()));
        }
        match w {
            Err(()) => info.label("no-function"),
            Ok(_) => info.nontrivial = true,
        }
        info.label(if *tm { "time-first" } else { "metric-first" });
    }
    Ok(())
}

#[derive(hdf5_metno::H5Type, Copy, Clone, Debug)]
#[repr(C)]
struct H5Time {
    index: usize,
    year: i16,
    month: u8,
    day: u8,
    hour: u8,
    minute: u8,
    second: u8,
}

#[derive(hdf5_metno::H5Type, Clone, PartialEq, Debug)]
#[repr(C)]
struct H5Group {
    name: hdf5_metno::types::VarLenUnicode,
    size: usize,
}

#[derive(hdf5_metno::H5Type, Clone, PartialEq, Debug)]
#[repr(C)]
struct H5Scenario {
    index: usize,
    indices: hdf5_metno::types::VarLenArray<usize>,
    label: hdf5_metno::types::VarLenUnicode,
}

fn c13_hdf5(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    c13_hdf5_of(s, info, false)
}

fn c13_hdf5_of(s: &mut Src, info: &mut Info, doc: bool) -> Result<(), Fail> {
    let Some(r) = run_case(s, info, true, doc)? else { return Ok(()) };
    for (k, rec) in r.case.recs.iter().enumerate() {
        let Rec::Hdf(m) = rec else { continue };
        let h = |e: hdf5_metno::Error| Fail { sig: "hdf5".into(), msg: format!("{e}: {}", r.case.show()) };
        let f = hdf5_metno::File::open(r.dir.join(format!("{k}.h5"))).map_err(h)?;
        let time = f.dataset("time").map_err(h)?.read_1d::<H5Time>().map_err(h)?;
        check!(time.len() == r.case.n(), "time", "{} times: {}", time.len(), r.case.show());
        for (i, t) in time.iter().enumerate() {
            let d = DateTime::new(t.year, t.month as i8, t.day as i8, t.hour as i8, t.minute as i8, t.second as i8, 0).map(nanos).unwrap_or(0);
            check!(t.index == i && d == r.case.steps[i], "time", "time {i} is {t:?}: {}", r.case.show());
        }
        let groups = f.dataset("scenarios/groups").map_err(h)?.read_1d::<H5Group>().map_err(h)?;
        if !r.case.sizes.is_empty() {
            let g: Vec<(String, usize)> = groups.iter().map(|g| (g.name.to_string(), g.size)).collect();
            let w: Vec<(String, usize)> = r.case.sizes.iter().enumerate().map(|(i, n)| (format!("g{i}"), *n)).collect();
            check!(g == w, "groups", "{g:?} expected {w:?}: {}", r.case.show());
        }
        let sc = f.dataset("scenarios/indices").map_err(h)?.read_1d::<H5Scenario>().map_err(h)?;
        check!(sc.len() == r.scen.len(), "indices", "{} scenarios: {}", sc.len(), r.case.show());
        for (i, x) in sc.iter().enumerate() {
            check!(
                x.index == i && x.indices.to_vec() == r.sims[i] && x.label.to_string() == r.labels[i],
                "indices",
                "scenario {i} is {} {:?} `{}`, expected {:?} `{}`: {}",
                x.index,
                x.indices.to_vec(),
                x.label,
                r.sims[i],
                r.labels[i],
                r.case.show()
            );
        }
        for om in &r.case.sets[*m].metrics {
            let ds = f.group(&om.name).map_err(h)?.dataset(&om.attr).map_err(h)?;
            let a = ds.read_2d::<f64>().map_err(h)?;
            check!(a.shape() == [r.case.n(), r.scen.len()], "shape", "{:?}: {}", a.shape(), r.case.show());
            for t in 0..r.case.n() {
                for (i, sc) in r.scen.iter().enumerate() {
                    let w = r.case.expected(om.what, t, sc);
                    check!(
                        close(a[[t, i]], w),
                        "hdf5-value",
                        "{}/{} at step {t}, scenario {i}: {} expected {w}: {}",
                        om.name,
                        om.attr,
                        a[[t, i]],
                        r.case.show()
                    );
                }
            }
            let word = |k: &str| ds.attr(k).and_then(|a| a.read_scalar::<hdf5_metno::types::VarLenUnicode>()).map(|x| x.to_string()).ok();
            let (ty, sub) = (word("pywr-type"), word("pywr-subtype"));
            check!(ty.as_ref() == Some(&om.ty) && sub == om.sub, "type", "{ty:?} {sub:?}, expected {om:?}");
        }
        info.label("hdf5");
        info.nontrivial = r.case.n() > 1;
    }
    Ok(())
}

/// Assertion recorders stop the run exactly when a value differs.
fn c13_assert(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let Some(mut case) = gen_case(s, false) else { return Ok(()) };
    case.sets.clear();
    case.recs.clear();
    let scen = case.scenarios();
    let what = s.us(case.tables.len() + 3);
    let kind = s.below(3);
    let n = case.n();
    let bad = s.bool();
    let (bt, bs) = (s.us(n), s.us(scen.len()));
    // Far beyond, or well within, the default tolerances
    let delta = if bad { *s.pick(&[1e-2, -1e-2, 1.0, -1.0]) } else { 0.0 };
    let d = case.domain().map_err(|e| Fail { sig: "domain".into(), msg: e })?;
    let dir = scratch_dir("rec");
    let mut nb = case.network(&dir);
    let want = Array2::from_shape_fn((n, scen.len()), |(t, i)| {
        let w = case.expected(what, t, &scen[i]);
        w + if t == bt && i == bs { delta * w.abs().max(1.0) } else { 0.0 }
    });
    match kind {
        0 => {
            let mut b = AssertionF64RecorderBuilder::new("check", case.metric(what), want.clone());
            if s.bool() {
                b.epsilon(1e-3);
                if !bad {
                    info.label("within");
                }
            }
            nb.recorder(Box::new(b));
        }
        1 => {
            let w = want.clone();
            let mut b = AssertionFnRecorderBuilder::new("check", case.metric(what), move |t: &pywr_core::timestep::Timestep, i: &pywr_core::scenario::ScenarioIndex| w[[t.index, i.simulation_id()]]);
            b.epsilon(1e-9);
            nb.recorder(Box::new(b));
        }
        _ => {
            let w0 = case.cap[0].len();
            let tab = Array2::from_shape_fn((n, w0), |(t, i)| case.cap[t][i] as u64 + 1);
            if case.sizes.is_empty() {
                nb.parameters().u64(Box::new(pywr_core::parameters::Array1ParameterBuilder::new("u".into(), tab.column(0).to_owned())));
            } else {
                nb.parameters().u64(Box::new(Array2ParameterBuilder::new("u".into(), tab.clone(), "g0")));
            }
            let want = Array2::from_shape_fn((n, scen.len()), |(t, i)| {
                let w = tab[[t, scen[i][0]]];
                if bad && t == bt && i == bs { if delta > 0.0 { w + 1 } else { w - 1 } } else { w }
            });
            nb.recorder(Box::new(AssertionU64RecorderBuilder::new("check", UnresolvedMetricU64::new_parameter_before("u"), want)));
        }
    }
    info.desc(format!("kind {kind} metric {what} wrong {bad} at {bt} {bs} by {delta}: {}", case.show()));
    let model = ModelBuilder::new(d, nb).build().map_err(|e| Fail { sig: "build".into(), msg: full(&e) })?;
    let r = run(&model);
    match (&r, bad) {
        (Ok(_), false) => {}
        (Err(e), true) if e.contains("assertion failed") => {}
        (Ok(_), true) => return fail("assertion-missed", format!("kind {kind}: a value that differs at step {bt}, scenario {bs} by {delta} passed: {}", case.show())),
        (Err(e), _) => return fail("assertion-raised", format!("kind {kind}: {e}: {}", case.show())),
    }
    info.nontrivial = n > 1;
    info.label(["f64", "fn", "u64"][kind as usize]);
    info.label(if bad { "wrong" } else { "right" });
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "at least one output of the arm's kind is compared, over two or more time-steps",
            arms: vec![
                Arm { name: "long", quick: 2000, thorough: 12000, run: c13_long },
                Arm { name: "wide", quick: 1500, thorough: 12000, run: c13_wide },
                Arm { name: "aggregate", quick: 1500, thorough: 12000, run: c13_aggregate },
                Arm { name: "unfinished", quick: 60, thorough: 300, run: |s, i| strictly(|| c13_long(s, i)) },
                Arm { name: "unfinished-aggregate", quick: 60, thorough: 300, run: |s, i| strictly(|| c13_aggregate(s, i)) },
                Arm { name: "hdf5", quick: 300, thorough: 4000, run: c13_hdf5 },
                Arm { name: "assert", quick: 600, thorough: 10000, run: c13_assert },
            ],
        },
        Prop {
            id: "C14",
            rule: "more than one aggregated value is expected",
            arms: vec![
                Arm { name: "aggregator", quick: 100000, thorough: 400000, run: c14_aggregator },
                Arm { name: "unfinished", quick: 200, thorough: 1000, run: |s, i| strictly(|| c14_aggregator(s, i)) },
            ],
        },
    ]
}

/// A document with outputs.
pub fn any_document(s: &mut Src, dir: &Path) -> Option<serde_json::Value> {
    gen_case(s, false).map(|mut c| c.document(s, false, dir))
}
