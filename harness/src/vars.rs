//! Variables of parameters: values set from outside (by an optimiser, say) are the ones used from then on.

use crate::alloc::full;
use crate::check;
use crate::params::{Rb, V, rbf};
use crate::runner::{Arm, Fail, Info, Prop, fail, guarded};
use crate::schema::{document, lit, par, probed, time_section};
use crate::sim::gen_date;
use crate::src::Src;
use jiff::ToSpan;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::models::{Model, ModelState};
use pywr_core::network::NetworkTimings;
use pywr_core::parameters::{ActivationFunction, ParameterName, ParameterReturnValue, RbfProfileVariableConfig};
use pywr_core::solvers::{HighsSolver, HighsSolverSettings};
use pywr_schema::parameters as sp;
use serde_json::{Value, json};

#[derive(Clone, Debug)]
enum Base {
    Lit(f64),
    /// A value for each member of the scenario group
    Scenario(Vec<f64>),
    Monthly(Vec<f64>),
    /// Another variable
    Var(usize),
}

#[derive(Clone, Debug)]
enum Kind {
    Constant(f64),
    Offset(Base, f64),
    Rbf(Vec<(u32, f64)>, Rb),
}

#[derive(Clone, Debug)]
enum Act {
    Unit(f64, f64),
    Rectifier(f64, f64, Option<f64>),
    Step(f64, Option<f64>),
    Logistic(f64, f64),
}

impl Act {
    fn make(s: &mut Src) -> Self {
        let a = s.num(-8.0, 8.0, 0.25);
        let b = a + s.num(0.0, 9.0, 0.25);
        let off = if s.bool() { Some(s.num(-4.0, 4.0, 0.5)) } else { None };
        match s.below(4) {
            0 => Act::Unit(a, b),
            1 => Act::Rectifier(a, b, off),
            2 => Act::Step(a, off),
            _ => Act::Logistic(s.num(-2.0, 3.0, 0.25), a),
        }
    }

    fn json(&self) -> Value {
        let with = |mut v: Value, off: &Option<f64>| {
            if let Some(x) = off {
                v["off_value"] = json!(x);
            }
            v
        };
        match self {
            Act::Unit(a, b) => json!({"type": "Unit", "min": a, "max": b}),
            Act::Rectifier(a, b, off) => with(json!({"type": "Rectifier", "min": a, "max": b}), off),
            Act::Step(a, off) => with(json!({"type": "BinaryStep", "on_value": a}), off),
            Act::Logistic(g, m) => json!({"type": "Logistic", "growth_rate": g, "max": m}),
        }
    }

    fn bounds(&self) -> (f64, f64) {
        match self {
            Act::Unit(a, b) => (*a, *b),
            Act::Logistic(..) => (-6.0, 6.0),
            _ => (-1.0, 1.0),
        }
    }

    fn value(&self, x: f64) -> f64 {
        match self {
            Act::Unit(a, b) => {
                if x < *a {
                    *a
                } else if x > *b {
                    *b
                } else {
                    x
                }
            }
            Act::Rectifier(a, b, off) => {
                if x <= 0.0 {
                    off.unwrap_or(0.0)
                } else {
                    (1.0 - x.min(1.0)) * a + x.min(1.0) * b
                }
            }
            Act::Step(a, off) => {
                if x <= 0.0 {
                    off.unwrap_or(0.0)
                } else {
                    *a
                }
            }
            Act::Logistic(g, m) => m / (1.0 + (-g * x.max(-6.0).min(6.0)).exp()),
        }
    }
}

/// What has been set for one variable in one scenario
#[derive(Clone, Debug, Default)]
struct Now {
    value: Option<f64>,
    ys: Option<Vec<f64>>,
    xs: Option<Vec<u32>>,
}

fn rb_json(f: Rb) -> Value {
    match f {
        Rb::Linear => json!({"type": "Linear"}),
        Rb::Cubic => json!({"type": "Cubic"}),
        Rb::Quintic => json!({"type": "Quintic"}),
        Rb::Thin => json!({"type": "ThinPlateSpline"}),
        Rb::Gauss(e) => json!({"type": "Gaussian", "epsilon": e}),
        Rb::Mq(e) => json!({"type": "MultiQuadric", "epsilon": e}),
        Rb::Imq(e) => json!({"type": "InverseMultiQuadric", "epsilon": e}),
    }
}

fn days(s: &mut Src, n: usize) -> Vec<u32> {
    let mut at = 1 + s.below(30) as u32;
    (0..n)
        .map(|_| {
            let x = at;
            at += 20 + s.below(40) as u32;
            x
        })
        .collect()
}

struct Case {
    kinds: Vec<Kind>,
    acts: Vec<Act>,
    start: jiff::civil::DateTime,
    hours: i64,
    steps: usize,
    size: usize,
    /// The variable that limits the flow of the system
    limit: Option<usize>,
    doc: Value,
    /// For each profile: how far its days may be moved, and the bounds of its values
    ranges: Vec<(Option<u32>, Option<f64>, Option<f64>)>,
}

fn make(s: &mut Src, constants: bool) -> Case {
    let steps = s.size(1, 7);
    let size = s.size(1, 4);
    let hours = *s.pick(&[24, 24, 24 * 7, 6]);
    let start = gen_date(s).at(0, 0, 0, 0);
    let n = s.size(1, 4);
    let mut kinds = Vec::new();
    let mut params = Vec::new();
    let mut acts = Vec::new();
    let mut ranges = Vec::new();
    for i in 0..n {
        let act = Act::make(s);
        let active = s.chance(3, 4);
        let settings = json!({"is_active": active, "activation": act.json()});
        let name = format!("v{i}");
        let mut range = (None, None, None);
        let kind = match s.below(if constants { 3 } else { 2 }) {
            0 => {
                let base = match s.below(4) {
                    0 => Base::Lit(s.num(-5.0, 5.0, 0.25)),
                    1 => Base::Scenario((0..size).map(|_| s.num(-5.0, 5.0, 0.25)).collect()),
                    2 => Base::Monthly((0..12).map(|_| s.num(-5.0, 5.0, 0.25)).collect()),
                    _ if i > 0 => Base::Var(s.us(i)),
                    _ => Base::Lit(1.5),
                };
                let offset = s.num(-5.0, 5.0, 0.25);
                let metric = match &base {
                    Base::Lit(x) => lit(*x),
                    Base::Scenario(v) => {
                        params.push(json!({"meta": {"name": format!("b{i}")}, "type": "ConstantScenario", "values": {"type": "Literal", "values": v}, "scenario_group": "g"}));
                        par(&format!("b{i}"))
                    }
                    Base::Monthly(v) => {
                        params.push(json!({"meta": {"name": format!("b{i}")}, "type": "MonthlyProfile", "values": {"type": "Literal", "values": v}}));
                        par(&format!("b{i}"))
                    }
                    Base::Var(j) => par(&format!("v{j}")),
                };
                let mut p = json!({"meta": {"name": name}, "type": "Offset", "metric": metric, "offset": {"type": "Literal", "value": offset}});
                if s.bool() {
                    p["variable"] = settings;
                }
                params.push(p);
                Kind::Offset(base, offset)
            }
            1 => {
                let k = s.size(1, 5);
                let xs = days(s, k);
                let pts: Vec<(u32, f64)> = xs.into_iter().map(|x| (x, s.num(-5.0, 5.0, 0.25))).collect();
                let e = s.num(0.01, 0.05, 0.005);
                let f = *s.pick(&[Rb::Linear, Rb::Cubic, Rb::Quintic, Rb::Thin, Rb::Gauss(e), Rb::Mq(e), Rb::Imq(e)]);
                let mut p = json!({"meta": {"name": name}, "type": "RbfProfile", "points": pts, "function": rb_json(f)});
                range = (
                    if s.bool() { Some(*s.pick(&[0, 1, 5, 30, 400, u32::MAX])) } else { None },
                    if s.bool() { Some(s.num(0.0, 9.0, 0.5)) } else { None },
                    if s.bool() { Some(s.num(-9.0, 0.0, 0.5)) } else { None },
                );
                if s.bool() {
                    let mut v = json!({"is_active": active});
                    for (key, x) in [("days_of_year_range", range.0.map(|x| json!(x))), ("value_upper_bounds", range.1.map(|x| json!(x))), ("value_lower_bounds", range.2.map(|x| json!(x)))] {
                        if let Some(x) = x {
                            v[key] = x;
                        }
                    }
                    p["variable"] = v;
                }
                params.push(p);
                Kind::Rbf(pts, f)
            }
            _ => {
                let v = s.num(-5.0, 5.0, 0.25);
                let mut p = json!({"meta": {"name": name}, "type": "Constant", "value": {"type": "Literal", "value": v}});
                if s.bool() {
                    p["variable"] = settings;
                }
                params.push(p);
                Kind::Constant(v)
            }
        };
        kinds.push(kind);
        acts.push(act);
        ranges.push(range);
    }
    let total: Vec<Value> = (0..n).map(|i| par(&format!("v{i}"))).collect();
    params.push(json!({"meta": {"name": "total"}, "type": "Aggregated", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": total}));
    let limit = if s.bool() { Some(s.us(n)) } else { None };
    let mut input = json!({"meta": {"name": "in"}, "type": "Input", "max_flow": lit(3.0)});
    if let Some(i) = limit {
        params.push(json!({"meta": {"name": "limit"}, "type": "Max", "parameter": par(&format!("v{i}")), "threshold": 0.0}));
        input["max_flow"] = par("limit");
    }
    let net = json!({
        "nodes": [input, {"meta": {"name": "out"}, "type": "Output", "cost": lit(-1.0)}],
        "edges": [{"from_node": "in", "to_node": "out"}],
        "parameters": params,
    });
    let doc = document(time_section(start, hours, steps), Some(json!({"groups": [{"name": "g", "size": size}]})), net);
    Case { kinds, acts, start, hours, steps, size, limit, doc, ranges }
}

/// The points of a profile as they are now
fn points(pts: &[(u32, f64)], now: &Now) -> Vec<(u32, f64)> {
    pts.iter()
        .enumerate()
        .map(|(i, p)| (now.xs.as_ref().map(|x| x[i]).unwrap_or(p.0), now.ys.as_ref().map(|y| y[i]).unwrap_or(p.1)))
        .collect()
}

impl Case {
    fn expect(&self, i: usize, now: &[Vec<Now>], t: usize, k: usize, constants: &[f64]) -> V {
        let date = self.start.checked_add((self.hours * t as i64).hours()).unwrap();
        let plain = |v: f64| V { v, exact: false, known: true, mag: v.abs() };
        match &self.kinds[i] {
            Kind::Constant(_) => plain(constants[i]),
            Kind::Offset(b, o) => {
                let base = match b {
                    Base::Lit(x) => plain(*x),
                    Base::Scenario(v) => plain(v[k]),
                    Base::Monthly(v) => plain(v[date.month() as usize - 1]),
                    Base::Var(j) => self.expect(*j, now, t, k, constants),
                };
                let o = now[i][k].value.unwrap_or(*o);
                V { v: base.v + o, mag: base.mag + o.abs(), ..base }
            }
            Kind::Rbf(pts, f) => rbf(&points(pts, &now[i][k]), *f, date.date()),
        }
    }
}

/// One state of the model, and what has been done to it
struct Run {
    state: ModelState<Vec<Box<HighsSolver>>>,
    timings: NetworkTimings,
    now: Vec<Vec<Now>>,
    done: usize,
}

fn settings_of(c: &Case, i: usize) -> Result<(ActivationFunction, RbfProfileVariableConfig), Fail> {
    let a: sp::ActivationFunction = serde_json::from_value(c.acts[i].json()).map_err(|e| Fail { sig: "settings".into(), msg: e.to_string() })?;
    let (range, up, lo) = c.ranges[i];
    let mut v = json!({"is_active": true});
    for (key, x) in [("days_of_year_range", range.map(|x| json!(x))), ("value_upper_bounds", up.map(|x| json!(x))), ("value_lower_bounds", lo.map(|x| json!(x)))] {
        if let Some(x) = x {
            v[key] = x;
        }
    }
    let r: sp::RbfProfileVariableSettings = serde_json::from_value(v).map_err(|e| Fail { sig: "settings".into(), msg: e.to_string() })?;
    Ok((a.into(), r.into()))
}

fn history(s: &mut Src, info: &mut Info, constants: bool) -> Result<(), Fail> {
    let c = make(s, constants);
    info.desc(&c.doc);
    let n = c.kinds.len();
    let mut metrics: Vec<UnresolvedMetricF64> = (0..n)
        .map(|i| format!("v{i}"))
        .chain(["total".to_string()])
        .map(|x| UnresolvedMetricF64::ParameterValue { name: ParameterName::new(&x, None), return_value: ParameterReturnValue::Before })
        .collect();
    metrics.push(UnresolvedMetricF64::NodeOutFlow("in".into()));
    let (model, data): (Model, _) = match probed(&c.doc, None, metrics, vec![]) {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("{e}: {}", c.doc)),
    };
    let mut log = String::new();
    let r = guarded(|| go(s, info, &c, &model, &data, &mut log));
    match r {
        Ok(r) => r.map_err(|f| Fail { sig: f.sig, msg: format!("{}\n{log}{}", f.msg, c.doc) }),
        Err(e) => fail("panic", format!("panic: {e}\n{log}{}", c.doc)),
    }
}

fn close(got: f64, want: V) -> bool {
    !want.known || (got - want.v).abs() <= 1e-7 * (1.0 + want.mag.abs())
}

fn go(s: &mut Src, info: &mut Info, c: &Case, model: &Model, data: &crate::sim::ProbeData, log: &mut String) -> Result<(), Fail> {
    let n = c.kinds.len();
    let net = model.network();
    let index: Vec<_> = (0..n)
        .map(|i| net.get_parameter_index_by_name(&ParameterName::new(&format!("v{i}"), None)))
        .collect::<Option<Vec<_>>>()
        .ok_or(Fail { sig: "no-parameter".into(), msg: String::new() })?;
    let total = net.get_parameter_index_by_name(&ParameterName::new("total", None)).unwrap();
    let mut configs = Vec::new();
    for i in 0..n {
        configs.push(settings_of(c, i)?);
    }
    // Sizes and bounds
    for i in 0..n {
        let p = net.get_parameter(index[i]).unwrap();
        let Some(v) = p.as_f64_variable() else { return fail("no-variable", format!("v{i} is no variable")) };
        match &c.kinds[i] {
            Kind::Rbf(pts, _) => {
                let cfg = &configs[i].1;
                let (range, up, lo) = c.ranges[i];
                check!(v.size(cfg) == pts.len(), "size", "v{i}: {}", v.size(cfg));
                let want = Some(vec![lo.unwrap_or(0.0); pts.len()]);
                check!(v.get_lower_bounds(cfg) == want, "lower-bound", "v{i}: {:?}, not {want:?}", v.get_lower_bounds(cfg));
                let want = Some(vec![up.unwrap_or(f64::INFINITY); pts.len()]);
                check!(v.get_upper_bounds(cfg) == want, "upper-bound", "v{i}: {:?}, not {want:?}", v.get_upper_bounds(cfg));
                let Some(u) = p.as_u32_variable() else { return fail("no-variable", format!("v{i} has no days")) };
                check!(u.size(cfg) == if range.is_some() { pts.len() } else { 0 }, "size", "days of v{i}: {}", u.size(cfg));
                let want = range.map(|r| pts.iter().map(|p| (p.0 as i64 - r as i64).max(1) as u32).collect::<Vec<u32>>());
                check!(u.get_lower_bounds(cfg) == want, "lower-bound", "days of v{i}: {:?}, not {want:?}", u.get_lower_bounds(cfg));
                let want = range.map(|r| pts.iter().map(|p| (p.0 as i64 + r as i64).min(365) as u32).collect::<Vec<u32>>());
                check!(u.get_upper_bounds(cfg) == want, "upper-bound", "days of v{i}: {:?}, not {want:?}", u.get_upper_bounds(cfg));
            }
            _ => {
                let cfg = &configs[i].0;
                let (lo, up) = c.acts[i].bounds();
                check!(v.size(cfg) == 1, "size", "v{i}: {}", v.size(cfg));
                check!(v.get_lower_bounds(cfg) == Some(vec![lo]), "lower-bound", "v{i}: {:?}, not {lo}", v.get_lower_bounds(cfg));
                check!(v.get_upper_bounds(cfg) == Some(vec![up]), "upper-bound", "v{i}: {:?}, not {up}", v.get_upper_bounds(cfg));
                check!(p.as_u32_variable().is_none(), "days", "v{i} has days");
            }
        }
    }
    let scenarios = model.domain().scenarios().indices();
    check!(scenarios.len() == c.size, "scenarios", "{}", scenarios.len());
    let settings = HighsSolverSettings::default();
    let mut runs = Vec::new();
    for _ in 0..s.size(1, 2) {
        let state = model.setup::<HighsSolver>(&settings).map_err(|e| Fail { sig: "setup".into(), msg: full(&e) })?;
        runs.push(Run { state, timings: if s.bool() { NetworkTimings::new_with_component_timings(net) } else { NetworkTimings::new_without_component_timings() }, now: vec![vec![Now::default(); c.size]; n], done: 0 });
    }
    if runs.len() > 1 {
        info.label("two-states");
    }
    let mut rows = 0;
    let mut later: Option<Fail> = None;
    let mut changed = false;
    while runs.iter().any(|r| r.done < c.steps) {
        let which = s.us(runs.len());
        if runs[which].done >= c.steps {
            runs.swap(0, which);
            let q = runs.iter().position(|r| r.done < c.steps).unwrap();
            runs.swap(which, q);
        }
        let which = runs.iter().position(|r| r.done < c.steps).map(|p| if runs[which].done < c.steps { which } else { p }).unwrap();
        // Some values are set
        for _ in 0..s.size(0, 3) {
            let i = s.us(n);
            let one = if s.bool() { Some(s.us(c.size)) } else { None };
            let r = &mut runs[which];
            let targets: Vec<usize> = one.map(|k| vec![k]).unwrap_or((0..c.size).collect());
            match &c.kinds[i] {
                Kind::Rbf(pts, _) => {
                    let cfg = &configs[i].1;
                    let k = pts.len();
                    if s.bool() {
                        let wrong = s.chance(1, 8);
                        let ys: Vec<f64> = (0..if wrong { k + 1 } else { k }).map(|_| s.num(-5.0, 5.0, 0.25)).collect();
                        *log += &format!("state {which} before step {}: v{i}{} = {ys:?}\n", r.done, one.map(|k| format!(" in {k}")).unwrap_or_default());
                        let st = r.state.network_state_mut();
                        let done = match one {
                            Some(k) => net.set_f64_parameter_variable_values_for_scenario(index[i], scenarios[k].clone(), &ys, cfg, st),
                            None => net.set_f64_parameter_variable_values(index[i], &ys, cfg, st),
                        };
                        check!(done.is_ok() != wrong, "set", "v{i}: {done:?}");
                        if !wrong {
                            for k in targets {
                                r.now[i][k].ys = Some(ys.clone());
                            }
                        } else {
                            info.label("wrong-count");
                        }
                    } else {
                        let how = s.below(8);
                        let mut xs = days(s, if how == 0 { k + 1 } else { k });
                        if how == 1 && k > 1 {
                            xs[1] = xs[0];
                            info.label("same-day-twice");
                        }
                        let wrong = how == 0 || how == 1 && k > 1;
                        *log += &format!("state {which} before step {}: days of v{i}{} = {xs:?}\n", r.done, one.map(|k| format!(" in {k}")).unwrap_or_default());
                        let st = r.state.network_state_mut();
                        let done = match one {
                            Some(k) => net.set_u32_parameter_variable_values_for_scenario(index[i], scenarios[k].clone(), &xs, cfg, st),
                            None => net.set_u32_parameter_variable_values(index[i], &xs, cfg, st),
                        };
                        check!(done.is_ok() != wrong, "set", "days of v{i}: {done:?}");
                        if !wrong {
                            info.label("days-moved");
                            for k in targets {
                                r.now[i][k].xs = Some(xs.clone());
                            }
                        }
                    }
                }
                kind => {
                    let cfg = &configs[i].0;
                    let wrong = s.chance(1, 8);
                    let x = s.num(-9.0, 9.0, 0.125) * *s.pick(&[1.0, 0.125]);
                    let xs = if wrong { vec![x; *s.pick(&[0, 2])] } else { vec![x] };
                    *log += &format!("state {which} before step {}: v{i}{} = {xs:?} through {:?}\n", r.done, one.map(|k| format!(" in {k}")).unwrap_or_default(), c.acts[i]);
                    let st = r.state.network_state_mut();
                    let done = match one {
                        Some(k) => net.set_f64_parameter_variable_values_for_scenario(index[i], scenarios[k].clone(), &xs, cfg, st),
                        None => net.set_f64_parameter_variable_values(index[i], &xs, cfg, st),
                    };
                    check!(done.is_ok() != wrong, "set", "v{i}: {done:?}");
                    if !wrong {
                        for k in targets {
                            r.now[i][k].value = Some(c.acts[i].value(x));
                        }
                        info.label(if matches!(kind, Kind::Constant(_)) { "constant" } else { "offset" });
                    } else {
                        info.label("wrong-count");
                    }
                    let st = r.state.network_state_mut();
                    check!(net.set_u32_parameter_variable_values(index[i], &[1], cfg, st).is_err(), "days", "the days of v{i} were set");
                }
            }
            changed |= r.done > 0;
            check!(net.set_f64_parameter_variable_values(total, &[1.0], &configs[i].0, r.state.network_state_mut()).is_err(), "total", "a sum is no variable");
        }
        // What is said to be set
        for (q, r) in runs.iter().enumerate() {
            let st = r.state.network_state();
            for i in 0..n {
                let all = net.get_f64_parameter_variable_values(index[i], st).map_err(|e| Fail { sig: "get".into(), msg: full(&e) })?;
                check!(all.len() == c.size, "get", "values of {} scenarios", all.len());
                for k in 0..c.size {
                    let now = &r.now[i][k];
                    let want = match &c.kinds[i] {
                        Kind::Rbf(..) => now.ys.clone(),
                        _ => now.value.map(|v| vec![v]),
                    };
                    let one = net.get_f64_parameter_variable_values_for_scenario(index[i], scenarios[k].clone(), st).map_err(|e| Fail { sig: "get".into(), msg: full(&e) })?;
                    for got in [&all[k], &one] {
                        let same = match (got, &want) {
                            (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-12 * (1.0 + y.abs())),
                            (None, None) => true,
                            _ => false,
                        };
                        check!(same, "get", "state {q}: v{i} in scenario {k} is said to be {got:?}, not {want:?}");
                    }
                    if let Kind::Rbf(..) = c.kinds[i] {
                        let got = net.get_u32_parameter_variable_values_for_scenario(index[i], scenarios[k].clone(), st).map_err(|e| Fail { sig: "get".into(), msg: full(&e) })?;
                        check!(got == now.xs, "get-days", "state {q}: the days of v{i} in scenario {k} are said to be {got:?}, not {:?}", now.xs);
                    }
                }
            }
        }
        // One step
        let r = &mut runs[which];
        if let Err(e) = model.step::<HighsSolver>(&mut r.state, None, &mut r.timings) {
            return fail("step", full(&e));
        }
        *log += &format!("state {which}: step {}\n", r.done);
        let t = data.table();
        check!(t.len() == rows + 1, "rows", "{} rows were recorded, not {}", t.len(), rows + 1);
        let (at, date, _) = data.steps.lock().unwrap()[rows];
        check!(at == r.done, "order", "step {at} ({date}) instead of {}", r.done);
        for k in 0..c.size {
            let row = &t[rows][k];
            let mut constants = vec![0.0; n];
            for i in 0..n {
                if let Kind::Constant(v) = c.kinds[i] {
                    let want = r.now[i][k].value.unwrap_or(v);
                    constants[i] = row[i];
                    if row[i] != want && (row[i] - want).abs() > 1e-12 * (1.0 + want.abs()) {
                        let sig = if row[i] == v { "constant-variable-without-effect" } else { "value" };
                        let f = Fail { sig: sig.into(), msg: format!("v{i} was set to {want} in scenario {k}, and is {} at step {}", row[i], r.done) };
                        if sig == "value" {
                            return Err(f);
                        }
                        later.get_or_insert(f);
                    }
                }
            }
            let mut sum = V { v: 0.0, exact: false, known: true, mag: 0.0 };
            for i in 0..n {
                let w = c.expect(i, &r.now, r.done, k, &constants);
                check!(close(row[i], w), "value", "v{i} is {} in scenario {k} at step {}, not {}", row[i], r.done, w.v);
                sum.v += row[i];
                sum.mag += row[i].abs();
            }
            check!(close(row[n], sum), "dependent", "the sum is {} in scenario {k} at step {}, not {}", row[n], r.done, sum.v);
            let most = c.limit.map(|i| row[i].max(0.0)).unwrap_or(3.0);
            check!((row[n + 1] - most).abs() <= 1e-6 * (1.0 + most), "flow", "the flow is {} in scenario {k} at step {}, not {most}", row[n + 1], r.done);
        }
        rows += 1;
        r.done += 1;
    }
    if changed {
        info.label("changed-between-steps");
    }
    info.nontrivial = runs.iter().any(|r| r.now.iter().flatten().any(|n| n.value.is_some() || n.xs.is_some() || n.ys.is_some()));
    // There are no more steps
    for r in runs.iter_mut() {
        check!(model.step::<HighsSolver>(&mut r.state, None, &mut r.timings).is_err(), "too-many-steps", "step {} was run", c.steps);
    }
    match later {
        Some(f) => Err(f),
        None => Ok(()),
    }
}

fn run_history(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    history(s, info, false)
}

fn run_constants(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    history(s, info, true)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "at least one variable was set before the run was over",
        arms: vec![
            Arm { name: "history", quick: 20000, thorough: 600000, run: run_history },
            Arm { name: "constants", quick: 1000, thorough: 20000, run: run_constants },
        ],
    }]
}
