//! C01..C05: what every completed timestep of a generated system must satisfy.

use crate::check;
use crate::lp::{self, Out};
use crate::runner::{Fail, Info, Prop, Arm, fail, guarded};
use crate::sim::*;
use crate::src::Src;
use pywr_core::solvers::{HighsSolver, HighsSolverSettings, MicroLpSolver, SimdIpmF64Solver};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sol {
    Highs,
    Micro,
    Ipm,
}

/// Run the model; Err carries the error or panic text.
pub fn run_model(model: &pywr_core::models::Model, sol: Sol) -> Result<(), String> {
    let r = guarded(|| match sol {
        Sol::Highs => model.run::<HighsSolver>(&HighsSolverSettings::default()).map(|_| ()).map_err(|e| full(&e)),
        Sol::Micro => model.run::<MicroLpSolver>(&Default::default()).map(|_| ()).map_err(|e| full(&e)),
        Sol::Ipm => model.run_multi_scenario::<SimdIpmF64Solver>(&Default::default()).map(|_| ()).map_err(|e| full(&e)),
    });
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// The interior point solver says that it can not solve a system.
pub fn unsolved(e: &str) -> bool {
    ["NaN encountered", "failed to converge", "Non-finite flow"].iter().any(|x| e.contains(x))
}

/// An error with its sources.
pub fn full(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        s.push_str(": ");
        s.push_str(&x.to_string());
        c = x.source();
    }
    s
}

pub struct Observed {
    pub table: Table,
    pub cols: Cols,
    pub outcome: Result<(), String>,
}

pub fn observe(spec: &Spec, sol: Sol) -> Result<Observed, Fail> {
    let (model, data, cols) = match guarded(|| build_model(spec)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return fail("build", format!("valid system was rejected: {e}")),
        Err(p) => return fail("build-panic", format!("building a valid system panicked: {p}")),
    };
    let outcome = run_model(&model, sol);
    Ok(Observed { table: data.table(), cols, outcome })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Class {
    Balance,
    Limits,
    Optimal,
    Outcome,
    Storage,
    Virtual,
    Agg,
}

pub struct Stats {
    pub steps: usize,
    pub binding: usize,
    pub vs_resets: usize,
    pub vs_binding: usize,
    pub moved: bool,
    pub agg_binding: usize,
    pub vol_edge: usize,
    pub infeasible_rejected: bool,
    pub tight_cost: usize,
}

fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

/// All disagreements between the run and the reference.
pub fn verify(spec: &Spec, ob: &Observed, tol: f64) -> (Vec<(Class, String)>, Stats) {
    let mut bad: Vec<(Class, String)> = Vec::new();
    let mut st = Stats {
        steps: 0,
        binding: 0,
        vs_resets: 0,
        vs_binding: 0,
        moved: false,
        agg_binding: 0,
        vol_edge: 0,
        infeasible_rejected: false,
        tight_cost: 0,
    };
    let ne = spec.edges.len();
    let ns = spec.scenarios();
    let c = &ob.cols;
    let dt = spec.days();
    // relative gap at which HiGHS stops an integer programme
    let mip_gap = if spec.integer() { 1.1e-4 } else { 0.0 };
    let done = ob.table.len();
    if ob.outcome.is_ok() && done != spec.t {
        bad.push((Class::Outcome, format!("{done} timesteps were recorded, expected {}", spec.t)));
        return (bad, st);
    }
    let mut clear_at_failure = 0;
    for sim in 0..ns {
        let gi = spec.gi(sim);
        let mut vs: Vec<VsModel> = spec.vss.iter().map(|_| VsModel::new()).collect();
        let mut vol: Vec<f64> = spec
            .nodes
            .iter()
            .map(|n| if n.kind == Kind::Storage { n.init.volume(volume_limits(n, 0, gi).1) } else { f64::NAN })
            .collect();
        for t in 0..spec.t {
            let mut start = Start { vol: vol.clone(), vs: vec![] };
            let mut out_of_limits = false;
            for (k, v) in spec.vss.iter().enumerate() {
                let (x, reset) = vs[k].before(v, spec, t, gi);
                st.vs_resets += reset as usize;
                start.vs.push(x);
                let lo = v.min.as_ref().map(|m| m.at(t, gi)).unwrap_or(0.0);
                out_of_limits |= x < lo - 1e-9 || x > v.max.at(t, gi) + 1e-9;
            }
            for (i, n) in spec.nodes.iter().enumerate() {
                if n.kind == Kind::Storage {
                    let (lo, hi) = volume_limits(n, t, gi);
                    out_of_limits |= vol[i] < lo - 1e-9 || vol[i] > hi + 1e-9;
                }
            }
            let lp = step_lp(spec, t, sim, &start);
            let best = lp::solve(&lp);
            if t == done {
                // The run stopped here.
                match &best {
                    Out::Optimal { .. } if !out_of_limits => clear_at_failure += 1,
                    Out::Infeasible(r) if *r > 1e-5 => st.infeasible_rejected = true,
                    _ => clear_at_failure -= 1000,
                }
                if st.infeasible_rejected {
                    clear_at_failure -= 1000;
                }
                break;
            }
            if matches!(best, Out::Unbounded) {
                // Nothing is promised about an allocation whose cost has no minimum.
                clear_at_failure -= 1000;
                break;
            }
            st.steps += 1;
            let row = &ob.table[t][sim];
            let at = |k: &str, i: usize| row[c.get(&format!("{k}{i}"))];
            let x: Vec<f64> = (0..ne).map(|e| at("e", e)).collect();
            let here = format!("t={t} scenario={sim}");
            if x.iter().any(|v| !v.is_finite()) {
                bad.push((Class::Balance, format!("{here}: non-finite edge flow {x:?}")));
                continue;
            }
            st.moved |= x.iter().any(|v| *v > 1e-6);
            // what parameters see at the start of a timestep is how the last one ended
            if ob.cols.has("sagv0") {
                let hi = |i: usize, t: usize| volume_limits(&spec.nodes[i], t, gi).1;
                let ratio = |v: f64, m: f64| if m == 0.0 { 1.0 } else { v / m };
                let last = t.saturating_sub(1);
                let mut seen = |k: String, want: f64| {
                    if !close(row[c.get(&k)], want, 2e-6) {
                        bad.push((Class::Storage, format!("{here}: {k} is {}, expected {want}", row[c.get(&k)])));
                    }
                };
                for (k, g) in storage_groups(spec).iter().enumerate() {
                    let total: f64 = g.iter().map(|i| start.vol[*i]).sum();
                    seen(format!("sagv{k}"), total);
                    seen(format!("sagp{k}"), ratio(total, g.iter().map(|i| hi(*i, last)).sum()));
                    let total: f64 = g.iter().map(|i| at("vol", *i)).sum();
                    seen(format!("agv{k}"), total);
                    seen(format!("agp{k}"), ratio(total, g.iter().map(|i| hi(*i, t)).sum()));
                    for i in g {
                        seen(format!("svol{i}"), start.vol[*i]);
                        seen(format!("spvol{i}"), ratio(start.vol[*i], hi(*i, last)));
                    }
                }
            }
            // reported node flows are the flows of their edges
            for (i, n) in spec.nodes.iter().enumerate() {
                let fin: f64 = spec.ins(i).map(|e| x[e]).sum();
                let fout: f64 = spec.outs(i).map(|e| x[e]).sum();
                if !close(at("in", i), fin, tol) || !close(at("out", i), fout, tol) {
                    bad.push((
                        Class::Balance,
                        format!("{here}: node {} reports in {} out {}, its edges carry in {fin} out {fout}", n.name, at("in", i), at("out", i)),
                    ));
                }
                if n.kind == Kind::Storage {
                    let want = vol[i] + (fin - fout) * dt;
                    let got = at("vol", i);
                    let (lo, hi) = volume_limits(n, t, gi);
                    if !close(got, want, tol.max(2e-6)) {
                        bad.push((Class::Storage, format!("{here}: volume of {} is {got}, expected {} + ({fin} - {fout}) * {dt} = {want}", n.name, vol[i])));
                    }
                    if got < lo - 1e-5 || got > hi + 1e-5 {
                        bad.push((Class::Storage, format!("{here}: volume {got} of {} outside [{lo}, {hi}]", n.name)));
                    }
                    let p = if hi == 0.0 { 1.0 } else { got / hi };
                    if !close(at("pvol", i), p, 1e-6) {
                        bad.push((Class::Storage, format!("{here}: proportional volume of {} is {}, expected {p}", n.name, at("pvol", i))));
                    }
                    if !close(at("mvol", i), hi, 1e-9) {
                        bad.push((Class::Storage, format!("{here}: max volume of {} is {}, expected {hi}", n.name, at("mvol", i))));
                    }
                    if (got - lo).abs() < 1e-6 || (got - hi).abs() < 1e-6 {
                        st.vol_edge += 1;
                    }
                    vol[i] = got;
                }
            }
            for (k, a) in spec.aggs.iter().enumerate() {
                let fin: f64 = a.groups.iter().flatten().flat_map(|i| spec.ins(*i)).map(|e| x[e]).sum();
                let fout: f64 = a.groups.iter().flatten().flat_map(|i| spec.outs(*i)).map(|e| x[e]).sum();
                if !close(at("ain", k), fin, tol) || !close(at("aout", k), fout, tol) {
                    bad.push((Class::Agg, format!("{here}: {} reports in {} out {}, members carry {fin} / {fout}", a.name, at("ain", k), at("aout", k))));
                }
            }
            // feasibility
            for r in &lp.rows {
                if r.what.starts_with("active") || r.what.contains("when active") {
                    continue;
                }
                let s: f64 = r.a.iter().map(|(j, a)| a * x[*j]).sum();
                let mag = 1.0 + r.a.iter().map(|(j, a)| (a * x[*j]).abs()).fold(0.0, f64::max);
                let v = ((r.lo - s) / mag).max((s - r.hi) / mag);
                let binding = (s - r.lo).abs() < 1e-6 || (s - r.hi).abs() < 1e-6;
                let class = if r.what.starts_with("mass") {
                    Class::Balance
                } else if r.what.contains("virtual storage") {
                    st.vs_binding += binding as usize;
                    Class::Virtual
                } else if r.what.contains("agg") {
                    st.agg_binding += (binding && s.abs() > 1e-6) as usize;
                    Class::Agg
                } else if r.what.starts_with("volume") {
                    Class::Storage
                } else {
                    st.binding += (binding && r.lo != r.hi && s.abs() > 1e-6) as usize;
                    Class::Limits
                };
                if v > tol {
                    bad.push((class, format!("{here}: {}: {s} not in [{}, {}]", r.what, r.lo, r.hi)));
                }
            }
            if !lp.bins.is_empty() {
                let (v, what) = lp::violation(&lp, &x);
                if v > tol && !bad.iter().any(|b| b.1.starts_with(&here)) {
                    bad.push((Class::Agg, format!("{here}: no choice of active members explains the flows {x:?}: {what}")));
                }
                st.agg_binding += 1;
            }
            for (j, v) in x.iter().enumerate() {
                if *v < -tol {
                    bad.push((Class::Limits, format!("{here}: edge {j} carries negative flow {v}")));
                }
            }
            // optimality
            let obj: f64 = x.iter().zip(&lp.c).map(|(a, b)| a * b).sum();
            let scale = 1.0 + x.iter().zip(&lp.c).map(|(a, b)| (a * b).abs()).sum::<f64>();
            match &best {
                Out::Optimal { obj: o, x: bx } => {
                    if obj > o + 3.0 * tol * scale + mip_gap * o.abs() {
                        bad.push((
                            Class::Optimal,
                            format!("{here}: allocation costs {obj} but {o} is possible\n flows {x:?}\n better {:?}\n edge costs {:?}", &bx[..ne], &lp.c[..ne]),
                        ));
                    }
                    if o.abs() > 1e-6 {
                        st.tight_cost += 1;
                    }
                }
                Out::Infeasible(r) if *r > 1e-5 && bad.is_empty() => {
                    bad.push((Class::Outcome, format!("{here}: a timestep without any allowed allocation (violation {r}) was accepted, flows {x:?}")));
                }
                _ => {}
            }
            for (k, v) in spec.vss.iter().enumerate() {
                vs[k].after(v, spec, t, &|i| match spec.nodes[i].kind {
                    Kind::Output => spec.ins(i).map(|e| x[e]).sum(),
                    _ => spec.outs(i).map(|e| x[e]).sum(),
                });
                let got = at("vsv", k);
                if !close(got, vs[k].volume, tol.max(2e-6)) {
                    bad.push((
                        Class::Virtual,
                        format!("{here}: volume of {} is {got}, accounting gives {} (start of step {})", v.name, vs[k].volume, start.vs[k]),
                    ));
                }
                let hi = v.max.at(t, gi);
                let p = if hi == 0.0 { 1.0 } else { got / hi };
                if !close(at("vsp", k), p, 1e-6) {
                    bad.push((Class::Virtual, format!("{here}: proportional volume of {} is {}, expected {p}", v.name, at("vsp", k))));
                }
                vs[k].volume = got;
            }
        }
    }
    if let Err(e) = &ob.outcome {
        if done < spec.t && clear_at_failure == ns as i64 {
            bad.push((Class::Outcome, format!("the run failed at timestep {done} although every scenario has an allowed allocation: {e}")));
        }
        if done >= spec.t {
            bad.push((Class::Outcome, format!("the run failed after its last timestep: {e}")));
        }
    }
    (bad, st)
}

fn sig(c: Class) -> &'static str {
    match c {
        Class::Balance => "mass-balance",
        Class::Limits => "flow-limits",
        Class::Optimal => "optimality",
        Class::Outcome => "outcome",
        Class::Storage => "storage",
        Class::Virtual => "virtual-storage",
        Class::Agg => "aggregated-node",
    }
}

fn decide(spec: &Spec, sol: Sol, tol: f64, classes: &[Class], info: &mut Info) -> Result<Stats, Fail> {
    info.desc(spec.show());
    let ob = observe(spec, sol)?;
    let (bad, st) = verify(spec, &ob, tol);
    info.count("timesteps", st.steps as u64);
    match &ob.outcome {
        Ok(()) => info.label("completed"),
        Err(e) => {
            info.label("stopped");
            if st.infeasible_rejected {
                info.label("infeasible-rejected");
            }
            info.desc(format!("stopped: {e}"));
        }
    }
    if let Some((c, m)) = bad.iter().find(|b| classes.contains(&b.0)) {
        if sol == Sol::Highs && spec.integer() {
            // Integer programmes: HiGHS itself occasionally rejects or misses a feasible point of these tiny
            // problems. What pywr builds is at fault only if the other solver, given the same rows, agrees.
            info.label("second-opinion");
            let ob2 = observe(spec, Sol::Micro)?;
            let (bad2, _) = verify(spec, &ob2, tol);
            return match bad2.iter().find(|b| classes.contains(&b.0)) {
                Some((c2, m2)) => fail(sig(*c2), format!("{m}\n and with microlp: {m2}")),
                None => Ok(st),
            };
        }
        return fail(sig(*c), m.clone());
    }
    Ok(st)
}

// ------------------------------------------------------------------ C01

fn c01_general(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let spec = gen_spec(s, &GenOpts { aggs: 1, vss: 1, ..Default::default() });
    let st = decide(&spec, Sol::Highs, 1e-6, &[Class::Balance, Class::Limits, Class::Storage, Class::Agg, Class::Virtual], info)?;
    info.nontrivial = st.moved && st.binding > 0;
    Ok(())
}

fn c01_micro(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let spec = gen_spec(s, &GenOpts { aggs: 1, vss: 1, min_flows: false, ..Default::default() });
    let st = decide(&spec, Sol::Micro, 1e-6, &[Class::Balance, Class::Limits, Class::Storage, Class::Agg, Class::Virtual], info)?;
    info.nontrivial = st.moved && st.binding > 0;
    Ok(())
}

// ------------------------------------------------------------------ C02

fn c02_flow(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let spec = gen_spec(s, &GenOpts { aggs: 0, vss: 0, ..Default::default() });
    let st = decide(&spec, Sol::Highs, 1e-6, &[Class::Optimal, Class::Outcome], info)?;
    info.nontrivial = st.tight_cost > 0 || st.infeasible_rejected;
    Ok(())
}

fn c02_full(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let spec = gen_spec(s, &GenOpts { aggs: 2, vss: 2, ..Default::default() });
    let st = decide(&spec, Sol::Highs, 1e-6, &[Class::Optimal, Class::Outcome], info)?;
    info.nontrivial = st.tight_cost > 0 || st.infeasible_rejected;
    Ok(())
}

fn c02_micro(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let spec = gen_spec(s, &GenOpts { aggs: 1, vss: 1, min_flows: false, ..Default::default() });
    let st = decide(&spec, Sol::Micro, 1e-6, &[Class::Optimal, Class::Outcome], info)?;
    info.nontrivial = st.tight_cost > 0 || st.infeasible_rejected;
    Ok(())
}

// ------------------------------------------------------------------ C03

fn c03_storage(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let o = GenOpts { storages: 3, aggs: 0, vss: 0, max_t: 10, ..Default::default() };
    let spec = gen_spec(s, &o);
    let st = decide(&spec, Sol::Highs, 1e-6, &[Class::Storage], info)?;
    info.nontrivial = st.vol_edge > 0 && st.moved;
    Ok(())
}

// ------------------------------------------------------------------ C04

fn c04_virtual(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let o = GenOpts { storages: 1, aggs: 0, vss: 3, max_t: 14, max_s: 2, subdaily: s.chance(1, 4), min_flows: false, ..Default::default() };
    let spec = gen_spec(s, &o);
    let st = decide(&spec, Sol::Highs, 1e-6, &[Class::Virtual], info)?;
    info.nontrivial = !spec.vss.is_empty() && st.vs_binding > 0;
    if st.vs_resets > 0 {
        info.label("reset");
    }
    if spec.vss.iter().any(|v| v.window.is_some()) {
        info.label("rolling-window");
    }
    Ok(())
}

// ------------------------------------------------------------------ C05

fn c05_factors(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let o = GenOpts { storages: 1, aggs: 3, vss: 0, min_flows: s.chance(1, 4), ..Default::default() };
    let spec = gen_spec(s, &o);
    let st = decide(&spec, Sol::Highs, 1e-6, &[Class::Agg, Class::Optimal, Class::Outcome], info)?;
    info.nontrivial = st.agg_binding > 0;
    Ok(())
}

fn c05_exclusive(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let o = GenOpts { storages: 1, aggs: 2, vss: 0, exclusive: true, min_flows: s.bool(), ..Default::default() };
    let spec = gen_spec(s, &o);
    let st = decide(&spec, Sol::Highs, 1e-6, &[Class::Agg, Class::Optimal, Class::Outcome], info)?;
    info.nontrivial = st.agg_binding > 0;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "water moves and at least one flow limit is binding at a non-zero value",
            arms: vec![
                Arm { name: "highs", quick: 20000, thorough: 600000, run: c01_general },
                Arm { name: "microlp", quick: 8000, thorough: 250000, run: c01_micro },
            ],
        },
        Prop {
            id: "C02",
            rule: "some timestep has a non-zero optimal cost, or an infeasible timestep was rejected",
            arms: vec![
                Arm { name: "flow", quick: 12000, thorough: 400000, run: c02_flow },
                Arm { name: "full", quick: 12000, thorough: 400000, run: c02_full },
                Arm { name: "microlp", quick: 8000, thorough: 250000, run: c02_micro },
            ],
        },
        Prop {
            id: "C03",
            rule: "water moves and some storage touches one of its volume limits",
            arms: vec![Arm { name: "dynamics", quick: 20000, thorough: 600000, run: c03_storage }],
        },
        Prop {
            id: "C04",
            rule: "a virtual storage limits some timestep",
            arms: vec![Arm { name: "accounting", quick: 25000, thorough: 700000, run: c04_virtual }],
        },
        Prop {
            id: "C05",
            rule: "an aggregated node constraint binds at a non-zero flow (or a choice of active members exists)",
            arms: vec![
                Arm { name: "factors", quick: 20000, thorough: 600000, run: c05_factors },
                Arm { name: "exclusive", quick: 6000, thorough: 400000, run: c05_exclusive },
            ],
        },
    ]
}

#[allow(dead_code)]
fn _unused() -> Result<(), Fail> {
    check!(true, "x", "y");
    Ok(())
}

// ------------------------------------------------------------------ C26

/// A system with some room between its limits: no flow limit is zero, and nothing can be sent round in circles.
fn roomy(s: &mut Src, storages: usize, max_t: usize) -> Option<Spec> {
    let max_s = *s.pick(&[1, 2, 4, 5, 9]);
    let mut spec = gen_spec(s, &GenOpts { aggs: 0, vss: 0, min_flows: false, all_max: true, max_s, max_t, storages, ..Default::default() });
    for n in spec.nodes.iter_mut().filter(|n| n.kind != Kind::Storage) {
        for x in n.max.iter_mut().flat_map(|v| v.table.iter_mut().flatten()) {
            *x += 1.0;
        }
    }
    while let Some(i) = spec.edges.iter().position(|e| e.0 > e.1) {
        let (from, to) = spec.edges.remove(i);
        if !spec.edges.iter().any(|e| e.0 == from) || !spec.edges.iter().any(|e| e.1 == to) {
            return None;
        }
    }
    Some(spec)
}

const IPM_CLASSES: [Class; 4] = [Class::Balance, Class::Limits, Class::Storage, Class::Optimal];

/// What is reported is right. (A run that does not converge says so, and stops.)
fn c26_right(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let Some(spec) = roomy(s, 2, 6) else {
        info.label("circle");
        return Ok(());
    };
    let st = decide(&spec, Sol::Ipm, 1e-4, &IPM_CLASSES, info)?;
    if spec.scenarios() > 4 {
        info.label(if spec.scenarios() % 4 != 0 { "last-lanes-empty" } else { "several-batches" });
    }
    info.nontrivial = st.moved && st.binding > 0;
    Ok(())
}

/// Hardly any run stops.
fn c26_converges(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let mut stopped = Vec::new();
    let mut n = 0;
    while n < 8 {
        let Some(spec) = roomy(s, 0, 2) else { continue };
        n += 1;
        let mut one = Info::default();
        let st = decide(&spec, Sol::Ipm, 1e-4, &IPM_CLASSES, &mut one)?;
        info.nontrivial |= st.moved && st.binding > 0;
        if st.steps < spec.t {
            info.label("one-stopped");
            stopped.push(spec.show());
        }
    }
    info.desc(format!("{} of {n} stopped", stopped.len()));
    check!(stopped.len() < 4, "convergence", "{} of {n} systems of flows could not be solved:\n{}", stopped.len(), stopped.join("\n"));
    Ok(())
}

/// What it can not do is refused.
fn c26_refused(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let spec = gen_spec(s, &GenOpts { aggs: 1, vss: 1, min_flows: false, max_t: 2, ..Default::default() });
    info.desc(spec.show());
    if spec.aggs.is_empty() && spec.vss.is_empty() {
        return Ok(());
    }
    let ob = observe(&spec, Sol::Ipm)?;
    match &ob.outcome {
        Err(e) if !e.starts_with("panic") => check!(ob.table.is_empty(), "not-refused", "{} timesteps were recorded before: {e}", ob.table.len()),
        other => return fail("not-refused", format!("{other:?}\n{}", spec.show())),
    }
    info.label(if spec.vss.is_empty() { "aggregated-node" } else { "virtual-storage" });
    info.nontrivial = true;
    Ok(())
}

/// A minimum flow is kept to, or refused.
fn c26_minimum(s: &mut Src, info: &mut Info) -> Result<(), Fail> {
    let node = |name: &str, kind, max: f64, cost: f64| NodeSpec {
        name: name.into(),
        sub: None,
        kind,
        min: None,
        max: Some(Val::lit(max)),
        cost: Some(Val::lit(cost)),
        cost_agg: None,
        init: Init::Absolute(0.0),
    };
    let mut spec = Spec {
        start: gen_date(s),
        step_hours: 24,
        t: s.size(1, 2),
        sizes: [s.size(1, 5), 1],
        nodes: vec![node("in", Kind::Input, s.num(8.0, 20.0, 0.5), 1.0), node("link", Kind::Link, s.num(8.0, 20.0, 0.5), 0.0), node("out", Kind::Output, s.num(8.0, 20.0, 0.5), 0.0)],
        edges: vec![(0, 1), (1, 2)],
        aggs: vec![],
        vss: vec![],
    };
    let min = s.num(1.0, 6.0, 0.5);
    spec.nodes[s.us(3)].min = Some(Val::lit(min));
    info.desc(spec.show());
    info.nontrivial = true;
    let ob = observe(&spec, Sol::Ipm)?;
    if ob.outcome.is_err() {
        info.label("refused");
        return Ok(());
    }
    let (bad, _) = verify(&spec, &ob, 1e-4);
    match bad.into_iter().find(|b| b.0 != Class::Outcome) {
        Some((_, m)) => fail("minimum-flow-ignored", format!("{m}\n{}", spec.show())),
        None => Ok(()),
    }
}

pub fn ipm_props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "flow was moved and a limit was binding",
        arms: vec![
            Arm { name: "right", quick: 20000, thorough: 600000, run: c26_right },
            Arm { name: "values", quick: 1500, thorough: 30000, run: crate::params::c26_values },
            Arm { name: "converges", quick: 2000, thorough: 60000, run: c26_converges },
            Arm { name: "refused", quick: 1000, thorough: 20000, run: c26_refused },
            Arm { name: "minimum", quick: 50, thorough: 1000, run: c26_minimum },
        ],
    }]
}
