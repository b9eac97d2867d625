//! Independent reference for small linear programmes: dense two-phase simplex, binaries by enumeration.

#[derive(Clone, Debug, Default)]
pub struct Row {
    pub a: Vec<(usize, f64)>,
    pub lo: f64,
    pub hi: f64,
    pub what: String,
}

#[derive(Clone, Debug, Default)]
pub struct Lp {
    pub n: usize,
    pub c: Vec<f64>,
    pub rows: Vec<Row>,
    /// Columns that must be 0 or 1.
    pub bins: Vec<usize>,
}

#[derive(Clone, Debug)]
pub enum Out {
    Optimal { x: Vec<f64>, obj: f64 },
    /// Smallest total violation found.
    Infeasible(f64),
    Unbounded,
    /// Iteration limit or numerically undecided.
    Unsure,
}

const EPS: f64 = 1e-9;

/// minimise c.x subject to rows, x >= 0.
fn simplex(n: usize, c: &[f64], rows: &[Row], fixed: &[(usize, f64)]) -> Out {
    // Build rows a.x (<=,=) b
    let mut cons: Vec<(Vec<f64>, f64, bool)> = Vec::new(); // (coef, rhs, is_eq)
    let mut fix = vec![None; n];
    for (j, v) in fixed {
        fix[*j] = Some(*v);
    }
    for r in rows {
        let mut a = vec![0.0; n];
        let mut shift = 0.0;
        for (j, v) in &r.a {
            match fix[*j] {
                Some(f) => shift += v * f,
                None => a[*j] += *v,
            }
        }
        let lo = r.lo - shift;
        let hi = r.hi - shift;
        if lo > hi + 1e-9 * (1.0 + lo.abs()) {
            return Out::Infeasible(lo - hi);
        }
        let norm = a.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        if norm == 0.0 {
            let viol = lo.max(0.0).max((-hi).max(0.0));
            if viol > 1e-7 {
                return Out::Infeasible(viol);
            }
            continue;
        }
        if r.lo == r.hi {
            cons.push((a, lo, true));
        } else {
            if hi < 1e18 {
                cons.push((a.clone(), hi, false));
            }
            if lo > -1e18 {
                cons.push((a.iter().map(|v| -v).collect(), -lo, false));
            }
        }
    }
    let m = cons.len();
    let nslack = cons.iter().filter(|c| !c.2).count();
    let total = n + nslack + m; // structural, slack, artificial
    let w = total + 1;
    let mut t = vec![0.0f64; m * w];
    let mut basis = vec![0usize; m];
    let mut s = 0;
    for (i, (a, b, eq)) in cons.iter().enumerate() {
        let sign = if *b < 0.0 { -1.0 } else { 1.0 };
        for j in 0..n {
            t[i * w + j] = sign * a[j];
        }
        if !*eq {
            t[i * w + n + s] = sign;
        }
        t[i * w + total] = sign * b;
        if !*eq && sign > 0.0 {
            basis[i] = n + s;
        } else {
            t[i * w + n + nslack + i] = 1.0;
            basis[i] = n + nslack + i;
        }
        if !*eq {
            s += 1;
        }
    }
    let mut allowed = vec![true; total];
    for j in 0..n {
        if fix[j].is_some() {
            allowed[j] = false;
        }
    }
    // phase 1
    let mut z = vec![0.0f64; w];
    for i in 0..m {
        if basis[i] >= n + nslack {
            for j in 0..w {
                z[j] -= t[i * w + j];
            }
        }
    }
    for j in n + nslack..total {
        z[j] = 0.0;
        allowed[j] = false;
    }
    match pivots(&mut t, &mut z, &mut basis, m, w, total, &allowed) {
        Piv::Done => {}
        _ => return Out::Unsure,
    }
    let resid: f64 = (0..m).filter(|i| basis[*i] >= n + nslack).map(|i| t[i * w + total].max(0.0)).sum();
    if resid > 1e-7 {
        return Out::Infeasible(resid);
    }
    // drive artificials out where possible
    for i in 0..m {
        if basis[i] >= n + nslack {
            if let Some(j) = (0..n + nslack).find(|j| allowed[*j] && t[i * w + j].abs() > 1e-7) {
                pivot(&mut t, &mut z, &mut basis, m, w, i, j);
            }
        }
    }
    // phase 2
    let mut z = vec![0.0f64; w];
    for j in 0..n {
        if fix[j].is_none() {
            z[j] = c[j];
        }
    }
    for i in 0..m {
        let b = basis[i];
        if b < n && z[b] != 0.0 {
            let f = z[b];
            for j in 0..w {
                z[j] -= f * t[i * w + j];
            }
        }
    }
    match pivots(&mut t, &mut z, &mut basis, m, w, total, &allowed) {
        Piv::Done => {}
        Piv::Unbounded => return Out::Unbounded,
        Piv::Limit => return Out::Unsure,
    }
    let mut x = vec![0.0; n];
    for i in 0..m {
        if basis[i] < n {
            x[basis[i]] = t[i * w + total];
        }
    }
    for (j, v) in fixed {
        x[*j] = *v;
    }
    let obj = x.iter().zip(c).map(|(a, b)| a * b).sum();
    Out::Optimal { x, obj }
}

enum Piv {
    Done,
    Unbounded,
    Limit,
}

fn pivot(t: &mut [f64], z: &mut [f64], basis: &mut [usize], m: usize, w: usize, r: usize, c: usize) {
    let p = t[r * w + c];
    for j in 0..w {
        t[r * w + j] /= p;
    }
    for i in 0..m {
        if i != r {
            let f = t[i * w + c];
            if f != 0.0 {
                for j in 0..w {
                    t[i * w + j] -= f * t[r * w + j];
                }
            }
        }
    }
    let f = z[c];
    if f != 0.0 {
        for j in 0..w {
            z[j] -= f * t[r * w + j];
        }
    }
    basis[r] = c;
}

fn pivots(t: &mut [f64], z: &mut [f64], basis: &mut [usize], m: usize, w: usize, total: usize, allowed: &[bool]) -> Piv {
    for it in 0..3000 {
        let bland = it > 200;
        let mut col = None;
        let mut best = -EPS;
        for j in 0..total {
            if allowed[j] && z[j] < best {
                col = Some(j);
                if bland {
                    break;
                }
                best = z[j];
            }
        }
        let Some(c) = col else { return Piv::Done };
        let mut row: Option<(usize, f64)> = None;
        for i in 0..m {
            let a = t[i * w + c];
            // Artificial variables still in the basis (at zero) must not grow.
            if a > EPS {
                let ratio = t[i * w + total] / a;
                match row {
                    None => row = Some((i, ratio)),
                    Some((k, r)) => {
                        if ratio < r - 1e-12 || (ratio <= r + 1e-12 && basis[i] < basis[k]) {
                            row = Some((i, ratio));
                        }
                    }
                }
            }
        }
        let Some((r, _)) = row else { return Piv::Unbounded };
        pivot(t, z, basis, m, w, r, c);
    }
    Piv::Limit
}

pub fn solve(lp: &Lp) -> Out {
    if lp.bins.is_empty() {
        return simplex(lp.n, &lp.c, &lp.rows, &[]);
    }
    let k = lp.bins.len();
    let mut best: Option<(Vec<f64>, f64)> = None;
    let mut infeas = f64::INFINITY;
    for mask in 0u32..(1 << k) {
        let fixed: Vec<(usize, f64)> = lp.bins.iter().enumerate().map(|(b, j)| (*j, ((mask >> b) & 1) as f64)).collect();
        match simplex(lp.n, &lp.c, &lp.rows, &fixed) {
            Out::Optimal { x, obj } => {
                if best.as_ref().is_none_or(|b| obj < b.1) {
                    best = Some((x, obj));
                }
            }
            Out::Infeasible(r) => infeas = infeas.min(r),
            Out::Unbounded => return Out::Unbounded,
            Out::Unsure => return Out::Unsure,
        }
    }
    match best {
        Some((x, obj)) => Out::Optimal { x, obj },
        None => Out::Infeasible(infeas),
    }
}

/// Largest violation of any row or sign by `x` (scaled by 1 + |bound|), with the row's name.
/// For binaries the best assignment is searched.
pub fn violation(lp: &Lp, x: &[f64]) -> (f64, String) {
    let k = lp.bins.len();
    let mut best = (f64::INFINITY, String::new());
    for mask in 0u32..(1 << k) {
        let mut y = x.to_vec();
        y.resize(lp.n, 0.0);
        for (b, j) in lp.bins.iter().enumerate() {
            y[*j] = ((mask >> b) & 1) as f64;
        }
        let mut worst = (0.0f64, String::new());
        for (j, v) in y.iter().enumerate() {
            if -*v > worst.0 {
                worst = (-*v, format!("column {j} = {v} is negative"));
            }
        }
        for r in &lp.rows {
            let s: f64 = r.a.iter().map(|(j, a)| a * y[*j]).sum();
            let mag = 1.0 + r.a.iter().map(|(j, a)| (a * y[*j]).abs()).fold(0.0, f64::max);
            let v = ((r.lo - s) / mag).max((s - r.hi) / mag);
            if v > worst.0 {
                worst = (v, format!("{}: {} not in [{}, {}]", r.what, s, r.lo, r.hi));
            }
        }
        if worst.0 < best.0 {
            best = worst;
        }
    }
    best
}
