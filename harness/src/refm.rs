//! The mathematical curve: an independent model of B-splines in double-double arithmetic.
//! Nothing here is shared with the library: derivatives come from differentiated control
//! polygons and de Boor's algorithm on one polynomial span, not from the basis recursion.
use crate::dd::{Dd, M};
use bsplines::curve::{points::Points, Curve};

pub const EPS: f64 = 1.1102230246251565e-16; // unit roundoff

#[derive(Clone, Debug)]
pub struct RefCurve {
    pub p: usize,
    pub u: Vec<Dd>,
    /// control points, pts[i][coordinate]
    pub pts: Vec<Vec<Dd>>,
}

/// Value with, per coordinate, the largest magnitude of the (derivative) control points and sums it is computed from.
pub struct Ev {
    pub v: Vec<Dd>,
    pub mag: Vec<f64>,
}

impl RefCurve {
    pub fn new(p: usize, u: &[f64], pts: &[Vec<f64>]) -> RefCurve {
        RefCurve {
            p,
            u: u.iter().map(|&x| Dd::new(x)).collect(),
            pts: pts.iter().map(|c| c.iter().map(|&x| Dd::new(x)).collect()).collect(),
        }
    }
    /// Reads the current state of a library curve (zeroth-order knots and control points).
    pub fn of(c: &Curve) -> RefCurve {
        let u: Vec<f64> = c.knots.vector().iter().cloned().collect();
        let m = c.points.matrix();
        let pts: Vec<Vec<f64>> = (0..m.ncols()).map(|j| m.column(j).iter().cloned().collect()).collect();
        RefCurve::new(c.degree(), &u, &pts)
    }
    pub fn n(&self) -> usize {
        self.pts.len() - 1
    }
    pub fn dim(&self) -> usize {
        self.pts[0].len()
    }
    pub fn lo(&self) -> Dd {
        self.u[self.p]
    }
    pub fn hi(&self) -> Dd {
        self.u[self.n() + 1]
    }
    /// Non-empty span s with u[s] <= x < u[s+1] (last non-empty span at the domain end).
    pub fn span(&self, x: Dd) -> usize {
        let n = self.n();
        let mut best = None;
        for s in self.p..=n {
            if self.u[s] < self.u[s + 1] {
                if best.is_none() || self.u[s] <= x {
                    best = Some(s);
                }
            }
        }
        best.expect("empty domain")
    }
    /// Non-empty span with u[s] < x <= u[s+1] (first one at the domain start).
    pub fn span_left(&self, x: Dd) -> usize {
        let n = self.n();
        let mut best = None;
        for s in self.p..=n {
            if self.u[s] < self.u[s + 1] {
                if best.is_none() || self.u[s] < x {
                    best = Some(s);
                }
            }
        }
        best.expect("empty domain")
    }
    pub fn spans(&self) -> Vec<usize> {
        (self.p..=self.n()).filter(|&s| self.u[s] < self.u[s + 1]).collect()
    }
    pub fn mult(&self, x: f64) -> usize {
        self.u.iter().filter(|k| **k == Dd::new(x)).count()
    }

    pub fn eval(&self, x: Dd, k: usize) -> Ev {
        self.eval_span(self.span(x), x, k)
    }
    /// k-th derivative at x of the polynomial piece on span s.
    pub fn eval_span(&self, s: usize, x: Dd, k: usize) -> Ev {
        let p = self.p;
        let dim = self.dim();
        if k > p {
            return Ev { v: vec![Dd::ZERO; dim], mag: vec![0.0; dim] };
        }
        let mut v = Vec::with_capacity(dim);
        let mut mag = Vec::with_capacity(dim);
        let q = p - k;
        // de Boor weights are shared by all coordinates
        let mut fac: Vec<Vec<Dd>> = Vec::new();
        for l in 1..=k {
            let mut row = Vec::new();
            for i in s - p..=s - l {
                row.push(Dd::new((p + 1 - l) as f64) / (self.u[i + p + 1] - self.u[i + l]));
            }
            fac.push(row);
        }
        let mut al: Vec<Vec<(Dd, Dd)>> = Vec::new();
        for r in 1..=q {
            let mut row = Vec::new();
            // local index t = 0..=q ; point index i = s-p+t ; V_j = U_{j+k}
            for t in r..=q {
                let j = s - p + t + k; // U index of V_{i}
                let a = self.u[j];
                let b = self.u[j + q - r + 1];
                let d = b - a;
                row.push(((x - a) / d, (b - x) / d));
            }
            al.push(row);
        }
        for c in 0..dim {
            let mut d: Vec<Dd> = (s - p..=s).map(|i| self.pts[i][c]).collect();
            let mut m: Vec<f64> = d.iter().map(|x| x.f().abs()).collect();
            for l in 1..=k {
                for t in 0..=(p - l) {
                    let f = fac[l - 1][t];
                    d[t] = f * (d[t + 1] - d[t]);
                    m[t] = f.f().abs() * (m[t + 1] + m[t]);
                }
                d.truncate(p - l + 1);
                m.truncate(p - l + 1);
            }
            for r in 1..=q {
                for t in (r..=q).rev() {
                    let (a, b) = al[r - 1][t - r];
                    d[t] = b * d[t - 1] + a * d[t];
                    // a stable algorithm may know the weights to an absolute precision only
                    m[t] = (b.f().abs() * m[t - 1] + a.f().abs() * m[t]).max(m[t - 1]).max(m[t]);
                }
            }
            v.push(d[q]);
            mag.push(m[q]);
        }
        Ev { v, mag }
    }
    /// Amplification of the k-th derivative at x: the magnitude for control points of size one.
    pub fn amp(&self, x: Dd, k: usize) -> f64 {
        let mut one = RefCurve { p: self.p, u: self.u.clone(), pts: vec![vec![Dd::ONE]; self.pts.len()] };
        one.pts.truncate(self.pts.len());
        one.eval(x, k).mag[0]
    }
    pub fn pmax(&self) -> f64 {
        self.pts.iter().flatten().map(|x| x.f().abs()).fold(0.0, f64::max)
    }
    pub fn pmax_coord(&self, c: usize) -> f64 {
        self.pts.iter().map(|x| x[c].f().abs()).fold(0.0, f64::max)
    }
    /// smallest non-empty span, relative to the domain length
    pub fn min_span(&self) -> f64 {
        let len = (self.hi() - self.lo()).f();
        self.spans().iter().map(|&s| (self.u[s + 1] - self.u[s]).f() / len).fold(f64::INFINITY, f64::min)
    }
    /// Polar form of the piece on span s.
    pub fn blossom(&self, s: usize, args: &[Dd]) -> Vec<Dd> {
        let p = self.p;
        (0..self.dim())
            .map(|c| {
                let mut d: Vec<Dd> = (s - p..=s).map(|i| self.pts[i][c]).collect();
                for r in 1..=p {
                    for t in (r..=p).rev() {
                        let j = s - p + t;
                        let a = self.u[j];
                        let b = self.u[j + p - r + 1];
                        let al = (args[r - 1] - a) / (b - a);
                        d[t] = (Dd::ONE - al) * d[t - 1] + al * d[t];
                    }
                }
                d[p]
            })
            .collect()
    }
    /// Exact knot insertion (Boehm).
    pub fn insert(&self, x: Dd) -> RefCurve {
        let p = self.p;
        let n = self.n();
        let mut k = p;
        for s in p..=n {
            if self.u[s] <= x {
                k = s;
            }
        }
        let mut u = self.u.clone();
        u.insert(k + 1, x);
        let mut pts = Vec::with_capacity(n + 2);
        for i in 0..=n + 1 {
            if i + p <= k {
                pts.push(self.pts[i].clone());
            } else if i > k {
                pts.push(self.pts[i - 1].clone());
            } else {
                let den = self.u[i + p] - self.u[i];
                let al = if den.f() == 0.0 { Dd::ZERO } else { (x - self.u[i]) / den };
                if i == 0 {
                    // only for p = 0 at the very start
                    pts.push(self.pts[0].clone());
                } else {
                    pts.push(
                        (0..self.dim())
                            .map(|c| (Dd::ONE - al) * self.pts[i - 1][c] + al * self.pts[i.min(n)][c])
                            .collect(),
                    );
                }
            }
        }
        RefCurve { p, u, pts }
    }
    /// Splits at x (strictly inside): pieces on [lo,x] and [x,hi], clamped with p+1 copies of x.
    pub fn split(&self, x: Dd) -> (RefCurve, RefCurve) {
        let p = self.p;
        let mut c = self.clone();
        let mut m = c.u.iter().filter(|k| **k == x).count();
        assert!(m <= p);
        while m < p {
            c = c.insert(x);
            m += 1;
        }
        let first = c.u.iter().position(|k| *k == x).unwrap_or_else(|| c.u.iter().position(|k| *k > x).unwrap());
        let mut ul: Vec<Dd> = c.u[..first].to_vec();
        for _ in 0..=p {
            ul.push(x);
        }
        let nl = ul.len() - p - 1; // number of points
        let mut ur: Vec<Dd> = vec![x; p + 1];
        ur.extend(c.u[first + p..].iter().cloned());
        let nr = ur.len() - p - 1;
        let total = c.pts.len();
        (
            RefCurve { p, u: ul, pts: c.pts[..nl].to_vec() },
            RefCurve { p, u: ur, pts: c.pts[total - nr..].to_vec() },
        )
    }
    pub fn normalized(&self) -> RefCurve {
        let lo = self.u[0];
        let len = self.u[self.u.len() - 1] - lo;
        RefCurve { p: self.p, u: self.u.iter().map(|x| (*x - lo) / len).collect(), pts: self.pts.clone() }
    }
    pub fn reversed(&self) -> RefCurve {
        RefCurve {
            p: self.p,
            u: self.u.iter().rev().map(|x| Dd::ONE - *x).collect(),
            pts: self.pts.iter().rev().cloned().collect(),
        }
    }
    /// The k-th derivative as a curve (points of empty support are zero).
    pub fn derivative(&self, k: usize) -> RefCurve {
        let mut c = self.clone();
        for _ in 0..k {
            let p = c.p;
            let n = c.n();
            let mut pts = Vec::new();
            for i in 0..n {
                let den = c.u[i + p + 1] - c.u[i + 1];
                if den.f() == 0.0 {
                    pts.push(vec![Dd::ZERO; c.dim()]);
                } else {
                    let f = Dd::new(p as f64) / den;
                    pts.push((0..c.dim()).map(|d| f * (c.pts[i + 1][d] - c.pts[i][d])).collect());
                }
            }
            let u = c.u[1..c.u.len() - 1].to_vec();
            c = RefCurve { p: p - 1, u, pts };
        }
        c
    }
    /// Re-expresses the left half [0,1/2] / right half [1/2,1] of a merged curve on the knots that
    /// a (n_a+1 points) and b have themselves: undoes the merge without knowing how it was made.
    pub fn unmerge(&self) -> (RefCurve, RefCurve) {
        let half = Dd::new(0.5);
        let (l, r) = self.split(half);
        (l.normalized(), r.normalized())
    }
}

/// All basis functions of degree q over the clamped vector v (len = cnt + q + 1) at x, right-continuous
/// with the last interval closed at the domain end; computed by the triangular scheme on one span.
pub fn basis_all(v: &[f64], q: usize, cnt: usize, x: f64) -> Vec<Dd> {
    let n = cnt - 1;
    let xd = Dd::new(x);
    let mut s = None;
    for i in q..=n {
        if v[i] < v[i + 1] && (s.is_none() || v[i] <= x) {
            s = Some(i);
        }
    }
    let s = s.expect("empty domain");
    let mut out = vec![Dd::ZERO; cnt];
    let mut nn = vec![Dd::ONE];
    for d in 1..=q {
        let mut next = vec![Dd::ZERO; d + 1];
        for r in 0..d {
            // previous-degree function index s-d+1+r with support v[s-d+1+r] .. v[s+1+r]
            let a = Dd::new(v[s + 1 + r - d]);
            let b = Dd::new(v[s + 1 + r]);
            let den = b - a;
            next[r] += (b - xd) / den * nn[r];
            next[r + 1] += (xd - a) / den * nn[r];
        }
        nn = next;
    }
    for (r, val) in nn.into_iter().enumerate() {
        out[s - q + r] = val;
    }
    out
}

/// Collocation matrix N[g][i] = N_i(params[g]).
pub fn collocation(v: &[f64], p: usize, n: usize, params: &[f64]) -> M {
    let mut m = M::zeros(params.len(), n + 1);
    for (g, &u) in params.iter().enumerate() {
        for (i, b) in basis_all(v, p, n + 1, u).into_iter().enumerate() {
            m.set(g, i, b);
        }
    }
    m
}

/// Eigenvalues of a symmetric matrix (cyclic Jacobi, f64): only used to decide well-posedness.
pub fn sym_eig(a: &M) -> Vec<f64> {
    let n = a.r;
    let mut m: Vec<f64> = a.d.iter().map(|x| x.f()).collect();
    for _ in 0..60 {
        // relative to both diagonals: small eigenvalues of graded matrices come out right, too
        let mut off = false;
        for i in 0..n {
            for j in 0..i {
                if m[i * n + j].abs() > 1e-17 * (m[i * n + i].abs() * m[j * n + j].abs()).sqrt() + 1e-300 {
                    off = true;
                }
            }
        }
        if !off {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                let apq = m[p * n + q];
                if apq == 0.0 {
                    continue;
                }
                let th = (m[q * n + q] - m[p * n + p]) / (2.0 * apq);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (m[k * n + p], m[k * n + q]);
                    m[k * n + p] = c * x - s * y;
                    m[k * n + q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (m[p * n + k], m[q * n + k]);
                    m[p * n + k] = c * x - s * y;
                    m[q * n + k] = s * x + c * y;
                }
            }
        }
    }
    let mut e: Vec<f64> = (0..n).map(|i| m[i * n + i]).collect();
    e.sort_by(|a, b| a.partial_cmp(b).unwrap());
    e
}

/// The merge problem solved exactly: minimum-norm displacement of the last p points of a and the
/// first p of b under continuity of derivatives 0..p-1 at the joint and fixed constrained points.
pub struct MergeRef {
    pub x: M, // 2p rows, dim columns
    pub s: RefCurve,
    pub t: RefCurve,
    pub merged: RefCurve,
    /// reciprocal conditioning of the row-scaled constraint system (smallest eigenvalue of A A^T)
    pub rcond: f64,
    /// largest row norm of the unscaled system
    pub scale: f64,
    /// smallest eigenvalue of the unscaled A A^T
    pub umin: f64,
    /// a constraint the movable points influence by less than rounding: it may be met or ignored
    pub faint: bool,
}
pub fn merge_ref(a: &RefCurve, b: &RefCurve, ca: &[f64], cb: &[f64]) -> Option<MergeRef> {
    let p = a.p;
    let dim = a.dim();
    let (na, nb) = (a.n(), b.n());
    let rows = p + ca.len() + cb.len();
    let mut am = M::zeros(rows, 2 * p);
    let mut rhs = M::zeros(rows, dim);
    // unit responses of the derivatives
    let unit = |c: &RefCurve, i: usize| {
        let mut pts = vec![vec![Dd::ZERO]; c.pts.len()];
        pts[i][0] = Dd::ONE;
        RefCurve { p: c.p, u: c.u.clone(), pts }
    };
    let ua: Vec<RefCurve> = (0..p).map(|i| unit(a, na + 1 - p + i)).collect();
    let ub: Vec<RefCurve> = (0..p).map(|i| unit(b, i)).collect();
    let sa = a.span(Dd::ONE);
    let sb = b.span(Dd::ZERO);
    for k in 0..p {
        for i in 0..p {
            am.set(k, i, ua[i].eval_span(sa, Dd::ONE, k).v[0]);
            am.set(k, p + i, -ub[i].eval_span(sb, Dd::ZERO, k).v[0]);
        }
        let da = a.eval_span(sa, Dd::ONE, k).v;
        let db = b.eval_span(sb, Dd::ZERO, k).v;
        for c in 0..dim {
            rhs.set(k, c, db[c] - da[c]);
        }
    }
    for (g, &u) in ca.iter().enumerate() {
        for i in 0..p {
            am.set(p + g, i, ua[i].eval(Dd::new(u), 0).v[0]);
        }
    }
    for (h, &u) in cb.iter().enumerate() {
        for i in 0..p {
            am.set(p + ca.len() + h, p + i, ub[i].eval(Dd::new(u), 0).v[0]);
        }
    }
    // a constraint none of the movable points influences holds by itself: drop its row
    // and a constraint given twice counts once
    let same = |r: usize, q: usize| r >= p && q >= p && (0..2 * p).all(|j| am.at(r, j) == am.at(q, j));
    let keep: Vec<usize> = (0..rows)
        .filter(|&r| (0..2 * p).any(|j| am.at(r, j).f().abs() > 1e-13) && !(0..r).any(|q| same(q, r)))
        .collect();
    let faint = (p..rows).any(|r| {
        let mx = (0..2 * p).map(|j| am.at(r, j).f().abs()).fold(0.0, f64::max);
        mx > 0.0 && mx <= 1e-13
    });
    let mut raw = M::zeros(keep.len(), 2 * p);
    let mut a2 = M::zeros(keep.len(), 2 * p);
    let mut b2 = M::zeros(keep.len(), dim);
    let mut scale: f64 = 0.0;
    for (k, &r) in keep.iter().enumerate() {
        let nrm = (0..2 * p).map(|j| am.at(r, j).f().powi(2)).sum::<f64>().sqrt();
        scale = scale.max(nrm);
        let f = Dd::ONE / Dd::new(nrm);
        for j in 0..2 * p {
            a2.set(k, j, am.at(r, j) * f);
            raw.set(k, j, am.at(r, j));
        }
        for c in 0..dim {
            b2.set(k, c, rhs.at(r, c) * f);
        }
    }
    let g = a2.mul(&a2.t());
    let rcond = sym_eig(&g)[0];
    let umin = sym_eig(&raw.mul(&raw.t()))[0];
    let y = g.solve(&b2)?;
    let x = a2.t().mul(&y);
    if x.d.iter().any(|v| !v.is_finite()) {
        return None;
    }
    let mut s = a.clone();
    let mut t = b.clone();
    for i in 0..p {
        for c in 0..dim {
            s.pts[na + 1 - p + i][c] += x.at(i, c);
            t.pts[i][c] += x.at(p + i, c);
        }
    }
    let merged = join(&s, &t);
    let _ = nb;
    Some(MergeRef { x, s, t, merged, rcond, scale, umin, faint })
}

/// Joins two clamped [0,1] curves that meet with p-1 continuous derivatives into one on [0,1].
pub fn join(s: &RefCurve, t: &RefCurve) -> RefCurve {
    let p = s.p;
    let (m, o) = (s.n(), t.n());
    let half = Dd::new(0.5);
    let mut u: Vec<Dd> = s.u[..m + 1].iter().map(|x| *x * half).collect();
    u.push(half);
    u.extend(t.u[p + 1..].iter().map(|x| half + *x * half));
    let npts = m + o + 2 - p;
    // pieces in merged parametrisation
    let sl = RefCurve { p, u: s.u.iter().map(|x| *x * half).collect(), pts: s.pts.clone() };
    let tr = RefCurve { p, u: t.u.iter().map(|x| half + *x * half).collect(), pts: t.pts.clone() };
    let ls = sl.span(half);
    let rs = tr.span(half);
    let mut pts = Vec::with_capacity(npts);
    for j in 0..npts {
        if j + p <= m {
            pts.push(s.pts[j].clone());
        } else if j <= m {
            pts.push(sl.blossom(ls, &u[j + 1..j + 1 + p]));
        } else {
            // merged index j corresponds to t index j - (m + 1 - p)
            let _ = rs;
            pts.push(t.pts[j - (m + 1 - p)].clone());
        }
    }
    RefCurve { p, u, pts }
}
