//! C26: every operation works coordinate by coordinate and commutes with affine maps.
use super::*;
use crate::dd::M;
use crate::gen::{self, gen_p, mat, params, vecd, COpt, G};
use crate::refm::{collocation, merge_ref, sym_eig};
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::{self, Knots};
use bsplines::curve::parameters::{self, Parameters};
use bsplines::curve::points::methods::fit::{self, Penalization};
use bsplines::curve::points::methods::interpolation::interpolate;
use bsplines::curve::points::{ControlPoints, DataPoints};
use bsplines::manipulation::insert::insert as lib_insert;
use bsplines::manipulation::merge::{merge, merge_from, merge_to, Constraints};
use bsplines::manipulation::reverse::reversed as lib_reversed;
use bsplines::manipulation::split::split_and_normalize;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        case: c26,
        quick: 120000,
        thorough: 3000000,
        min_nontrivial: 12000,
        rule: "a case is one operation on N-dimensional points (N up to 12), repeated on every coordinate alone, on permuted and repeated coordinates, and on an affine image of the points in \
               the same or another dimension; the results are compared point by point; distinct by the bits of the input and the operation",
        assumptions: &[A_TOL, A_CLAMPED, "operations that solve a linear system are compared where it is well-conditioned (skips are counted)"],
    }]
}

/// One operation, as a function of the points alone.
enum Op {
    Eval(Vec<(f64, usize)>),
    Insert(Vec<f64>),
    Split(f64, bool, bool),
    Reverse,
    Derivative(usize),
    Merge(G, Vec<f64>, Vec<f64>, u8),
    Interpolate,
    InterpolateDirect(Vec<f64>, Vec<f64>),
    Fit { n: usize, fixed: bool, pen: Option<(f64, usize)> },
    FitDirect { n: usize, fixed: bool, u: Vec<f64>, par: Vec<f64> },
    Manual(u8),
}
impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::Eval(_) => "evaluate",
            Op::Insert(_) => "insert",
            Op::Split(..) => "split",
            Op::Reverse => "reverse",
            Op::Derivative(_) => "derivative curve",
            Op::Merge(..) => "merge",
            Op::Interpolate => "interpolate",
            Op::InterpolateDirect(..) => "interpolate directly",
            Op::Fit { .. } => "fit",
            Op::FitDirect { .. } => "fit directly",
            Op::Manual(_) => "manual generation",
        }
    }
}

/// Rows: coordinates; columns: result points. And the knots that resulted.
struct Out {
    pts: Vec<Vec<f64>>,
    knots: Vec<f64>,
}
fn add(o: &mut Out, c: &Curve) {
    let m = c.points.matrix();
    for j in 0..m.ncols() {
        o.pts.push(m.column(j).iter().cloned().collect());
    }
    o.knots.extend(c.knots.vector().iter());
}

fn curve(g: &G, pts: &[Vec<f64>]) -> R<Curve> {
    let k = g.knots()?;
    let m = ControlPoints::new(mat(pts));
    Ok(call("Curve::new", || Curve::new(k, m))?.map_err(|e| format!("{e:?}"))?)
}

fn run(op: &Op, g: &G, pts: &[Vec<f64>], other: &[Vec<f64>]) -> R<Result<Out, String>> {
    let mut o = Out { pts: vec![], knots: vec![] };
    let p = g.p;
    let err = |e: String| -> R<Result<Out, String>> { Ok(Err(e)) };
    match op {
        Op::Eval(us) => {
            let c = curve(g, pts)?;
            for (u, k) in us {
                o.pts.push(evaluate(&c, *u, *k)?.iter().cloned().collect());
            }
        }
        Op::Insert(us) => {
            let mut c = curve(g, pts)?;
            for u in us {
                if let Err(e) = call("insert", || lib_insert(&mut c, *u))? {
                    return err(format!("{e:?}"));
                }
            }
            add(&mut o, &c);
        }
        Op::Split(u, a, b) => {
            let c = curve(g, pts)?;
            match call("split", || split_and_normalize(&c, *u, (*a, *b)))? {
                Ok((a, b)) => {
                    add(&mut o, &a);
                    add(&mut o, &b);
                }
                Err(e) => return err(format!("{e:?}")),
            }
        }
        Op::Reverse => {
            let c = curve(g, pts)?;
            add(&mut o, &call("reversed", || lib_reversed(&c))?);
        }
        Op::Derivative(k) => {
            let c = curve(g, pts)?;
            add(&mut o, &call("get_derivative_curve", || c.get_derivative_curve(*k))?);
        }
        Op::Merge(h, ca, cb, form) => {
            let (a, b) = (curve(g, pts)?, curve(h, other)?);
            let cons = |v: &[f64]| Constraints { params: v.to_vec() };
            let r = call("merge", || match form {
                0 => merge(&a, &b),
                1 => merge_from(&a, &b),
                2 => merge_to(&a, &b),
                3 => {
                    let mut c = a.clone();
                    c.append_constrained(cons(ca), &b, cons(cb));
                    Ok(c)
                }
                _ => {
                    let mut c = b.clone();
                    c.prepend_constrained(cons(cb), &a, cons(ca));
                    Ok(c)
                }
            })?;
            match r {
                Ok(c) => add(&mut o, &c),
                Err(e) => return err(format!("{e:?}")),
            }
        }
        Op::Interpolate => {
            let d = DataPoints::new(mat(pts));
            match call("generate(Interpolation)", || generate(Generation::Interpolation { degree: p, points: &d }))? {
                Ok(c) => add(&mut o, &c),
                Err(e) => return err(format!("{e:?}")),
            }
        }
        Op::InterpolateDirect(u, par) => {
            let d = DataPoints::new(mat(pts));
            let k = call("Knots::new", || Knots::new(p, vecd(u)))?;
            let pr = Parameters::new(vecd(par), pts.len() - 1);
            let x = call("interpolate", || interpolate(&k, &d, &pr))?;
            for j in 0..x.ncols() {
                o.pts.push(x.column(j).iter().cloned().collect());
            }
        }
        Op::Fit { n, fixed, pen } => {
            let d = DataPoints::new(mat(pts));
            let method = if *fixed { fit::Method::FixedEnds } else { fit::Method::LooseEnds };
            let penalization = pen.map(|(lambda, kappa)| Penalization { lambda, kappa });
            let r = call("generate(LeastSquaresFit)", || {
                generate(Generation::LeastSquaresFit { degree: p, points: &d, intended_segments: *n, method, penalization })
            })?;
            match r {
                Ok(c) => add(&mut o, &c),
                Err(e) => return err(format!("{e:?}")),
            }
        }
        Op::FitDirect { n: _, fixed, u, par } => {
            let d = DataPoints::new(mat(pts));
            let k = call("Knots::new", || Knots::new(p, vecd(u)))?;
            let pr = Parameters::new(vecd(par), pts.len() - 1);
            let r = call("fit", || if *fixed { fit::fixed::fit(&k, &d, &pr, None) } else { fit::loose::fit(&k, &d, &pr, None) })?;
            match r {
                Ok(x) => {
                    for j in 0..x.ncols() {
                        o.pts.push(x.column(j).iter().cloned().collect());
                    }
                }
                Err(e) => return err(format!("{e:?}")),
            }
        }
        Op::Manual(k) => {
            let knots = match k {
                0 => knots::Generation::Uniform,
                _ => knots::Generation::Method {
                    parameter_method: parameters::Method::EquallySpaced,
                    knot_method: match k {
                        1 => knots::Method::DeBoor,
                        2 => knots::Method::Averaging,
                        _ => knots::Method::Uniform,
                    },
                },
            };
            match call("generate(Manual)", || generate(Generation::Manual { degree: p, points: ControlPoints::new(mat(pts)), knots }))? {
                Ok(c) => add(&mut o, &c),
                Err(e) => return err(format!("{e:?}")),
            }
        }
    }
    Ok(Ok(o))
}

fn c26(cx: &mut Ctx) -> R {
    let dim = match cx.rng.below(5) {
        0 => 1,
        1 if cx.rng.chance(1, 6) => cx.rng.range(13, 70),
        1 => cx.rng.range(5, 12),
        _ => cx.rng.range(2, 4),
    };
    let p = gen::degree(cx, 1, 6);
    let o = COpt { pmin: 1, pmax: 6, max_extra: 9, max_dim: 12, ulps: false, min_gap: 0.02, mult_below: 1, tame: true };
    let g = gen_p(cx, o, p, dim);
    g.note(cx);
    let n = g.n();
    // the decompositions of the largest systems take minutes
    let kind = if n > 160 { cx.rng.below(9) } else { cx.rng.below(14) };
    cx.hash(kind as u64);
    // `cond`: how much rounding the operation may amplify, relative to the size of a coordinate
    let mut amp = tol(p);
    let mut other = vec![];
    let op = match kind {
        0 | 1 => {
            let us = params(cx, &g.u, p, 6);
            Op::Eval(us.into_iter().map(|u| (u, if cx.rng.chance(1, 2) { 0 } else { cx.rng.range(0, p + 1) })).collect())
        }
        2 => {
            let cnt = cx.rng.range(1, 4);
            let mut v: Vec<f64> = vec![];
            for _ in 0..cnt {
                let x = if !v.is_empty() && cx.rng.chance(1, 3) { v[0] } else { super::insert::inner_param(cx, &g.u, p) };
                if g.u.iter().chain(v.iter()).filter(|k| **k == x).count() <= p {
                    v.push(x);
                }
            }
            cx.hashf(&v);
            Op::Insert(v)
        }
        3 => {
            let x = super::insert::inner_param(cx, &g.u, p);
            cx.hashf(&[x]);
            Op::Split(x, cx.rng.chance(1, 2), cx.rng.chance(1, 2))
        }
        4 => Op::Reverse,
        5 => Op::Derivative(cx.rng.range(0, p)),
        6 | 7 | 8 => {
            let h = gen_p(cx, o, p, dim);
            h.note(cx);
            let (ca, cb) = if p >= 2 && cx.rng.chance(1, 2) { super::merge::constraints(cx, &g, &h) } else { (vec![], vec![]) };
            let form = if ca.is_empty() && cb.is_empty() {
                0
            } else if ca == [1.0] && cb.is_empty() {
                1
            } else if cb == [0.0] && ca.is_empty() {
                2
            } else {
                cx.rng.range(3, 4) as u8
            };
            let Some(mr) = merge_ref(&g.refc(), &h.refc(), &ca, &cb) else {
                cx.count("skipped: constraints cannot be met");
                return Ok(());
            };
            let Some(t) = super::merge::merge_tol(&mr) else {
                cx.count("skipped: ill-conditioned joint");
                return Ok(());
            };
            // the coordinates of the two inputs bound the sizes that occur up to the amplification of the joint
            let grow = [&mr.s, &mr.t, &mr.merged].iter().map(|c| c.pmax()).fold(1.0, f64::max) / g.refc().pmax().max(h.refc().pmax()).max(1e-300);
            amp = t * grow.max(1.0) * 8.0;
            // and by what a unit displacement of the data can grow to
            amp *= mr.scale.max(1.0).min(1e3) / mr.umin.sqrt().min(1.0);
            if !(amp < 1e-4) {
                cx.count("skipped: ill-conditioned joint");
                return Ok(());
            }
            other = h.pts.clone();
            Op::Merge(h, ca, cb, form)
        }
        9 | 10 => {
            let direct = cx.rng.chance(1, 3);
            let par = equal(n);
            let u = super::fit::uniform_knots(p, n);
            let (par, u) = if direct {
                let mut q = par;
                for i in 1..n {
                    q[i] = (i as f64 + 0.6 * (cx.rng.f() - 0.5)) / n as f64;
                }
                let mut inner: Vec<f64> = (1..=n - p).map(|j| q[j..j + p].iter().sum::<f64>() / p as f64).collect();
                inner.sort_by(|a, b| a.partial_cmp(b).unwrap());
                (q, gen::clamp(p, &inner))
            } else {
                (par, u)
            };
            let a = collocation(&u, p, n, &par);
            let Some(inv) = a.inverse() else { return Ok(()) };
            let c = inf(&a) * inf(&inv);
            amp = 400.0 * (n + 5) as f64 * EPS * c * inf(&inv).max(1.0);
            if !(amp < 1e-4) {
                cx.count("skipped: ill-conditioned system");
                return Ok(());
            }
            if direct {
                Op::InterpolateDirect(u, par)
            } else {
                Op::Interpolate
            }
        }
        11 | 12 => {
            let m = n;
            let nn = cx.rng.range(p, m);
            let fixed = cx.rng.chance(1, 2);
            let direct = cx.rng.chance(1, 3);
            let lim = if fixed { nn.saturating_sub(2) } else { nn - 1 };
            let pen = if !direct && lim >= 1 && cx.rng.chance(1, 2) {
                Some((*cx.rng.pick(&[0.0, 0.5, 1e-2, 3.0]), cx.rng.range(1, lim.min(3))))
            } else {
                None
            };
            let mut par = equal(m);
            if direct {
                for i in 1..m {
                    par[i] = (i as f64 + 0.6 * (cx.rng.f() - 0.5)) / m as f64;
                }
            }
            let u = super::fit::uniform_knots(p, nn);
            let a = collocation(&u, p, nn, &par);
            let (lo, hi) = if fixed { (1, nn) } else { (0, nn + 1) };
            if hi > lo {
                let mut s = M::zeros(a.r, hi - lo);
                for i in 0..a.r {
                    for j in lo..hi {
                        s.set(i, j - lo, a.at(i, j));
                    }
                }
                let mut gm = s.t().mul(&s);
                if let Some((l, k)) = pen {
                    let d = super::fit::differences(hi - lo, k);
                    let dd = d.t().mul(&d);
                    for i in 0..gm.r {
                        for j in 0..gm.c {
                            gm.set(i, j, gm.at(i, j) + Dd::new(l) * dd.at(i, j));
                        }
                    }
                }
                let e = sym_eig(&gm);
                let c = e[e.len() - 1] / e[0].max(1e-300);
                amp = 400.0 * (m + 5) as f64 * EPS * c * (m as f64).sqrt() / e[0].min(1.0);
                if !(e[0] > 0.0 && amp < 1e-4) {
                    cx.count("skipped: ill-conditioned system");
                    return Ok(());
                }
            }
            if direct {
                Op::FitDirect { n: nn, fixed, u, par }
            } else {
                Op::Fit { n: nn, fixed, pen }
            }
        }
        _ => Op::Manual(cx.rng.below(4) as u8),
    };
    let name = op.name();
    cx.count(&format!("operation={name}"));
    cx.count(&format!("dimension={}", if dim > 4 { "5+".into() } else { dim.to_string() }));
    let what = match &op {
        Op::Merge(_, a, b, f) => format!("{name} form {f} constraints {a:?} {b:?}"),
        Op::Split(u, ..) => format!("{name} at {u:e}"),
        Op::Insert(v) => format!("{name} {v:?}"),
        Op::Fit { n, fixed, pen } => format!("{name} n={n} fixed={fixed} penalty {pen:?}"),
        Op::FitDirect { n, fixed, .. } => format!("{name} n={n} fixed={fixed}"),
        _ => name.to_string(),
    };
    cx.describe(|| what.clone());
    let full = run(&op, &g, &g.pts, &other)?;
    cx.mark_nontrivial();
    // sizes of the result per coordinate: derivatives are larger than the points
    let size_in = |c: usize| g.pts.iter().chain(other.iter()).map(|q| q[c].abs()).fold(0.0, f64::max);
    let grow = |per: f64, scale: f64| -> f64 { if scale > 0.0 { per.max(scale) } else { per } };
    let rowmag = |o: &Out, c: usize| o.pts.iter().map(|q| q[c].abs()).fold(0.0, f64::max);
    // evaluations and derivative curves: the magnitude of the terms, from the reference
    let rel: Vec<f64> = match &op {
        Op::Eval(us) => {
            let rc = g.refc();
            us.iter().map(|(u, k)| rc.amp(Dd::new(*u), *k)).collect()
        }
        Op::Derivative(k) => {
            let rc = g.refc();
            let f = (2.0 * p as f64 / rc.min_span()).powi(*k as i32);
            vec![f; n + 1]
        }
        _ => vec![],
    };
    let scale_at = |j: usize| if rel.is_empty() { 1.0 } else { rel[j] };
    let full = match full {
        Ok(o) => o,
        Err(e) => {
            // a refusal must not depend on the coordinates either
            for c in 0..dim.min(3) {
                let r = run(&op, &g, &take(&g.pts, &[c]), &take(&other, &[c]))?;
                cx.check(r.is_err(), || format!("{what} is refused ({e}) for all coordinates but not for coordinate {c} alone"))?;
            }
            cx.count("refused alike");
            return Ok(());
        }
    };
    // coordinates alone
    for c in 0..dim {
        let one = run(&op, &g, &take(&g.pts, &[c]), &take(&other, &[c]))?;
        let one = one.map_err(|e| format!("{what} succeeds in {dim} dimensions but is refused for coordinate {c} alone: {e}"))?;
        cx.check(one.pts.len() == full.pts.len(), || format!("{what}: {} points for coordinate {c} alone, {} for all", one.pts.len(), full.pts.len()))?;
        let kn = one.knots.len() == full.knots.len() && one.knots.iter().zip(&full.knots).all(|(a, b)| (a - b).abs() <= 8.0 * EPS);
        cx.check(kn, || format!("{what}: knots {:?} for coordinate {c} alone, {:?} for all", one.knots, full.knots))?;
        let s = grow(size_in(c), rowmag(&full, c).min(size_in(c) * 1e6));
        for j in 0..one.pts.len() {
            let d = one.pts[j].len();
            cx.check(d == 1, || format!("{what}: result of dimension {d} for one coordinate"))?;
            let s = if rel.is_empty() { s } else { size_in(c) * scale_at(j) };
            cx.close_as("coordinate", &format!("{what}: coordinate {c} of point {j} against that coordinate alone"), full.pts[j][c], Dd::new(one.pts[j][0]), amp * s + TINY)?;
        }
    }
    cx.count("coordinates alone");
    // permuted, repeated and dropped coordinates
    let idx: Vec<usize> = (0..cx.rng.range(1, dim + 2)).map(|_| cx.rng.below(dim)).collect();
    let sel = run(&op, &g, &take(&g.pts, &idx), &take(&other, &idx))?.map_err(|e| format!("{what} refused for coordinates {idx:?}: {e}"))?;
    for j in 0..full.pts.len() {
        for (q, &c) in idx.iter().enumerate() {
            let s = if rel.is_empty() { size_in(c).max(rowmag(&full, c).min(size_in(c) * 1e6)) } else { size_in(c) * scale_at(j) };
            cx.close_as("coordinate", &format!("{what}: coordinates {idx:?}, point {j} coordinate {q}"), sel.pts[j][q], Dd::new(full.pts[j][c]), amp * s + TINY)?;
        }
    }
    // an affine image
    let ndim = cx.rng.range(1, dim + 1);
    let rot = ndim == dim && dim >= 2 && cx.rng.chance(1, 2);
    let mut a = vec![vec![0.0; dim]; ndim];
    if rot {
        // rotation in one plane, and a scaling
        let s = 10f64.powi(cx.rng.range(0, 6) as i32 - 3);
        for i in 0..dim {
            a[i][i] = s;
        }
        let (i, j) = (0, cx.rng.range(1, dim - 1));
        let t = cx.rng.uni(0.0, 6.3);
        a[i][i] = s * t.cos();
        a[i][j] = -s * t.sin();
        a[j][i] = s * t.sin();
        a[j][j] = s * t.cos();
    } else {
        for r in a.iter_mut() {
            for x in r.iter_mut() {
                *x = cx.rng.uni(-2.0, 2.0);
            }
        }
    }
    let b: Vec<f64> = (0..ndim).map(|_| if cx.rng.chance(1, 3) { 0.0 } else { cx.rng.uni(-50.0, 50.0) }).collect();
    let map = |q: &Vec<f64>| -> Vec<f64> { (0..ndim).map(|r| b[r] + (0..dim).map(|c| a[r][c] * q[c]).sum::<f64>()).collect() };
    let gp: Vec<Vec<f64>> = g.pts.iter().map(map).collect();
    let op2: Vec<Vec<f64>> = other.iter().map(map).collect();
    let img = run(&op, &g, &gp, &op2)?.map_err(|e| format!("{what} refused for an affine image: {e}"))?;
    let kn = img.knots.len() == full.knots.len() && img.knots.iter().zip(&full.knots).all(|(a, b)| (a - b).abs() <= 8.0 * EPS);
    cx.check(kn && img.pts.len() == full.pts.len(), || format!("{what}: other knots for an affine image: {:?} {:?}", img.knots, full.knots))?;
    for j in 0..full.pts.len() {
        // translation does not act on derivatives
        let tr = match &op {
            Op::Eval(us) => us[j].1 == 0,
            Op::Derivative(k) => *k == 0,
            _ => true,
        };
        for r in 0..ndim {
            let mut w = if tr { Dd::new(b[r]) } else { Dd::ZERO };
            let mut s = b[r].abs();
            for c in 0..dim {
                w += Dd::new(a[r][c]) * Dd::new(full.pts[j][c]);
                let m = if rel.is_empty() { size_in(c).max(rowmag(&full, c).min(size_in(c) * 1e6)) } else { size_in(c) };
                s += a[r][c].abs() * m;
            }
            s *= scale_at(j);
            cx.close_as("affine", &format!("{what}: affine image, point {j} coordinate {r}"), img.pts[j][r], w, 4.0 * (amp + 8.0 * dim as f64 * EPS) * s + TINY)?;
        }
    }
    // scaled by a power of two, up or down: no absolute size matters
    let e = *cx.rng.pick(&[-700i32, -300, -150, -60, -45, -30, -10, 10, 30, 45, 60, 150, 300]);
    // neither far enough to overflow nor to underflow
    let most = g.pts.iter().chain(&other).flatten().fold(0.0f64, |a, x| a.max(x.abs()));
    let l = if most > 0.0 { most.log2() as i32 } else { 0 };
    let e = e.clamp(-750 - l, 850 - l);
    let f = 2f64.powi(e);
    let times = |pts: &[Vec<f64>]| -> Vec<Vec<f64>> { pts.iter().map(|q| q.iter().map(|x| x * f).collect()).collect() };
    let img = run(&op, &g, &times(&g.pts), &times(&other))?.map_err(|e| format!("{what} refused for points scaled by {f:e}: {e}"))?;
    let kn = img.knots.len() == full.knots.len() && img.knots.iter().zip(&full.knots).all(|(a, b)| (a - b).abs() <= 8.0 * EPS);
    cx.check(kn && img.pts.len() == full.pts.len(), || format!("{what}: other knots for points scaled by {f:e}: {:?} {:?}", img.knots, full.knots))?;
    for j in 0..full.pts.len() {
        for c in 0..dim {
            let m = if rel.is_empty() { size_in(c).max(rowmag(&full, c).min(size_in(c) * 1e6)) } else { size_in(c) } * scale_at(j);
            cx.close_as("scaled", &format!("{what}: points scaled by {f:e}, point {j} coordinate {c}"), img.pts[j][c] / f, Dd::new(full.pts[j][c]), amp * m + TINY)?;
        }
    }
    cx.count("scaled images");
    cx.count(if rot { "rotated images" } else if ndim == dim { "affine images" } else { "images in another dimension" });
    Ok(())
}

fn take(pts: &[Vec<f64>], idx: &[usize]) -> Vec<Vec<f64>> {
    pts.iter().map(|q| idx.iter().map(|&i| q[i]).collect()).collect()
}
fn equal(m: usize) -> Vec<f64> {
    (0..=m).map(|g| if g == m { 1.0 } else { g as f64 / m as f64 }).collect()
}
fn inf(a: &M) -> f64 {
    (0..a.r).map(|i| (0..a.c).map(|j| a.at(i, j).f().abs()).sum::<f64>()).fold(0.0, f64::max)
}
