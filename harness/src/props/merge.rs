//! C11-C15: merging, constrained merging, appending and prepending.
use super::*;
use crate::gen::{self, gen_p, params, vecd, COpt, G};
use crate::refm::{merge_ref, MergeRef};
use bsplines::curve::knots::{is_clamped, is_normed, is_sorted, Knots};
use bsplines::curve::points::ControlPoints;
use bsplines::manipulation::merge::{merge, merge_from, merge_to, Constraints, MergeError};
use bsplines::manipulation::split::split_and_normalize;

const A_POSED: &str = "joints are well-posed: knot spans next to the joint not much smaller than 1/50 and the linear system of the reference not nearly singular (skips are counted)";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            case: c11,
            quick: 300000,
            thorough: 6000000,
            min_nontrivial: 4000,
            rule: "a case is a pair of curves (same degree and dimension, independent knots, sizes and points) merged by one of the merge forms; degree, segments, knots, predicates, untouched \
                   control points and the untouched part of the trace are checked; distinct by the bits of both curves",
            assumptions: &[A_MODEL, A_TOL, A_CLAMPED, A_POSED],
        },
        Prop {
            id: "C12",
            case: c12,
            quick: 300000,
            thorough: 6000000,
            min_nontrivial: 4000,
            rule: "a case is a pair of curves merged with or without constraints; both halves are taken apart again in double-double arithmetic and their displacements compared with the exact \
                   minimum-norm solution; distinct by the bits of both curves and the constraints",
            assumptions: &[A_MODEL, A_TOL, A_CLAMPED, A_POSED],
        },
        Prop {
            id: "C13",
            case: c13,
            quick: 300000,
            thorough: 6000000,
            min_nontrivial: 4000,
            rule: "a case is a pair of curves merged with 1 to p-1 constraints on either or both (append, prepend, merge-from, merge-to); the merged curve is evaluated at every constraint; \
                   distinct by the bits of both curves and the constraints",
            assumptions: &[A_MODEL, A_TOL, A_CLAMPED, A_POSED, "the constraints can be met together with joining (a fixed left end and a fixed right start at different points cannot)"],
        },
        Prop {
            id: "C14",
            case: c14,
            quick: 240000,
            thorough: 5000000,
            min_nontrivial: 4000,
            rule: "a case is a pair of curves appended, prepended and merged, or one curve split at 1/2 and merged again; distinct by the bits of the curves",
            assumptions: &[A_MODEL, A_TOL, A_CLAMPED, A_POSED],
        },
        Prop {
            id: "C15",
            case: c15,
            quick: 240000,
            thorough: 6000000,
            min_nontrivial: 10000,
            rule: "a case is a pair of curves with none, one or several incompatibilities (degree, dimension, clamping at either end, range, number of constraints) offered to all merge forms; \
                   distinct by the bits of both curves and the kind",
            assumptions: &[A_CLAMPED, "append, prepend and their constrained forms have no error value: there the refusal is the panic naming the error"],
        },
    ]
}

fn mopt(cx: &mut Ctx) -> COpt {
    let min_gap = *cx.rng.pick(&[0.15, 0.08, 0.05, 0.02, 1e-3, 1e-5, 1e-7]);
    // very short spans make the joint of higher degrees numerically singular
    let pmax = if min_gap < 1e-6 { 2 } else { 6 };
    COpt { pmin: 1, pmax, max_extra: 9, max_dim: 4, ulps: false, min_gap, mult_below: 1, tame: true }
}

fn pair(cx: &mut Ctx, pmin: usize) -> (G, G) {
    let o = mopt(cx);
    let p = gen::degree(cx, pmin, o.pmax);
    let dim = gen::dims(cx, o.max_dim);
    let mut a = gen_p(cx, o, p, dim);
    let mut b = gen_p(cx, o, p, dim);
    if cx.rng.chance(1, 6) {
        // a knot next to the joint
        let x = 10f64.powf(-cx.rng.uni(2.0, 5.0));
        let (n, m) = (a.n(), b.n());
        match cx.rng.below(2) {
            0 if m > p && b.u[p + 1] > x && b.u[p + 1] < 1.0 => b.u[p + 1] = x,
            1 if n > p && a.u[n] < 1.0 - x && a.u[n] > 0.0 => a.u[n] = 1.0 - x,
            _ => {}
        }
        cx.count("a knot moved next to the joint");
    }
    if cx.rng.chance(1, 20) {
        // knots all but equal, where the joint does not reach
        let gap = 10f64.powf(-cx.rng.uni(6.0, 15.5));
        let (n, m) = (a.n(), b.n());
        if n > 2 * p + 1 {
            let i = cx.rng.range(p + 1, n - p - 1);
            let x = a.u[i + 1] - gap;
            if x > a.u[i - 1] && x > 0.0 {
                a.u[i] = x;
                cx.count("knots of the left curve all but equal");
            }
        }
        if m > 2 * p + 2 {
            let i = cx.rng.range(2 * p + 1, m - 1);
            let x = b.u[i] + gap;
            if x < b.u[i + 2] && x < 1.0 {
                b.u[i + 1] = x;
                cx.count("knots of the right curve all but equal");
            }
        }
    } else if cx.rng.chance(1, 20) {
        b = a.clone();
        cx.count("pairs of equal curves");
    } else if cx.rng.chance(1, 8) {
        // the second is the first seen in a mirror or in a point at the joint: every other derivative
        // agrees already, exactly on round numbers
        let round = cx.rng.chance(2, 3);
        if round {
            for x in a.u.iter_mut() {
                *x = (*x * 16.0).round().clamp(0.0, 16.0) / 16.0;
            }
            if (p + 1..=a.n()).any(|i| a.u[i] == 0.0 || a.u[i] == 1.0) || repeated(&a) > a.max_mult.max(1) {
                a.u = super::fit::uniform_knots(p, a.n());
            }
            for x in a.pts.iter_mut().flatten() {
                *x = (*x * 16.0).round() / 4.0;
            }
        }
        let point = cx.rng.chance(2, 3);
        let n = a.n();
        b = a.clone();
        b.u = a.u.iter().rev().map(|x| 1.0 - x).collect();
        let e = a.pts[n].clone();
        b.pts = a.pts.iter().rev().cloned().collect();
        if point {
            for q in b.pts.iter_mut() {
                for c in 0..dim {
                    q[c] = 2.0 * e[c] - q[c];
                }
            }
        }
        cx.count(if point { "pairs reflected in the joint" } else { "pairs mirrored at the joint" });
    } else if cx.rng.chance(1, 3) {
        // start where a ends
        let d: Vec<f64> = (0..dim).map(|c| a.pts[a.n()][c] - b.pts[0][c]).collect();
        for q in b.pts.iter_mut() {
            for c in 0..dim {
                q[c] += d[c];
            }
        }
        let e = a.pts[a.n()].clone();
        b.pts[0] = e;
        cx.count("pairs that already meet");
    }
    a.note(cx);
    b.note(cx);
    if a.n() != b.n() {
        cx.count("different numbers of segments");
    }
    (a, b)
}

/// Largest multiplicity of an inner knot.
fn repeated(g: &G) -> usize {
    let v = &g.u[g.p + 1..=g.n()];
    v.iter().map(|x| v.iter().filter(|y| *y == x).count()).max().unwrap_or(0)
}

/// One of the public ways of merging, without or with constraints.
fn do_merge(cx: &mut Ctx, a: &Curve, b: &Curve, ca: &[f64], cb: &[f64]) -> R<Curve> {
    let cons = |v: &[f64]| Constraints { params: v.to_vec() };
    if ca.is_empty() && cb.is_empty() && cx.rng.chance(1, 2) {
        return call("merge", || merge(a, b))?.map_err(|e| Viol::from(format!("merge refused: {e:?}")));
    }
    if ca == [1.0] && cb.is_empty() && cx.rng.chance(1, 2) {
        return call("merge_from", || merge_from(a, b))?.map_err(|e| Viol::from(format!("merge_from refused: {e:?}")));
    }
    if ca.is_empty() && cb == [0.0] && cx.rng.chance(1, 2) {
        return call("merge_to", || merge_to(a, b))?.map_err(|e| Viol::from(format!("merge_to refused: {e:?}")));
    }
    let plain = ca.is_empty() && cb.is_empty();
    if cx.rng.chance(1, 2) {
        let mut c = a.clone();
        call("append", || {
            if plain {
                c.append(b);
            } else {
                c.append_constrained(cons(ca), b, cons(cb));
            }
        })?;
        Ok(c)
    } else {
        let mut c = b.clone();
        call("prepend", || {
            if plain {
                c.prepend(a);
            } else {
                c.prepend_constrained(cons(cb), a, cons(ca));
            }
        })?;
        Ok(c)
    }
}

pub fn constraints(cx: &mut Ctx, a: &G, b: &G) -> (Vec<f64>, Vec<f64>) {
    let p = a.p;
    if p < 2 {
        return (vec![], vec![]);
    }
    let total = cx.rng.range(1, p - 1);
    match cx.rng.below(8) {
        0 => return (vec![1.0], vec![]),
        1 => return (vec![], vec![0.0]),
        _ => {}
    }
    let mut ca = vec![];
    let mut cb = vec![];
    let side = cx.rng.below(3);
    for _ in 0..total {
        let left = match side {
            0 => true,
            1 => false,
            _ => cx.rng.chance(1, 2),
        };
        // mostly where the movable control points have influence
        let near = cx.rng.chance(4, 5);
        let x = match cx.rng.below(4) {
            0 if cx.rng.chance(1, 4) => 1.0 - 10f64.powf(-cx.rng.uni(3.0, 16.0)),
            0 => 1.0,
            1 => cx.rng.f(),
            _ => 1.0 - cx.rng.f() * cx.rng.f() * 0.5,
        };
        // constraints next to each other, or the same one twice
        if !(if left { &ca } else { &cb }).is_empty() && cx.rng.chance(1, 8) {
            let v = if left { &mut ca } else { &mut cb };
            let y: f64 = v[v.len() - 1] + *cx.rng.pick(&[1e-2, 1e-3, 5e-4, 1e-4, 1e-5f64]) * *cx.rng.pick(&[1.0, -1.0, 0.3]);
            v.push(y.clamp(0.0, 1.0));
            cx.count("constraints next to each other");
        } else if left && !ca.is_empty() && cx.rng.chance(1, 12) {
            let x = ca[0];
            ca.push(x);
            cx.count("repeated constraints");
        } else if !left && !cb.is_empty() && cx.rng.chance(1, 12) {
            let x = cb[0];
            cb.push(x);
            cx.count("repeated constraints");
        } else if left {
            let lo = a.u[a.n() + 1 - p];
            let knot = if a.n() > p && cx.rng.chance(1, 6) { Some(a.u[a.n() - cx.rng.below((a.n() - p).min(p))]) } else { None };
            if knot.is_some() {
                cx.count("constraints at inner knots");
            }
            ca.push(if let Some(u) = knot { u } else if near { (lo + (1.0 - lo) * x).min(1.0) } else { cx.rng.f() });
        } else {
            let hi = b.u[2 * p];
            let knot = if b.n() > p && cx.rng.chance(1, 6) { Some(b.u[p + 1 + cx.rng.below((b.n() - p).min(p))]) } else { None };
            if knot.is_some() {
                cx.count("constraints at inner knots");
            }
            cb.push(if let Some(u) = knot { u } else if near { (hi * (1.0 - x)).max(0.0) } else { cx.rng.f() });
        }
    }
    (ca, cb)
}

fn merge_err(mr: &MergeRef) -> f64 {
    // constraints of little weight: their multipliers are large, and below 1e-13 they are not seen at all
    EPS * mr.scale.max(1.0) * (2e3 / mr.rcond.max(1e-300) + 1e3 / mr.umin.max(1e-300))
}

/// Rounding the merged curve may carry, relative to the coordinate size; None if not well-posed.
pub fn merge_tol(mr: &MergeRef) -> Option<f64> {
    let t = merge_err(mr);
    if t < 1e-4 && !mr.faint {
        Some(t)
    } else {
        None
    }
}

pub fn csize(a: &RefCurve, b: &RefCurve, mr: &MergeRef, d: usize) -> f64 {
    a.pmax_coord(d).max(b.pmax_coord(d)).max(mr.merged.pmax_coord(d)).max(mr.s.pmax_coord(d)).max(mr.t.pmax_coord(d))
}

/// The knots every merge of a and b must have.
fn merged_knots(a: &G, b: &G) -> Vec<Dd> {
    let p = a.p;
    let half = Dd::new(0.5);
    let mut u: Vec<Dd> = a.u[..a.n() + 1].iter().map(|x| half * Dd::new(*x)).collect();
    u.push(half);
    u.extend(b.u[p + 1..].iter().map(|x| half + half * Dd::new(*x)));
    u
}

fn structure(cx: &mut Ctx, what: &str, c: &Curve, a: &G, b: &G) -> R {
    let p = a.p;
    let (d, s, dim) = (c.degree(), c.segments(), c.dimension());
    let n = a.n() + b.n() + 1 - p;
    cx.check(d == p && s == n && dim == a.dim(), || {
        format!("{what}: degree {d} segments {s} dimension {dim}, expected {p} {n} {}", a.dim())
    })?;
    let want = merged_knots(a, b);
    cmp_knots(cx, what, c, &want, 16.0 * EPS)?;
    let (so, cl, no) = (is_sorted(&c.knots), is_clamped(&c.knots), is_normed(&c.knots));
    cx.check(so && cl && no, || format!("{what}: sorted {so} clamped {cl} normed {no}"))?;
    let h = c.knots.vector().iter().filter(|x| **x == 0.5).count();
    cx.check(h == 1, || format!("{what}: {h} knots at 1/2: {:?}", c.knots.vector()))?;
    let u = c.knots.vector();
    for i in 1..u.len() {
        let (eg, ew) = (u[i] == u[i - 1], (want[i] - want[i - 1]).f() == 0.0);
        let tiny = (want[i] - want[i - 1]).f() < 64.0 * EPS;
        cx.check(eg == ew || tiny, || format!("{what}: multiplicity of knot {i} changed: {u:?}"))?;
    }
    let md = call("max_derivative", || c.max_derivative())?;
    cx.check(md == p, || format!("{what}: max_derivative {md}"))
}

fn c11(cx: &mut Ctx) -> R {
    let (a, b) = pair(cx, 1);
    let (ca, cb) = if cx.rng.chance(1, 3) { constraints(cx, &a, &b) } else { (vec![], vec![]) };
    cx.describe(|| format!("constraints {ca:?} {cb:?}"));
    let (la, lb) = (a.build(cx)?, b.build(cx)?);
    let (ra, rb) = (a.refc(), b.refc());
    let (sa, sb) = (snapshot(&la), snapshot(&lb));
    let c = do_merge(cx, &la, &lb, &ca, &cb)?;
    cx.check(snapshot(&la) == sa && snapshot(&lb) == sb, || "merging changed an input".into())?;
    cx.mark_nontrivial();
    structure(cx, "merged", &c, &a, &b)?;
    consistent(cx, "merged", &c, 0.0)?;
    let p = a.p;
    // control points the joint does not reach
    let m = c.points.matrix();
    let cols = m.ncols();
    for j in 0..a.n() + 1 - p {
        for d in 0..a.dim() {
            let (g, w) = (m[(d, j)], a.pts[j][d]);
            cx.check((g - w).abs() <= 4.0 * EPS * w.abs(), || format!("control point {j} of the left curve moved from {w:e} to {g:e}"))?;
            cx.count("untouched coordinates compared");
        }
    }
    for j in p..=b.n() {
        for d in 0..a.dim() {
            let (g, w) = (m[(d, cols - 1 - (b.n() - j))], b.pts[j][d]);
            cx.check((g - w).abs() <= 4.0 * EPS * w.abs(), || format!("control point {j} of the right curve moved from {w:e} to {g:e}"))?;
            cx.count("untouched coordinates compared");
        }
    }
    // the trace away from the joint, all derivatives
    let (ea, eb) = (a.u[a.n() + 1 - p], b.u[2 * p]);
    for _ in 0..4 {
        for (side, x, e, rc) in [("left", cx.rng.f() * ea, ea > 0.0, &ra), ("right", eb + (1.0 - eb) * cx.rng.f(), eb < 1.0, &rb)] {
            if !e {
                continue;
            }
            let v = if side == "left" { 0.5 * x } else { 0.5 + 0.5 * x };
            let vd = Dd::new(v);
            let ou = if side == "left" { vd + vd } else { vd + vd - Dd::ONE };
            if ou.f() < 0.0 || ou.f() > 1.0 || (side == "left" && ou.f() >= ea) || (side == "right" && ou.f() <= eb) {
                continue;
            }
            let ms = rc.min_span();
            for k in 0..=p {
                let got = evaluate(&c, v, k)?;
                let want = rc.eval(ou, k);
                let f = 2f64.powi(k as i32);
                // knots of the merged curve are rounded: a sample within rounding of a knot may see the other piece
                let near = rc.u.iter().any(|u| (*u - ou).f().abs() < 8.0 * EPS);
                if near && k > 0 {
                    continue;
                }
                for d in 0..a.dim() {
                    let t = (8.0 * tol(p) + 512.0 * p as f64 * EPS / ms) * rc.amp(ou, k) * rc.pmax_coord(d) * f + TINY;
                    cx.close(&format!("{side} part away from the joint: derivative {k} at {v:e}"), got[d], want.v[d] * Dd::new(f), t)?;
                }
            }
            cx.count("samples away from the joint");
        }
    }
    // derivatives up to p-1 from both sides of the joint, through the public interface: the left
    // neighbourhood polynomial against the right one
    let rc = RefCurve::of(&c);
    let half = Dd::new(0.5);
    let (ls, rs) = (rc.span_left(half), rc.span(half));
    for k in 0..p {
        let (l, r) = (rc.eval_span(ls, half, k), rc.eval_span(rs, half, k));
        let got = evaluate(&c, 0.5, k)?;
        for d in 0..a.dim() {
            let t = tol(p) * rc.amp(half, k) * rc.pmax_coord(d) + tol(p) * l.mag[d] + tol(p) * r.mag[d] + TINY;
            cx.close(&format!("left derivative {k} at the joint"), l.v[d].f(), r.v[d], t)?;
            cx.close(&format!("derivative {k} at the joint"), got[d], l.v[d], t)?;
        }
        cx.count("joint derivatives compared");
    }
    Ok(())
}

fn disp_compare(cx: &mut Ctx, what: &str, c: &Curve, a: &G, b: &G, mr: &MergeRef, t: f64) -> R {
    let (ra, rb) = (a.refc(), b.refc());
    let rc = RefCurve::of(c);
    let (s, tt) = rc.unmerge();
    let ok = s.pts.len() == ra.pts.len() && tt.pts.len() == rb.pts.len();
    cx.check(ok, || format!("{what}: halves have {} and {} control points, expected {} and {}", s.pts.len(), tt.pts.len(), ra.pts.len(), rb.pts.len()))?;
    for d in 0..a.dim() {
        let size = csize(&ra, &rb, mr, d);
        for (side, got, want) in [("left", &s, &mr.s), ("right", &tt, &mr.t)] {
            for j in 0..got.pts.len() {
                cx.close_as("displacement", &format!("{what}: {side} half, control point {j} coordinate {d}"), got.pts[j][d].f(), want.pts[j][d], t * size + TINY)?;
            }
        }
    }
    Ok(())
}

fn c12(cx: &mut Ctx) -> R {
    let mode = cx.rng.below(4);
    if mode == 0 {
        return already_joined(cx);
    }
    let (a, b) = pair(cx, 1);
    let (ca, cb) = if mode == 1 { constraints(cx, &a, &b) } else { (vec![], vec![]) };
    cx.hashf(&ca);
    cx.hashf(&cb);
    cx.describe(|| format!("constraints {ca:?} {cb:?}"));
    let (ra, rb) = (a.refc(), b.refc());
    let Some(mr) = merge_ref(&ra, &rb, &ca, &cb) else {
        cx.count("skipped: constraints cannot be met");
        return Ok(());
    };
    let Some(t) = merge_tol(&mr) else {
        cx.count("skipped: ill-conditioned joint");
        return Ok(());
    };
    let (la, lb) = (a.build(cx)?, b.build(cx)?);
    let c = do_merge(cx, &la, &lb, &ca, &cb)?;
    structure(cx, "merged", &c, &a, &b)?;
    cx.mark_nontrivial();
    disp_compare(cx, "merged", &c, &a, &b, &mr, t)?;
    // everything may cancel: rounding is relative to all the points involved
    let mut size = mr.s.clone();
    size.pts.extend(mr.t.pts.iter().chain(&ra.pts).chain(&rb.pts).cloned());
    cmp_points_of(cx, "merged", &c, &mr.merged, t * 4.0, &size)?;
    cx.count(if ca.is_empty() && cb.is_empty() { "unconstrained displacements compared" } else { "constrained displacements compared" });
    let norm = mr.x.fro();
    if norm > 1e-3 {
        cx.count("displacements of notable size");
    }
    Ok(())
}

/// Two halves of one smooth curve, taken apart exactly and rounded: merging must not move anything.
fn already_joined(cx: &mut Ctx) -> R {
    let (a, b) = pair(cx, 1);
    let (ra, rb) = (a.refc(), b.refc());
    let Some(mr) = merge_ref(&ra, &rb, &[], &[]) else { return Ok(()) };
    let Some(t) = merge_tol(&mr) else {
        cx.count("skipped: ill-conditioned joint");
        return Ok(());
    };
    // a and b with their smooth displacement applied
    let round = |r: &RefCurve, g: &G| {
        let mut h = g.clone();
        for (j, q) in r.pts.iter().enumerate() {
            for (d, x) in q.iter().enumerate() {
                h.pts[j][d] = x.f();
            }
        }
        h
    };
    let (sa, sb) = (round(&mr.s, &a), round(&mr.t, &b));
    let (la, lb) = (sa.build(cx)?, sb.build(cx)?);
    // rounded, they may be apart by a little, which is much where a coordinate consists of rounding only
    let Some(mr) = merge_ref(&sa.refc(), &sb.refc(), &[], &[]) else { return Ok(()) };
    let c = do_merge(cx, &la, &lb, &[], &[])?;
    structure(cx, "merged smooth pair", &c, &a, &b)?;
    cx.mark_nontrivial();
    disp_compare(cx, "merged smooth pair", &c, &sa, &sb, &mr, t)?;
    cx.count("smooth pairs merged");
    // with constraints there is still nothing to move
    if a.p >= 2 {
        let (ca, cb) = constraints(cx, &a, &b);
        if let Some(m2) = merge_ref(&sa.refc(), &sb.refc(), &ca, &cb) {
if let Some(t2) = merge_tol(&m2) {
                let c = do_merge(cx, &la, &lb, &ca, &cb)?;
                disp_compare(cx, "constrained merge of a smooth pair", &c, &sa, &sb, &mr, t.max(t2))?;
                cx.count("smooth pairs merged with constraints");
            }
        }
    }
    Ok(())
}

fn c13(cx: &mut Ctx) -> R {
    let (a, b) = pair(cx, 2);
    let (ca, cb) = constraints(cx, &a, &b);
    cx.hashf(&ca);
    cx.hashf(&cb);
    cx.describe(|| format!("constraints {ca:?} {cb:?}"));
    let (ra, rb) = (a.refc(), b.refc());
    let Some(mr) = merge_ref(&ra, &rb, &ca, &cb) else {
        cx.count("skipped: constraints cannot be met");
        return Ok(());
    };
    // the points kept are known better than the displacements: what a solution does to the equations it solves
    let t = merge_err(&mr) / 20.0;
    if !(t < 1e-5) || mr.faint {
        cx.count("skipped: ill-conditioned joint");
        return Ok(());
    }
    let (la, lb) = (a.build(cx)?, b.build(cx)?);
    let (sa, sb) = (snapshot(&la), snapshot(&lb));
    let c = do_merge(cx, &la, &lb, &ca, &cb)?;
    cx.check(snapshot(&la) == sa && snapshot(&lb) == sb, || "merging changed an input".into())?;
    cx.mark_nontrivial();
    structure(cx, "constrained merge", &c, &a, &b)?;
    let dn = mr.x.maxabs();
    for (side, list, rc) in [("left", &ca, &ra), ("right", &cb, &rb)] {
        for &u in list {
            let v = if side == "left" { 0.5 * u } else { 0.5 + 0.5 * u };
            let got = evaluate(&c, v, 0)?;
            let want = rc.eval(Dd::new(u), 0);
            let slope = rc.eval(Dd::new(u), 1);
            for d in 0..a.dim() {
                let size = csize(&ra, &rb, &mr, d);
                let t = (t + tol(a.p)) * size + 4.0 * EPS * slope.mag[d] + TINY;
                cx.close_as("constraint", &format!("{side} curve's point at {u:e} (merged at {v:e}) coordinate {d}"), got[d], want.v[d], t)?;
            }
            cx.count(if side == "left" { "left constraints checked" } else { "right constraints checked" });
            if u == 1.0 && side == "left" || u == 0.0 && side == "right" {
                cx.count("joint end kept");
            }
        }
    }
    if dn > 1e-3 {
        cx.count("displacements of notable size");
    }
    Ok(())
}

fn close_curves(cx: &mut Ctx, what: &str, c: &Curve, want: &Curve, t: f64) -> R {
    let w = RefCurve::of(want);
    cmp_knots(cx, what, c, &w.u, 8.0 * EPS)?;
    cmp_points(cx, what, c, &w, t)
}

fn c14(cx: &mut Ctx) -> R {
    if cx.rng.chance(1, 2) {
        // append, prepend and merge agree
        let (a, b) = pair(cx, 1);
        let (ca, cb) = if cx.rng.chance(1, 2) { constraints(cx, &a, &b) } else { (vec![], vec![]) };
        cx.describe(|| format!("constraints {ca:?} {cb:?}"));
        cx.hashf(&ca);
        cx.hashf(&cb);
        let t = match merge_ref(&a.refc(), &b.refc(), &ca, &cb) {
            Some(mr) => merge_tol(&mr),
            None => None,
        };
        let (la, lb) = (a.build(cx)?, b.build(cx)?);
        let (sa, sb) = (snapshot(&la), snapshot(&lb));
        let cons = |v: &[f64]| Constraints { params: v.to_vec() };
        let mut ap = la.clone();
        let mut pr = lb.clone();
        if ca.is_empty() && cb.is_empty() {
            let m = call("merge", || merge(&la, &lb))?.map_err(|e| format!("merge refused: {e:?}"))?;
            let r = call("append", || ap.append(&lb) as *const Curve)?;
            cx.check(r == &ap as *const Curve, || "append returns another curve".into())?;
            let r = call("prepend", || pr.prepend(&la) as *const Curve)?;
            cx.check(r == &pr as *const Curve, || "prepend returns another curve".into())?;
            if let Some(t) = t {
                close_curves(cx, "append against merge", &ap, &m, t)?;
                close_curves(cx, "prepend against merge", &pr, &m, t)?;
                consistent(cx, "append", &ap, 0.0)?;
                consistent(cx, "prepend", &pr, 0.0)?;
                cx.mark_nontrivial();
                cx.count("plain pairs compared");
            }
        } else {
            call("append_constrained", || {
                ap.append_constrained(cons(&ca), &lb, cons(&cb));
            })?;
            call("prepend_constrained", || {
                pr.prepend_constrained(cons(&cb), &la, cons(&ca));
            })?;
            if let Some(t) = t {
                close_curves(cx, "prepend against append with constraints", &pr, &ap, t)?;
                consistent(cx, "append_constrained", &ap, 0.0)?;
                consistent(cx, "prepend_constrained", &pr, 0.0)?;
                let m = if ca == [1.0] && cb.is_empty() {
                    Some(call("merge_from", || merge_from(&la, &lb))?)
                } else if ca.is_empty() && cb == [0.0] {
                    Some(call("merge_to", || merge_to(&la, &lb))?)
                } else {
                    None
                };
                if let Some(m) = m {
                    let m = m.map_err(|e| format!("merge refused: {e:?}"))?;
                    close_curves(cx, "append against merge_from/merge_to", &ap, &m, t)?;
                    cx.count("one-sided forms compared");
                }
                cx.mark_nontrivial();
                cx.count("constrained pairs compared");
            }
        }
        cx.check(snapshot(&la) == sa && snapshot(&lb) == sb, || "appending or prepending changed its argument".into())?;
        return Ok(());
    }
    // split at 1/2, merge again
    if cx.rng.chance(1, 8) {
        return short_spans(cx);
    }
    let o = mopt(cx);
    let mut g = gen::gen(cx, o);
    let mult = g.u.iter().filter(|x| **x == 0.5).count();
    if mult > 1 {
        // keep one
        let mut inner: Vec<f64> = g.u[g.p + 1..g.n() + 1].to_vec();
        let i = inner.iter().position(|x| *x == 0.5).unwrap();
        inner.drain(i..i + mult - 1);
        g.u = gen::clamp(g.p, &inner);
        let n = g.p + inner.len();
        g.pts.truncate(n + 1);
    }
    g.note(cx);
    let gap = g.u.iter().map(|x| (x - 0.5).abs()).filter(|x| *x > 0.0).fold(1.0, f64::min);
    if gap < 0.01 {
        cx.count("skipped: knot right next to 1/2");
        return Ok(());
    }
    let c = g.build(cx)?;
    let rc = g.refc();
    let (l, r) = call("split", || c.split(0.5))?.map_err(|e| format!("split at 1/2 refused: {e:?}"))?;
    let (rl, rr) = (RefCurve::of(&l), RefCurve::of(&r));
    let Some(mr) = merge_ref(&rl, &rr, &[], &[]) else { return Ok(()) };
    let Some(t) = merge_tol(&mr) else {
        cx.count("skipped: ill-conditioned joint");
        return Ok(());
    };
    cx.mark_nontrivial();
    let back = do_merge(cx, &l, &r, &[], &[])?;
    let want = if rc.u.iter().any(|x| *x == Dd::new(0.5)) { rc.clone() } else { rc.insert(Dd::new(0.5)) };
    cmp_knots(cx, "split and merged", &back, &want.u, 16.0 * EPS)?;
    // rounding in the pieces is amplified like any displacement of the joint
    cmp_points_of(cx, "split and merged", &back, &want, 4.0 * t, &rc)?;
    for u in params(cx, &g.u, g.p, 8) {
        let got = evaluate(&back, u, 0)?;
        let w = rc.eval(Dd::new(u), 0);
        for d in 0..g.dim() {
            cx.close_as("trace", &format!("split and merged: point at {u:e}"), got[d], w.v[d], 4.0 * t * rc.pmax_coord(d) + TINY)?;
        }
    }
    cx.count("split at 1/2 and merged");
    if mult > 0 {
        cx.count("split at an existing knot and merged");
    }
    // both pieces as they are, through the unnormalised form, are refused or not clamped to [0,1]
    if cx.rng.chance(1, 8) {
        let (l2, r2) = call("split_and_normalize", || split_and_normalize(&c, 0.5, (false, false)))?.map_err(|e| format!("{e:?}"))?;
        let e = call("merge", || merge(&l2, &r2))?;
        cx.check(matches!(e, Err(MergeError::UnclampedCurve) | Err(MergeError::UnnormedCurve)), || {
            format!("merging curves on [0,1/2] and [1/2,1] gave {:?}", e.err())
        })?;
    }
    Ok(())
}

/// Round trip with a very short span next to the joint. The bound follows the condition of the joint,
/// h^(2-2p) for a span h; spans for which it exceeds a percent are not generated.
fn short_spans(cx: &mut Ctx) -> R {
    let p = cx.rng.range(1, 3);
    let least = [1e-12, 1e-10, 1e-5][p - 1];
    let h = 10f64.powf(cx.rng.uni(f64::log10(least), -2.0));
    let left = cx.rng.chance(1, 2);
    let both = cx.rng.chance(1, 3);
    let mut inner = vec![];
    if left || both {
        inner.push(0.5 - 0.5 * h);
    }
    if !left || both {
        inner.push(0.5 + 0.5 * h * cx.rng.uni(1.0, 2.0));
    }
    if cx.rng.chance(1, 2) {
        inner.insert(0, 0.25);
    }
    if cx.rng.chance(1, 2) {
        inner.push(0.75);
    }
    let n = p + inner.len();
    let dim = cx.rng.range(1, 2);
    let pts: Vec<Vec<f64>> = (0..=n).map(|_| (0..dim).map(|_| cx.rng.uni(-1.0, 1.0)).collect()).collect();
    let g = G { p, u: gen::clamp(p, &inner), pts, kclass: "short span at the joint", pclass: "random", max_mult: 1 };
    g.note(cx);
    let c = g.build(cx)?;
    let rc = g.refc();
    let (l, r) = call("split", || c.split(0.5))?.map_err(|e| format!("split at 1/2 refused: {e:?}"))?;
    let back = do_merge(cx, &l, &r, &[], &[])?;
    cx.check(back.segments() == n + 1, || format!("split and merged: {} segments instead of {}", back.segments(), n + 1))?;
    let t = 1e3 * EPS * h.powi(1 - p as i32);
    for u in params(cx, &g.u, g.p, 8) {
        // knots are rounded: next to the short span the trace moves with them
        if (u - 0.5).abs() < 4.0 * h {
            continue;
        }
        let got = evaluate(&back, u, 0)?;
        let w = rc.eval(Dd::new(u), 0);
        for d in 0..dim {
            cx.close_as("short span", &format!("split and merged: point at {u:e}"), got[d], w.v[d], t)?;
        }
    }
    cx.count("split and merged next to a short span");
    cx.mark_nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- C15

fn c15(cx: &mut Ctx) -> R {
    let o = COpt { pmax: 5, max_extra: 6, ..mopt(cx) };
    let pa = if cx.rng.chance(1, 60) { cx.rng.range(6, 9) } else { cx.rng.range(1, 5) };
    let da = if cx.rng.chance(1, 60) { cx.rng.range(5, 20) } else { cx.rng.range(1, 4) };
    let mut kinds = vec![];
    let mut pb = pa;
    let mut db = da;
    let r = cx.rng.below(16);
    if r & 1 == 1 && cx.rng.chance(1, 2) {
        while pb == pa {
            pb = cx.rng.range(1, 5);
        }
        kinds.push("degree");
    }
    if r & 2 == 2 && cx.rng.chance(1, 2) {
        while db == da {
            db = cx.rng.range(1, 4);
        }
        kinds.push("dimension");
    }
    let mut a = gen_p(cx, o, pa, da);
    let mut b = gen_p(cx, o, pb, db);
    if r & 4 == 4 && cx.rng.chance(1, 2) {
        let left = cx.rng.chance(1, 2);
        let g = if left { &mut a } else { &mut b };
        let l = g.u.len();
        let p = g.p;
        // also by as little as can be told apart
        let tiny = *cx.rng.pick(&[EPS, EPS, 1e-15, 1e-14, 1e-12, 1e-10, 1e-9, 1e-7, 1e-5]);
        let kind = cx.rng.below(12);
        if (6..10).contains(&kind) {
            cx.count("clamping missed by a hair");
        }
        match kind {
            6 => g.u[p] = tiny.min(0.5 * g.u[p + 1]),
            7 => g.u[l - 1 - p] = 1.0 - tiny.min(0.5 * (1.0 - g.u[l - 2 - p])),
            8 => g.u[0] = -*cx.rng.pick(&[tiny, 1e-300]),
            9 => g.u[l - 1] = 1.0 + tiny,
            10 | 11 if l > 2 * p + 2 => {
                // clamped, but not normed
                let i = cx.rng.range(p + 1, l - p - 2);
                let far = *cx.rng.pick(&[tiny, 1e-3, 0.5, 3.0]);
                g.u[i] = if kind == 10 { -far } else { 1.0 + far.max(4.0 * EPS) };
            }
            10 | 11 => {}
            0 => g.u[p] = g.u[p + 1].min(0.01) * 0.5,
            1 => g.u[l - 1 - p] = 1.0 - (1.0 - g.u[l - 2 - p]).min(0.01) * 0.5,
            2 => g.u[0] = -0.25,
            3 => g.u[l - 1] = 1.25,
            4 => {
                for x in g.u.iter_mut() {
                    *x *= 0.5;
                }
            }
            _ => {
                for x in g.u.iter_mut() {
                    *x = 0.5 + 0.5 * *x;
                }
            }
        }
        let (p, l) = (g.p, g.u.len());
        if g.u[..=p].iter().any(|x| *x != 0.0) || g.u[l - p - 1..].iter().any(|x| *x != 1.0) {
            kinds.push("clamping");
        } else if g.u.iter().any(|x| *x < 0.0 || *x > 1.0) {
            kinds.push("clamping");
            cx.count("clamped, but with inner knots outside of the clamps");
        }
    }
    a.note(cx);
    b.note(cx);
    let lim = pa;
    let total = if r & 8 == 8 && cx.rng.chance(1, 2) {
        kinds.push("constraints");
        cx.rng.range(lim, lim + 3)
    } else {
        cx.rng.range(0, lim - 1)
    };
    let na = cx.rng.range(0, total);
    // admissible constraint sets are spread, so that they are not in each other's way
    let ca: Vec<f64> = (0..na).map(|i| 1.0 - 0.9 * i as f64 / (na.max(1)) as f64 * 0.5).collect();
    let cb: Vec<f64> = (0..total - na).map(|i| 0.07 + 0.45 * i as f64 / (total - na) as f64).collect();
    let (mut ca, mut cb) = (ca, cb);
    if cx.rng.chance(1, 4) {
        // the same constraint several times counts as often
        for v in [&mut ca, &mut cb] {
            if v.len() > 1 {
                let i = cx.rng.range(1, v.len() - 1);
                v[i] = v[i - 1];
                if cx.rng.chance(1, 2) {
                    let x = v[0];
                    v.fill(x);
                }
                cx.count("repeated constraints");
            }
        }
    }
    cx.describe(|| format!("kinds {kinds:?}, constraints {ca:?} {cb:?}"));
    for k in &kinds {
        cx.hash(k.len() as u64);
        cx.count(&format!("incompatible: {k}"));
    }
    if kinds.is_empty() {
        cx.count("compatible");
    }
    if kinds.len() > 1 {
        cx.count("several incompatibilities at once");
    }
    cx.mark_nontrivial();
    let mk = |g: &G| Curve::new(Knots::new(g.p, vecd(&g.u)), ControlPoints::new(gen::mat(&g.pts)));
    let la = call("Curve::new", || mk(&a))?.map_err(|e| format!("{e:?}"))?;
    let lb = call("Curve::new", || mk(&b))?.map_err(|e| format!("{e:?}"))?;
    let (sa, sb) = (snapshot(&la), snapshot(&lb));
    let allowed = |e: &MergeError, total: usize| match e {
        MergeError::DegreeMismatch { left, right } => pa != pb && *left == pa && *right == pb,
        MergeError::DimensionMismatch { left, right } => da != db && *left == da && *right == db,
        MergeError::UnclampedCurve => kinds.contains(&"clamping"),
        MergeError::UnnormedCurve => kinds.contains(&"clamping"),
        MergeError::TooManyConstraints { totalConstraints, degree } => {
            total >= pa.min(pb) && *totalConstraints == total && (*degree == pa || *degree == pb)
        }
        _ => false,
    };
    // forms that return an error
    for form in 0..3 {
        let (name, cnt) = [("merge", 0), ("merge_from", 1), ("merge_to", 1)][form];
        let r = call(name, || match form {
            0 => merge(&la, &lb),
            1 => merge_from(&la, &lb),
            _ => merge_to(&la, &lb),
        })?;
        let bad = pa != pb || da != db || kinds.contains(&"clamping") || cnt >= pa;
        match &r {
            Ok(_) => cx.check(!bad, || format!("{name} accepted incompatible curves ({kinds:?}, degree {pa})"))?,
            Err(e) => cx.check(bad && allowed(e, cnt), || format!("{name} of {kinds:?} (degree {pa}, {pb}, dimension {da}, {db}) returned {e:?}"))?,
        }
        if let Err(e) = &r {
            names(cx, e)?;
        }
        if let (Ok(c), true) = (&r, form == 0) {
            structure(cx, name, c, &a, &b)?;
        }
        if bad {
            cx.count("refusals observed");
        }
    }
    // in-place forms: the refusal is a panic naming the error, and the receiver stays as it was
    let cons = |v: &[f64]| Constraints { params: v.to_vec() };
    for form in 0..4 {
        let (name, cnt) = [("append", 0), ("prepend", 0), ("append_constrained", total), ("prepend_constrained", total)][form];
        let mut rec = if form % 2 == 0 { la.clone() } else { lb.clone() };
        let before = snapshot(&rec);
        let r = call(name, || {
            match form {
                0 => rec.append(&lb),
                1 => rec.prepend(&la),
                2 => rec.append_constrained(cons(&ca), &lb, cons(&cb)),
                _ => rec.prepend_constrained(cons(&cb), &la, cons(&ca)),
            };
        });
        let bad = pa != pb || da != db || kinds.contains(&"clamping") || cnt >= pa;
        match r {
            Ok(()) => {
                cx.check(!bad, || format!("{name} accepted incompatible curves ({kinds:?}, {cnt} constraints, degree {pa})"))?;
                structure(cx, name, &rec, &a, &b)?;
            }
            Err(v) => {
                if !bad {
                    return Err(v);
                }
                // without the name of the form
                let msg = v.msg.replace(name, "").to_lowercase();
                let named = (pa != pb && msg.contains("degree"))
                    || (da != db && msg.contains("dimension"))
                    || (kinds.contains(&"clamping") && (msg.contains("clamped") || msg.contains("normed")))
                    || (cnt >= pa.min(pb) && msg.contains("constrain"));
                cx.check(named, || format!("{name} of {kinds:?} failed otherwise: {}", v.msg))?;
                cx.check(snapshot(&rec) == before, || format!("refused {name} changed its receiver"))?;
                cx.count("refusals observed");
            }
        }
    }
    cx.check(snapshot(&la) == sa && snapshot(&lb) == sb, || "a merge form changed an input".into())
}
