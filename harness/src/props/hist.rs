//! C24: histories of operations.
use super::*;
use bsplines::curve::points::Points;
use crate::gen::{self, gen_p, params, span_samples, COpt, G};
use crate::refm::merge_ref;
use bsplines::manipulation::insert::{insert as lib_insert, InsertError};
use bsplines::manipulation::merge::{merge, merge_from, merge_to, Constraints};
use bsplines::manipulation::reverse::{reverse as lib_reverse, reversed as lib_reversed};
use bsplines::manipulation::split::{split_and_normalize, SplitError};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        case: c24,
        quick: 40000,
        thorough: 1500000,
        min_nontrivial: 8000,
        rule: "a case is one curve taken through a random history of 2 to 14 (thorough: up to 40) accepted and refused operations; after every step the state is compared with the same step of \
               the reference model, with everything stored recomputed, with the clones taken earlier, and with the trace since the last merge or derivation; distinct by the bits of the curve \
               and all operations",
        assumptions: &[A_MODEL, A_TOL, A_CLAMPED, "histories stop when knot spans get below 1e-5 (counted)"],
    }]
}

/// A parameter well away from all knots, or exactly one of them.
fn place(cx: &mut Ctx, u: &[f64], p: usize) -> f64 {
    let inner = &u[p + 1..u.len() - p - 1];
    for _ in 0..30 {
        if !inner.is_empty() && cx.rng.chance(1, 3) {
            return *cx.rng.pick(inner);
        }
        let x = match cx.rng.below(5) {
            0 => 0.5,
            1 => cx.rng.range(1, 15) as f64 / 16.0,
            2 => cx.rng.range(1, 9) as f64 / 10.0,
            _ => cx.rng.uni(0.01, 0.99),
        };
        if u.iter().all(|k| *k == x || (k - x).abs() > 2e-3) {
            return x;
        }
    }
    // middle of the widest span
    let mut best = (0.0, 0.5);
    for w in u.windows(2) {
        if w[1] - w[0] > best.0 {
            best = (w[1] - w[0], 0.5 * (w[0] + w[1]));
        }
    }
    best.1
}

/// The trace at the start of the history (or the last merge or derivation), and where the current
/// parameter range lies in it.
struct Base {
    rc: RefCurve,
    alpha: Dd,
    beta: Dd,
    steps: usize,
}
impl Base {
    fn of(c: &Curve) -> Base {
        Base { rc: RefCurve::of(c), alpha: Dd::ZERO, beta: Dd::ONE, steps: 0 }
    }
}

fn bits_ok(cx: &mut Ctx, wit: &[(Curve, Vec<u64>)], op: &str) -> R {
    for (c, s) in wit {
        let same = snapshot(c) == *s;
        cx.check(same, || format!("{op} changed a clone taken earlier"))?;
        cx.count("clones compared after a step");
    }
    Ok(())
}

fn c24(cx: &mut Ctx) -> R {
    let o = COpt { pmin: 1, pmax: 6, max_extra: 8, max_dim: 3, ulps: false, min_gap: 0.02, mult_below: 0, tame: true };
    let g = gen::gen(cx, o);
    g.note(cx);
    let mut c = g.build(cx)?;
    let mut base = Base::of(&c);
    let mut wit: Vec<(Curve, Vec<u64>)> = vec![];
    let mut revs = 0usize;
    let steps = if cx.thorough { cx.rng.range(2, 40) } else { cx.rng.range(2, 14) };
    let mut done = 0u64;
    for step in 0..steps {
        let p = c.degree();
        let dim = c.dimension();
        let old = RefCurve::of(&c);
        let u: Vec<f64> = c.knots.vector().iter().cloned().collect();
        if old.min_span() < 1e-5 {
            cx.count("histories stopped: small spans");
            break;
        }
        if old.n() > 90 {
            cx.count("histories stopped: many segments");
            break;
        }
        let before = snapshot(&c);
        let op = cx.rng.below(22);
        cx.hash(op as u64);
        let name: String;
        match op {
            0..=3 => {
                // insertion
                let x = place(cx, &u, p);
                let m = old.mult(x);
                let times = cx.rng.range(1, (p + 2 - m.min(p + 1)).min(3));
                name = format!("step {step}: insert {x:e} x{times}");
                cx.hashf(&[x, times as f64]);
                let nm = name.clone();
                cx.describe(|| nm);
                let r = if times > 1 || cx.rng.chance(1, 3) {
                    call("insert_times", || c.insert_times(x, times).map(|_| ()))?
                } else if cx.rng.chance(1, 2) {
                    call("insert", || c.insert(x).map(|_| ()))?
                } else {
                    call("manipulation::insert", || lib_insert(&mut c, x))?
                };
                let fit = (p + 1).saturating_sub(m).min(times);
                let mut want = old.clone();
                for _ in 0..fit {
                    want = want.insert(Dd::new(x));
                }
                if fit == times {
                    r.map_err(|e| format!("{name} refused: {e:?}"))?;
                } else {
                    let ok = matches!(&r, Err(InsertError::MultiplicityError { u, .. }) if *u == x);
                    cx.check(ok, || format!("{name} at multiplicity {m}, degree {p}: {r:?}"))?;
                    cx.count("refused: multiplicity");
                    if fit == 0 {
                        cx.check(snapshot(&c) == before, || format!("{name}: refused, but the curve changed"))?;
                    }
                }
                cmp_knots(cx, &name, &c, &want.u, 0.0)?;
                cmp_points_of(cx, &name, &c, &want, 4.0 * tol(p), &old)?;
                if fit > 0 {
                    revs = 0;
                }
                base.steps += fit;
                cx.count("op=insert");
            }
            4..=6 => {
                // split; go on with one of the pieces
                let x = place(cx, &u, p);
                let m = old.mult(x);
                let raw = cx.rng.chance(1, 4);
                name = format!("step {step}: split at {x:e}");
                cx.hashf(&[x]);
                let nm = name.clone();
                cx.describe(|| nm);
                let r = call("split", || if raw { split_and_normalize(&c, x, (true, true)) } else { c.split(x) })?;
                cx.check(snapshot(&c) == before, || format!("{name} changed the curve"))?;
                if m > p {
                    let ok = matches!(&r, Err(SplitError::MultiplicityTooHigh { u, .. }) if *u == x);
                    cx.check(ok, || format!("{name} at multiplicity {m}, degree {p}: {:?}", r.err()))?;
                    cx.count("refused: multiplicity");
                } else {
                    let (a, b) = r.map_err(|e| format!("{name} refused: {e:?}"))?;
                    let xd = Dd::new(x);
                    let (ra, rb) = old.split(xd);
                    for (side, q, rq) in [("left", &a, &ra), ("right", &b, &rb)] {
                        let rq = rq.normalized();
                        cmp_knots(cx, &format!("{name}, {side} piece"), q, &rq.u, 16.0 * EPS)?;
                        cmp_points_of(cx, &format!("{name}, {side} piece"), q, &rq, 4.0 * tol(p), &old)?;
                    }
                    let left = cx.rng.chance(1, 2);
                    cx.hash(left as u64);
                    let (keep, other) = if left { (a, b) } else { (b, a) };
                    consistent(cx, &format!("{name}, other piece"), &other, 0.0)?;
                    let s = snapshot(&c);
                    wit.push((c, s));
                    let s = snapshot(&other);
                    wit.push((other, s));
                    c = keep;
                    if left {
                        base.beta = base.beta * xd;
                    } else {
                        base.alpha = base.alpha + base.beta * xd;
                        base.beta = base.beta * (Dd::ONE - xd);
                    }
                    base.steps += p + 1;
                    revs = 0;
                }
                cx.count("op=split");
            }
            7..=9 => {
                name = format!("step {step}: reverse");
                let nm = name.clone();
                cx.describe(|| nm);
                match cx.rng.below(3) {
                    0 => {
                        let r = call("reversed", || lib_reversed(&c))?;
                        cx.check(snapshot(&c) == before, || "reversed() changed its input".into())?;
                        c = r;
                    }
                    1 => call("reverse", || {
                        c.reverse();
                    })?,
                    _ => call("manipulation::reverse", || {
                        lib_reverse(&mut c);
                    })?,
                }
                let want = old.reversed();
                cmp_knots(cx, &name, &c, &want.u, 4.0 * EPS)?;
                cmp_points(cx, &name, &c, &want, 0.0)?;
                base.alpha = base.alpha + base.beta;
                base.beta = -base.beta;
                base.steps += 1;
                revs += 1;
                cx.count("op=reverse");
            }
            10..=12 => {
                // merge with another curve
                let other = match cx.rng.below(4) {
                    0 => {
                        cx.count("merged with its own clone");
                        c.clone()
                    }
                    1 => {
                        cx.count("merged with its own reverse");
                        call("reversed", || lib_reversed(&c))?
                    }
                    _ => {
                        let h = gen_p(cx, COpt { mult_below: 1, ..o }, p, dim);
                        h.note(cx);
                        h.build(cx)?
                    }
                };
                let os = snapshot(&other);
                let ro = RefCurve::of(&other);
                let first = cx.rng.chance(1, 2);
                let form = cx.rng.below(4);
                name = format!("step {step}: merge, current curve {}, form {form}", if first { "first" } else { "second" });
                let nm = name.clone();
                cx.describe(|| nm);
                cx.hash((first as u64) * 8 + form as u64);
                let (ra, rb) = if first { (&old, &ro) } else { (&ro, &old) };
                // knots of multiplicity > p next to each other can leave movable points without influence: allowed, but not compared
                let one = form == 2 && p >= 2;
                let (ca, cb): (Vec<f64>, Vec<f64>) = match (one, cx.rng.below(2)) {
                    (true, 0) => (vec![1.0], vec![]),
                    (true, _) => (vec![], vec![0.0]),
                    _ => (vec![], vec![]),
                };
                let mr = merge_ref(ra, rb, &ca, &cb);
                let t = mr.as_ref().and_then(super::merge::merge_tol);
                let cons = |v: &[f64]| Constraints { params: v.to_vec() };
                let r = call("merge", || -> Result<Curve, String> {
                    if one {
                        return if form == 2 && ca.len() == 1 {
                            if first { merge_from(&c, &other) } else { merge_from(&other, &c) }
                        } else if first {
                            merge_to(&c, &other)
                        } else {
                            merge_to(&other, &c)
                        }
                        .map_err(|e| format!("{e:?}"));
                    }
                    match (form, first) {
                        (0, true) => merge(&c, &other).map_err(|e| format!("{e:?}")),
                        (0, false) => merge(&other, &c).map_err(|e| format!("{e:?}")),
                        (1, true) => {
                            let mut d = c.clone();
                            d.append(&other);
                            Ok(d)
                        }
                        (1, false) => {
                            let mut d = c.clone();
                            d.prepend(&other);
                            Ok(d)
                        }
                        (_, true) => {
                            let mut d = c.clone();
                            d.append_constrained(cons(&ca), &other, cons(&cb));
                            Ok(d)
                        }
                        (_, false) => {
                            let mut d = c.clone();
                            d.prepend_constrained(cons(&cb), &other, cons(&ca));
                            Ok(d)
                        }
                    }
                })?;
                cx.check(snapshot(&c) == before && snapshot(&other) == os, || format!("{name} changed an input"))?;
                let d = r.map_err(|e| format!("{name} refused: {e}"))?;
                let (s, w) = (d.segments(), ra.n() + rb.n() + 1 - p);
                cx.check(s == w, || format!("{name}: {s} segments, expected {w}"))?;
                let s = snapshot(&c);
                wit.push((c, s));
                wit.push((other, os));
                match (t, mr) {
                    (Some(t), Some(mr)) => {
                        cmp_knots(cx, &name, &d, &mr.merged.u, 16.0 * EPS)?;
                        let m = d.points.matrix();
                        for r in 0..dim {
                            let s = super::merge::csize(ra, rb, &mr, r);
                            for j in 0..m.ncols() {
                                cx.close_as("merge", &format!("{name}: point {j} coordinate {r}"), m[(r, j)], mr.merged.pts[j][r], 4.0 * t * s + TINY)?;
                            }
                        }
                        cx.count("merges compared");
                        c = d;
                    }
                    _ => {
                        cx.count("merges of ill-conditioned joints not compared");
                        let ok = d.points.matrix().iter().all(|x| x.is_finite());
                        if !ok {
                            cx.count("histories stopped: ill-conditioned merge");
                            return Ok(());
                        }
                        c = d;
                    }
                }
                base = Base::of(&c);
                revs = 0;
                cx.count("op=merge");
            }
            13 => {
                // derivative curve
                let k = cx.rng.range(0, p);
                name = format!("step {step}: derivative curve {k}");
                let nm = name.clone();
                cx.describe(|| nm);
                let most = (p + 1..=old.n()).map(|i| old.mult(old.u[i].f())).max().unwrap_or(0);
                let d = call("get_derivative_curve", || c.get_derivative_curve(k))?;
                cx.check(snapshot(&c) == before, || format!("{name} changed the curve"))?;
                let (a, b) = (d.degree(), d.segments());
                cx.check(a == p - k && b == old.n() - k, || format!("{name}: degree {a}, {b} segments"))?;
                // a knot of higher multiplicity than the derivative's degree + 1 has basis functions without support
                if k < p && most <= p - k + 1 {
                    // sizes: every differentiation magnifies by p over the smallest support
                    let want = old.derivative(k);
                    cmp_knots(cx, &name, &d, &want.u, 0.0)?;
                    let sp = old.min_span();
                    let f = (2.0 * p as f64 / sp).powi(k as i32);
                    let m = d.points.matrix();
                    for r in 0..dim {
                        let s = old.pmax_coord(r) * f * (1.0 + 8.0 * revs as f64 / sp);
                        for j in 0..m.ncols() {
                            cx.close_as("derivative curve", &format!("{name}: point {j} coordinate {r}"), m[(r, j)], want.pts[j][r], 4.0 * tol(p) * s + TINY)?;
                        }
                    }
                    let s = snapshot(&c);
                    wit.push((c, s));
                    c = d;
                    base = Base::of(&c);
                    revs = 0;
                }
                cx.count("op=derivative curve");
            }
            14 | 15 => {
                // go on with a clone, or with the source
                name = format!("step {step}: clone");
                let nm = name.clone();
                cx.describe(|| nm);
                let d = call("clone", || c.clone())?;
                cx.check(snapshot(&d) == before, || "a clone differs from its source".into())?;
                if cx.rng.chance(1, 2) {
                    wit.push((d, before.clone()));
                } else {
                    let src = std::mem::replace(&mut c, d);
                    wit.push((src, before.clone()));
                }
                cx.count("op=clone");
            }
            20 | 21 => {
                // edit knots or points in place and derive again
                let inner = u.len() - 2 * (p + 1);
                let knot = inner > 0 && cx.rng.chance(1, 2);
                let mut want = old.clone();
                if knot {
                    let i = p + 1 + cx.rng.below(inner);
                    let (lo, hi) = (u[i - 1], u[i + 1]);
                    let x = match cx.rng.below(4) {
                        0 if lo > 0.0 => lo,
                        1 if hi < 1.0 => hi,
                        _ => lo + (hi - lo) * cx.rng.uni(0.2, 0.8),
                    };
                    let x = if !(x > 0.0 && x < 1.0) || want.mult(x) > p { u[i] } else { x };
                    name = format!("step {step}: move knot {i} to {x:e}");
                    cx.hashf(&[i as f64, x]);
                    call("vector_mut", || c.knots.vector_mut()[i] = x)?;
                    want.u[i] = Dd::new(x);
                } else {
                    let i = cx.rng.below(c.points.count());
                    let v: Vec<f64> = (0..dim).map(|_| cx.rng.uni(-2.0, 2.0)).collect();
                    name = format!("step {step}: move point {i} to {v:?}");
                    cx.hashf(&v);
                    call("get_mut", || {
                        for r in 0..dim {
                            c.points.get_mut(i)[r] = v[r];
                        }
                    })?;
                    want.pts[i] = v.iter().map(|x| Dd::new(*x)).collect();
                }
                let nm = name.clone();
                cx.describe(|| nm);
                call("derive", || {
                    if knot {
                        c.knots.derive();
                    }
                    c.points.derive(&c.knots);
                })?;
                cmp_knots(cx, &name, &c, &want.u, 0.0)?;
                cmp_points(cx, &name, &c, &want, 0.0)?;
                base = Base::of(&c);
                if knot {
                    revs = 0;
                }
                cx.count("op=edit in place");
            }
            _ => {
                // refused requests
                name = format!("step {step}: refused request");
                let bad = *cx.rng.pick(&[f64::NAN, 0.0, 1.0, -0.0, -0.25, 1.5, f64::INFINITY, f64::NEG_INFINITY]);
                let nm = format!("{name} at {bad:e}");
                cx.describe(|| nm);
                let kind = cx.rng.below(5);
                match kind {
                    0 => {
                        let r = call("insert", || c.insert(bad).map(|_| ()))?;
                        cx.check(r.is_err(), || format!("insert({bad:e}) accepted"))?;
                    }
                    1 => {
                        let r = call("split", || c.split(bad))?;
                        cx.check(r.is_err(), || format!("split({bad:e}) accepted"))?;
                    }
                    2 => {
                        let bad = if (0.0..=1.0).contains(&bad) { bad + 2.0 } else { bad };
                        let k = cx.rng.range(0, p + 1);
                        let r = call("evaluate_derivative", || c.evaluate_derivative(bad, k))?;
                        cx.check(r.is_err(), || format!("evaluate_derivative({bad:e}, {k}) accepted"))?;
                    }
                    3 => {
                        let h = gen_p(cx, COpt { mult_below: 1, ..o }, p, dim + 1);
                        let l = h.build(cx)?;
                        let r = call("merge", || merge(&c, &l))?;
                        cx.check(r.is_err(), || "merge of different dimensions accepted".into())?;
                        let rec = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            c.append(&l);
                        }));
                        cx.check(rec.is_err(), || "append of a curve of different dimension accepted".into())?;
                    }
                    _ => {
                        let h: G = gen_p(cx, COpt { mult_below: 1, ..o }, p + 1, dim);
                        let l = h.build(cx)?;
                        let r = call("merge", || merge(&l, &c))?;
                        cx.check(r.is_err(), || "merge of different degrees accepted".into())?;
                    }
                }
                cx.check(snapshot(&c) == before, || format!("{name}: the curve changed"))?;
                cx.count("op=refused");
            }
        }
        done += 1;
        // clones and sources are independent
        bits_ok(cx, &wit, &name)?;
        if wit.len() > 4 {
            wit.drain(0..wit.len() - 4);
        }
        let slack = 2.0 * EPS * revs as f64;
        consistent(cx, &name, &c, slack)?;
        // everything can be evaluated: the current state against its own mathematics
        let now = RefCurve::of(&c);
        let p = now.p;
        let ms = now.min_span();
        let mut at = params(cx, &c.knots.vector().iter().cloned().collect::<Vec<_>>(), p, 4);
        at.extend(span_samples(cx, &now, 3));
        for &v in &at {
            for k in 0..=p {
                let got = evaluate(&c, v, k)?;
                let w = now.eval(Dd::new(v), k);
                let amp = now.amp(Dd::new(v), k);
                for d in 0..now.dim() {
                    let t = (tol(p) + 16.0 * p as f64 * slack / ms) * amp * now.pmax_coord(d) + TINY;
                    cx.close(&format!("{name}: derivative {k} at {v:e} coordinate {d}"), got[d], w.v[d], t)?;
                }
            }
        }
        // the trace since the base
        if base.steps > 0 {
            let len = base.beta.f().abs();
            let span = base.rc.min_span();
            let kslack = 512.0 * p as f64 * EPS / ms;
            for &v in span_samples(cx, &now, 4).iter().take(4) {
                let vd = Dd::new(v);
                let ou = base.alpha + base.beta * vd;
                if base.rc.u.iter().any(|k| (*k - ou).f().abs() < 1e-9 * len) || ou.f() <= 0.0 || ou.f() >= 1.0 {
                    continue;
                }
                let mut chain = Dd::ONE;
                for k in 0..=p {
                    let got = evaluate(&c, v, k)?;
                    let w = base.rc.eval(ou, k);
                    let amp = now.amp(vd, k).max(base.rc.amp(ou, k) * chain.f().abs());
                    let s = base.steps as f64;
                    for d in 0..now.dim() {
                        let size = base.rc.pmax_coord(d).max(now.pmax_coord(d));
                        let t = s * (8.0 * tol(p) + kslack * (1.0 + 1.0 / span.max(1e-3) * 1e-2)) * amp * size + TINY;
                        cx.close_as("trace", &format!("{name}: trace since the start, derivative {k} at {v:e}"), got[d], w.v[d] * chain, t)?;
                    }
                    chain = chain * base.beta;
                }
                cx.count("trace samples");
            }
        }
        cx.maximum("steps between base and trace", base.steps as f64);
    }
    cx.add("operations", done);
    if done >= 2 {
        cx.mark_nontrivial();
    }
    Ok(())
}
