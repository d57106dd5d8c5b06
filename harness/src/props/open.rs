//! C32: curves whose ends are not clamped.
use super::*;
use crate::gen::{self, params, span_samples, COpt, WILD};
use crate::refm::basis_all;
use bsplines::manipulation::merge::{merge, MergeError};
use bsplines::manipulation::split::split_and_normalize;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        case: c32,
        quick: 60000,
        thorough: 3000000,
        min_nontrivial: 2000,
        rule: "a case is one curve with at least one end that is not clamped (knots spread outside [0,1], or fewer than p+1 times at the end), driven through every query and manipulation; \
               non-trivial = every case, distinct by the bits of knots and points",
        assumptions: &[A_MODEL, A_TOL, "sorted knots with the domain [0,1], every knot at most p+1 times, finite coordinates"],
    }]
}

/// The p knots outside of the domain, walking away from its end: distances >= 0, sorted.
fn outside(cx: &mut Ctx, p: usize) -> (Vec<f64>, &'static str) {
    let r = &mut cx.rng;
    match r.below(6) {
        0 => (vec![0.0; p], "clamped"),
        1 | 2 => {
            let h = *r.pick(&[0.5, 0.25, 1.0, 0.1, 1.0 / 3.0, 2.0]);
            ((1..=p).map(|i| i as f64 * h).collect(), "uniform")
        }
        3 => {
            // a part of the copies at the end, the others further out
            let stay = r.range(0, p - 1);
            let mut d = 0.0;
            let mut v = vec![0.0; stay];
            while v.len() < p {
                d += r.uni(0.01, 0.5);
                v.push(d);
            }
            (v, "half clamped")
        }
        4 => {
            // repeated knots outside
            let mut v = vec![];
            let mut d = 0.0;
            while v.len() < p {
                d += r.range(1, 4) as f64 / 4.0;
                for _ in 0..r.range(1, p) {
                    if v.len() < p {
                        v.push(d);
                    }
                }
            }
            (v, "repeated")
        }
        _ => {
            let mut v: Vec<f64> = (0..p).map(|_| 10f64.powf(r.uni(-3.0, 1.0))).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            (v, "random")
        }
    }
}

fn c32(cx: &mut Ctx) -> R {
    let p = gen::degree(cx, 1, 6);
    let dim = gen::dims(cx, 3);
    let o = COpt { pmax: 6, mult_below: cx.rng.below(2), ..WILD };
    let mut g = gen::gen_p(cx, o, p, dim);
    let (left, lc) = outside(cx, p);
    let (right, rcl) = loop {
        let (v, c) = outside(cx, p);
        if !(lc == "clamped" && c == "clamped") {
            break (v, c);
        }
    };
    let n = g.n();
    for i in 0..p {
        g.u[p - 1 - i] = 0.0 - left[i];
        g.u[n + 2 + i] = 1.0 + right[i];
    }
    g.note(cx);
    cx.mark_nontrivial();
    let k = format!("left end {lc}");
    cx.count(&k);
    let k = format!("right end {rcl}");
    cx.count(&k);
    let c = g.build(cx)?;
    let rc = g.refc();
    let mut us = params(cx, &g.u, p, 12);
    us.extend(span_samples(cx, &rc, 12));
    us.extend([0.0, 1.0, gen::next_down(1.0)]);
    consistent(cx, "unclamped curve", &c, 0.0)?;
    trace(cx, "unclamped curve", &c, &rc, &us)?;

    // basis functions
    for &x in us.iter().take(6).chain([1.0, 0.0].iter()) {
        for k in 0..=p {
            let v = &g.u[k..g.u.len() - k];
            let want = basis_all(v, p - k, n + 1 - k, x);
            let mut sum = 0.0;
            for i in 0..=n - k {
                let got = call("Knots::evaluate", || c.knots.evaluate(k, i, p, x))?;
                cx.check(got >= 0.0, || format!("basis function {i} of order {k} at {x:e} is {got:e}"))?;
                cx.close(&format!("basis function {i} of order {k} at {x:e}"), got, want[i], tol(p))?;
                sum += got;
            }
            cx.close(&format!("sum of the basis functions of order {k} at {x:e}"), sum, Dd::ONE, tol(p) * (p + 1) as f64)?;
        }
    }

    // structure
    let dom: Vec<f64> = c.knots.domain().iter().cloned().collect();
    cx.check(dom == g.u[p..=n + 1].to_vec(), || format!("domain {dom:?}"))?;
    if n > p {
        let inner: Vec<f64> = c.knots.internal().iter().cloned().collect();
        cx.check(inner == g.u[p + 1..=n].to_vec(), || format!("interior {inner:?}"))?;
    }
    for &x in us.iter().take(4) {
        let m = call("multiplicity", || c.knots.multiplicity(x))?;
        let want = g.u[p..=n + 1].iter().filter(|k| **k == x).count();
        cx.check(m == want, || format!("multiplicity({x:e}) = {m}, expected {want}"))?;
    }
    let before = snapshot(&c);
    let cl = call("is_clamped", || bsplines::curve::knots::is_clamped(&c.knots))?;
    cx.check(!cl, || "an unclamped curve passes as clamped".into())?;
    for r in [call("merge", || merge(&c, &c))?, call("merge", || merge(&c.reversed_copy(), &c))?] {
        cx.check(matches!(r, Err(MergeError::UnclampedCurve)), || format!("merge of an unclamped curve: {:?}", r.err()))?;
    }
    cx.check(snapshot(&c) == before, || "queries changed the curve".into())?;

    // derivative curve
    let k = cx.rng.range(1, p);
    let d = call("get_derivative_curve", || c.get_derivative_curve(k))?;
    consistent(cx, "derivative curve", &d, 0.0)?;
    for &x in us.iter().take(5).chain([1.0].iter()) {
        for j in 0..=p - k {
            let got = evaluate(&d, x, j)?;
            let want = rc.eval(Dd::new(x), k + j);
            cmp_ev(cx, &format!("derivative {j} of derivative curve {k} at {x:e}"), &got, &want, 2.0 * tol(p))?;
        }
    }

    // reversal
    let mut e = c.clone();
    call("reverse", || {
        e.reverse();
    })?;
    let rr = rc.reversed();
    cmp_points(cx, "reversed", &e, &rr, 0.0)?;
    let far = g.u.iter().map(|x| x.abs()).fold(1.0, f64::max);
    cmp_knots(cx, "reversed", &e, &rr.u, 4.0 * EPS * (1.0 + far))?;
    if rc.min_span() > 1e-6 {
        // the library's own reversed knots, so that rounding of 1-u does not matter
        let er = RefCurve::of(&e);
        consistent(cx, "reversed", &e, 4.0 * EPS * (1.0 + far))?;
        if er.lo() == Dd::ZERO && er.hi() == Dd::ONE {
            for &x in us.iter().take(6).chain([0.0, 1.0].iter()) {
                let got = evaluate(&e, x, 0)?;
                let want = er.eval(Dd::new(x), 0);
                cmp_ev(cx, &format!("reversed curve at {x:e}"), &got, &want, 2.0 * tol(p))?;
            }
        }
    }

    // insertion
    let mut f = c.clone();
    let mut rf = rc.clone();
    for _ in 0..cx.rng.range(1, 4) {
        let x = match cx.rng.below(3) {
            0 => cx.rng.range(1, 15) as f64 / 16.0,
            1 if n > p => g.u[cx.rng.range(p + 1, n)],
            _ => cx.rng.uni(0.001, 0.999),
        };
        let m = rf.mult(x);
        let r = call("insert", || f.insert(x).map(|_| ()))?;
        if m > p {
            cx.check(r.is_err(), || "over-full knot accepted".into())?;
            cx.count("insertion refused");
            continue;
        }
        r.map_err(|er| format!("insert({x:e}) refused: {er:?}"))?;
        rf = rf.insert(Dd::new(x));
        cmp_knots(cx, "after insertion", &f, &rf.u, 0.0)?;
        cmp_points_of(cx, "after insertion", &f, &rf, 4.0 * tol(p), &rc)?;
        cx.count("inserted");
    }
    let size: Vec<f64> = (0..dim).map(|d| rc.pmax_coord(d)).collect();
    for &x in us.iter().take(8).chain([0.0, 1.0].iter()) {
        let got = evaluate(&f, x, 0)?;
        let want = rc.eval(Dd::new(x), 0);
        for d in 0..dim {
            cx.close(&format!("after insertion at {x:e}, coordinate {d}"), got[d], want.v[d], 8.0 * tol(p) * size[d] + TINY)?;
        }
    }

    // splitting
    let x = match cx.rng.below(3) {
        0 => cx.rng.range(1, 15) as f64 / 16.0,
        1 if n > p => g.u[cx.rng.range(p + 1, n)],
        _ => cx.rng.uni(0.001, 0.999),
    };
    if rc.mult(x) <= p {
        let (a, b) = call("split", || split_and_normalize(&c, x, (false, false)))?
            .map_err(|er| format!("split at {x:e} refused: {er:?}"))?;
        let (ra, rb) = rc.split(Dd::new(x));
        for (side, piece, want) in [("left", &a, &ra), ("right", &b, &rb)] {
            cmp_knots(cx, &format!("{side} piece"), piece, &want.u, 0.0)?;
            cmp_points_of(cx, &format!("{side} piece"), piece, want, 4.0 * tol(p), &rc)?;
            consistent(cx, &format!("{side} piece"), piece, 0.0)?;
            let mut vs = span_samples(cx, want, 12);
            vs.extend([want.lo().f(), want.hi().f()]);
            for v in vs {
                let got = evaluate(piece, v, 0)?;
                let s = if side == "left" { rc.span_left(Dd::new(v)) } else { rc.span(Dd::new(v)) };
                let ev = rc.eval_span(s, Dd::new(v), 0);
                for d in 0..dim {
                    cx.close(&format!("{side} piece at {v:e}, coordinate {d}"), got[d], ev.v[d], 8.0 * tol(p) * size[d] + TINY)?;
                }
            }
        }
        // with normalisation, the same pieces on other scales
        let f = (cx.rng.chance(2, 3), cx.rng.chance(2, 3));
        let (na, nb) = call("split", || split_and_normalize(&c, x, f))?.map_err(|er| format!("split at {x:e} refused: {er:?}"))?;
        for (side, flag, plain, piece) in [("left", f.0, &a, &na), ("right", f.1, &b, &nb)] {
            let (u, w) = (plain.knots.vector(), piece.knots.vector());
            let (lo, hi) = (u[0], u[u.len() - 1]);
            let (ul, wl) = (u.len(), w.len());
            cx.check(ul == wl, || format!("normalised {side} piece has {wl} knots instead of {ul}"))?;
            for i in 0..u.len() {
                if flag {
                    let want = (Dd::new(u[i]) - Dd::new(lo)) / (Dd::new(hi) - Dd::new(lo));
                    cx.close(&format!("knot {i} of the normalised {side} piece"), w[i], want, 32.0 * EPS)?;
                } else {
                    cx.check(w[i] == u[i], || format!("knot {i} of the {side} piece that is not to be normalised changed"))?;
                }
            }
            if flag {
                let (s, e) = (w[0], w[w.len() - 1]);
                cx.check(s == 0.0 && e == 1.0, || format!("normalised {side} piece runs from {s:e} to {e:e}"))?;
            }
            let same = plain.points.matrix() == piece.points.matrix();
            cx.check(same, || format!("normalising the {side} piece changed its points"))?;
            consistent(cx, &format!("normalised {side} piece"), piece, 0.0)?;
        }
        cx.count("split");
    }
    cx.check(snapshot(&c) == before, || "copying operations changed the curve".into())
}

fn trace(cx: &mut Ctx, what: &str, c: &Curve, rc: &RefCurve, us: &[f64]) -> R {
    for &u in us {
        for k in 0..=rc.p {
            let got = evaluate(c, u, k)?;
            let want = rc.eval(Dd::new(u), k);
            cmp_ev(cx, &format!("{what}: derivative {k} at {u:e}"), &got, &want, tol(rc.p))?;
        }
        let got = evaluate(c, u, rc.p + 1)?;
        cx.check(got.len() == rc.dim() && got.iter().all(|x| *x == 0.0), || "order above the degree is not zero".into())?;
    }
    Ok(())
}

trait ReversedCopy {
    fn reversed_copy(&self) -> Curve;
}
impl ReversedCopy for Curve {
    fn reversed_copy(&self) -> Curve {
        bsplines::manipulation::reverse::reversed(self)
    }
}
