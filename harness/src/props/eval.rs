//! C01-C05, C28: evaluation, derivatives, basis functions, derivative curves, refusals, locality.
use super::*;
use crate::gen::{self, gen, params, span_samples, COpt, TAME, WILD};
use crate::refm::basis_all;
use bsplines::curve::{
    basis::basis,
    knots::Knots,
    points::ControlPoints,
    Curve, CurveError,
};
use bsplines::manipulation::{
    insert::{insert as lib_insert, InsertError},
    split::{split as lib_split, split_and_normalize, SplitError},
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            case: c01,
            quick: 120000,
            thorough: 6000000,
            min_nontrivial: 3000,
            rule: "a case is one generated curve (degree 1-11, dimension 1-12, interior knots of every class) queried at ends, knots, \
                   neighbouring floats, span samples and random parameters; non-trivial = has an interior knot or degree >= 2, distinct by the bits of knots and points",
            assumptions: &[A_MODEL, A_TOL, A_CLAMPED],
        },
        Prop {
            id: "C02",
            case: c02,
            quick: 240000,
            thorough: 6000000,
            min_nontrivial: 2000,
            rule: "a case is one generated curve; every derivative order 1..p and orders above p are queried at knots, neighbouring floats and span samples; \
                   non-trivial = degree >= 2 or an interior knot, distinct by the bits of knots and points",
            assumptions: &[A_MODEL, A_TOL, A_CLAMPED, "the right-hand derivative is meant at interior knots, the left-hand one at 1"],
        },
        Prop {
            id: "C03",
            case: c03,
            quick: 400000,
            thorough: 8000000,
            min_nontrivial: 2000,
            rule: "a case is one clamped knot vector (also on other domains than [0,1]); all basis functions of every derivative order are evaluated at several parameters; \
                   non-trivial = degree >= 2 or an interior knot, distinct by the bits of the knots",
            assumptions: &[A_MODEL, A_TOL, A_CLAMPED],
        },
        Prop {
            id: "C04",
            case: c04,
            quick: 300000,
            thorough: 6000000,
            min_nontrivial: 1000,
            rule: "a case is one curve and one order k <= p: the derivative curve is compared with the curve's derivatives, differentiated again, and driven through insert, split, reverse; \
                   non-trivial = k >= 1, distinct by the bits of knots and points and k",
            assumptions: &[A_MODEL, A_TOL, A_CLAMPED],
        },
        Prop {
            id: "C05",
            case: c05,
            quick: 120000,
            thorough: 3000000,
            min_nontrivial: 1000,
            rule: "a case is one curve; every out-of-domain parameter class is offered to every query and manipulation, and the closest admissible parameters are offered too; \
                   distinct by the bits of knots and points",
            assumptions: &[A_CLAMPED],
        },
        Prop {
            id: "C28",
            case: c28,
            quick: 120000,
            thorough: 4000000,
            min_nontrivial: 2000,
            rule: "a case is one curve and one displaced control point, compared before/after at many parameters, plus bounding box and random half-spaces per span; \
                   distinct by the bits of knots and points",
            assumptions: &[A_MODEL, A_TOL, A_CLAMPED],
        },
    ]
}

fn c01(cx: &mut Ctx) -> R {
    let g = gen(cx, WILD);
    g.note(cx);
    if g.p >= 2 || g.n() > g.p {
        cx.mark_nontrivial();
    }
    let c = g.build(cx)?;
    let rc = g.refc();
    let mut us = params(cx, &g.u, g.p, 24);
    us.extend(span_samples(cx, &rc, 40));
    cx.rng.shuffle(&mut us);
    let heavy = g.p >= 8;
    if heavy {
        us.truncate(12);
    }
    for u in us {
        let got = evaluate(&c, u, 0)?;
        let want = rc.eval(Dd::new(u), 0);
        cmp_ev(cx, &format!("evaluate({u:e})"), &got, &want, tol(g.p))?;
        let direct = call("evaluate_derivative", || c.evaluate_derivative(u, 0))?.map_err(|e| format!("{e:?}"))?;
        cmp_ev(cx, &format!("evaluate_derivative({u:e},0)"), &direct, &want, tol(g.p))?;
        if g.u.contains(&u) {
            cx.count("queried at a knot");
        }
    }
    let first = evaluate(&c, 0.0, 0)?;
    let last = evaluate(&c, 1.0, 0)?;
    for d in 0..g.dim() {
        let (f, l) = (g.pts[0][d], g.pts[g.n()][d]);
        cx.close("start point", first[d], Dd::new(f), 2.0 * EPS * f.abs())?;
        cx.close("end point", last[d], Dd::new(l), 2.0 * EPS * l.abs())?;
    }
    let (p, n, d) = (c.degree(), c.segments(), c.dimension());
    cx.check(p == g.p && n == g.n() && d == g.dim(), || format!("degree/segments/dimension {p}/{n}/{d}"))
}

fn c02(cx: &mut Ctx) -> R {
    let g = gen(cx, WILD);
    g.note(cx);
    if g.p >= 2 || g.n() > g.p {
        cx.mark_nontrivial();
    }
    let c = g.build(cx)?;
    let rc = g.refc();
    let mut us = params(cx, &g.u, g.p, 14);
    us.extend(span_samples(cx, &rc, 16));
    cx.rng.shuffle(&mut us);
    if g.p >= 8 {
        us.truncate(6);
    }
    for &u in &us {
        for k in 1..=g.p {
            let got = evaluate(&c, u, k)?;
            let want = rc.eval(Dd::new(u), k);
            cmp_ev(cx, &format!("evaluate_derivative({u:e},{k})"), &got, &want, tol(g.p))?;
            if k == g.p {
                cx.count("queried highest derivative");
            }
            if u > 0.0 && u < 1.0 && rc.mult(u) + k > g.p {
                cx.count("queried at a jump of the derivative");
            }
        }
        for k in [g.p + 1, g.p + 2, g.p + cx.rng.range(3, 1000), usize::MAX] {
            let got = evaluate(&c, u, k)?;
            let (l, d) = (got.len(), g.dim());
            cx.check(l == d && got.iter().all(|x| *x == 0.0), || {
                format!("derivative of order {k} above the degree {} is {got:?} at {u:e}", g.p)
            })?;
        }
    }
    Ok(())
}

fn c03(cx: &mut Ctx) -> R {
    let mut g = gen::gen_p(cx, COpt { max_extra: 18, ..WILD }, 1, 1);
    let p = gen::degree(cx, 1, 8);
    let o = COpt { max_extra: 18, ..WILD };
    g = {
        let _ = &g;
        gen::gen_p(cx, o, p, 1)
    };
    g.note(cx);
    if p >= 2 || g.n() > p {
        cx.mark_nontrivial();
    }
    // other domains than [0,1]
    let mut u = g.u.clone();
    if cx.rng.chance(1, 4) {
        let s = cx.rng.uni(0.01, 50.0);
        let t = cx.rng.uni(-20.0, 20.0);
        for x in u.iter_mut() {
            *x = *x * s + t;
        }
        // knots that only coincide after rounding may occur too often then
        if u.windows(2).zip(g.u.windows(2)).any(|(a, b)| (a[0] == a[1]) != (b[0] == b[1])) {
            u = g.u.clone();
        } else {
            cx.count("domain other than [0,1]");
        }
    }
    let knots = call("Knots::new", || Knots::new(p, gen::vecd(&u)))?;
    let n = g.n();
    let (lo, hi) = (u[0], u[u.len() - 1]);
    let mut us: Vec<f64> = params(cx, &g.u, p, 8);
    if lo != 0.0 || hi != 1.0 {
        us = us.iter().map(|x| (lo + x * (hi - lo)).clamp(lo, hi)).collect();
        us.push(lo);
        us.push(hi);
        let i = cx.rng.range(p, n);
        us.push(u[i]);
    }
    if p >= 8 || n > 60 {
        us.truncate(4);
    }
    for x in us {
        for k in 0..=p {
            let v = &u[k..u.len() - k];
            let q = p - k;
            let want = basis_all(v, q, n + 1 - k, x);
            let mut sum = 0.0;
            // every function of small vectors, and a window around the support otherwise
            for i in 0..=n - k {
                let got = call("Knots::evaluate", || knots.evaluate(k, i, p, x))?;
                sum += got;
                let w = want[i];
                let what = || format!("N_{i} of order k={k} at {x:e}");
                cx.check(got >= 0.0, || format!("{} is negative: {got:e}", what()))?;
                let outside = x < v[i] || x > v[i + q + 1];
                if outside {
                    cx.check(got == 0.0, || format!("{} is {got:e} outside its support", what()))?;
                } else {
                    cx.close(&format!("N_{i} of order k={k} at {x:e}"), got, w, tol(p) * w.f().abs() + 8.0 * (p + 1) as f64 * EPS)?;
                }
                if k == 0 || cx.rng.chance(1, 8) {
                    let vk = knots.vector_derivative(k);
                    let d = call("basis", || basis(vk, i, q, k, n, x))?;
                    cx.close(&format!("basis({i}, degree {q}, k={k}) at {x:e}"), d, w, tol(p) * w.f().abs() + 8.0 * (p + 1) as f64 * EPS)?;
                }
            }
            cx.close(&format!("sum of basis functions of order k={k} at {x:e}"), sum, Dd::ONE, tol(p) * 4.0)?;
        }
    }
    Ok(())
}

fn c04(cx: &mut Ctx) -> R {
    let g = gen(cx, COpt { pmax: 6, max_extra: 10, ..WILD });
    g.note(cx);
    let p = g.p;
    let k = cx.rng.range(0, p);
    cx.hash(k as u64);
    if k >= 1 {
        cx.mark_nontrivial();
    }
    cx.describe(|| format!("k={k}"));
    let mut c = g.build(cx)?;
    // the derivative of a curve with a history, too
    if cx.rng.chance(1, 4) {
        let x = cx.rng.uni(0.01, 0.99);
        call("insert", || c.insert(x).map(|_| ()))?.map_err(|e| format!("insert refused: {e:?}"))?;
    }
    let before = snapshot(&c);
    let rc = RefCurve::of(&c);
    let d = call("get_derivative_curve", || c.get_derivative_curve(k))?;
    cx.check(snapshot(&c) == before, || "get_derivative_curve changed the curve".into())?;
    let n = rc.n();
    let (dp, dn, dd) = (d.degree(), d.segments(), d.dimension());
    cx.check(dp == p - k && dn == n - k && dd == g.dim(), || {
        format!("derivative curve {k} has degree {dp}, {dn} segments, dimension {dd}")
    })?;
    let md = call("max_derivative of the derivative curve", || d.max_derivative())?;
    cx.check(md == p - k, || format!("derivative curve {k}: max_derivative {md}"))?;
    let mut us = params(cx, &g.u, p, 8);
    us.extend(span_samples(cx, &rc, 8));
    for &u in &us {
        for j in 0..=(p - k) {
            let got = evaluate(&d, u, j)?;
            let want = rc.eval(Dd::new(u), k + j);
            cmp_ev(cx, &format!("derivative {j} of derivative curve {k} at {u:e}"), &got, &want, 2.0 * tol(p))?;
        }
        let got = evaluate(&d, u, p - k + 1 + cx.rng.below(3))?;
        cx.check(got.len() == g.dim() && got.iter().all(|x| *x == 0.0), || "order above the degree is not zero".into())?;
    }
    consistent(cx, "derivative curve", &d, 0.0)?;
    // nested extraction equals direct extraction
    let j = cx.rng.range(0, p - k);
    let dj = call("get_derivative_curve of a derivative curve", || d.get_derivative_curve(j))?;
    for &u in us.iter().take(4) {
        let got = evaluate(&dj, u, 0)?;
        let want = rc.eval(Dd::new(u), k + j);
        cmp_ev(cx, &format!("derivative curve {j} of derivative curve {k} at {u:e}"), &got, &want, 2.0 * tol(p))?;
    }
    // it supports every operation; knots must still be valid for the lower degree
    let q = p - k;
    let dr = RefCurve::of(&d);
    let maxm = d.knots.vector().iter().map(|x| dr.mult(*x)).max().unwrap();
    if maxm <= q + 1 && g.kclass != "near-coincident" {
        let mut e = d.clone();
        let x = if cx.rng.chance(1, 2) { cx.rng.uni(0.02, 0.98) } else { *cx.rng.pick(&[0.25, 0.5, 0.75, 0.1, 0.9]) };
        let m = dr.mult(x);
        let r = call("insert into a derivative curve", || e.insert(x).map(|_| ()))?;
        if m <= q {
            r.map_err(|er| format!("insert({x}) into derivative curve {k} refused: {er:?}"))?;
            let want = dr.insert(Dd::new(x));
            cmp_points(cx, "insert into derivative curve", &e, &want, tol(p))?;
            cmp_knots(cx, "insert into derivative curve", &e, &want.u, 0.0)?;
            cx.count("inserted into a derivative curve");
        } else {
            cx.check(r.is_err(), || "over-full knot accepted".into())?;
        }
        if m <= q {
            let (a, b) = call("split of a derivative curve", || d.split(x))?
                .map_err(|er| format!("split({x}) of derivative curve {k} refused: {er:?}"))?;
            let (ra, rb) = if m == q + 1 { unreachable!() } else { split_ref(&dr, x) };
            cmp_points_of(cx, "left piece of derivative curve", &a, &ra, tol(p), &dr)?;
            cmp_points_of(cx, "right piece of derivative curve", &b, &rb, tol(p), &dr)?;
            cx.count("split a derivative curve");
        }
        let mut f = d.clone();
        call("reverse of a derivative curve", || {
            f.reverse();
        })?;
        cmp_points(cx, "reversed derivative curve", &f, &dr.reversed(), 0.0)?;
        cmp_knots(cx, "reversed derivative curve", &f, &dr.reversed().u, 2.0 * EPS)?;
        consistent(cx, "reversed derivative curve", &f, 2.0 * EPS)?;
    }
    Ok(())
}

pub fn split_ref(rc: &RefCurve, x: f64) -> (RefCurve, RefCurve) {
    let (a, b) = rc.split(Dd::new(x));
    (a.normalized(), b.normalized())
}

fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn c05(cx: &mut Ctx) -> R {
    let g = gen(cx, COpt { pmax: 6, ..WILD });
    g.note(cx);
    cx.mark_nontrivial();
    let c0 = g.build(cx)?;
    let mut c = c0.clone();
    if cx.rng.chance(1, 3) {
        call("reverse", || {
            c.reverse();
        })?;
    }
    let before = snapshot(&c);
    let tiny = f64::from_bits(1);
    let mut bad = vec![
        f64::NAN,
        -f64::NAN,
        f64::INFINITY,
        f64::NEG_INFINITY,
        -tiny,
        -f64::MIN_POSITIVE,
        gen::next_up(1.0),
        -1.0,
        2.0,
        f64::MAX,
        f64::MIN,
        -1e-300,
        1.0 + 1e-12,
        -EPS,
    ];
    bad.push(1.0 + 10f64.powi(cx.rng.range(0, 15) as i32 - 15));
    bad.push(-(10f64.powi(cx.rng.range(0, 300) as i32 - 300)));
    bad.push(cx.rng.uni(1.0000001, 1e6));
    bad.push(-cx.rng.uni(1e-9, 1e6));
    for &u in &bad {
        for k in [0, 1, g.p, g.p + 1, g.p + 7] {
            let r = call("evaluate_derivative", || c.evaluate_derivative(u, k))?;
            match r {
                Err(CurveError::ParameterOutOfBounds { u: v, lower_bound, upper_bound })
                    if same(u, v) && lower_bound == 0.0 && upper_bound == 1.0 =>
                {
                    cx.obs();
                    if k == 1 {
                        names(cx, &CurveError::ParameterOutOfBounds { u: v, lower_bound, upper_bound })?;
                    }
                }
                r => return Err(format!("evaluate_derivative({u:e},{k}) returned {r:?}").into()),
            }
        }
        match call("evaluate", || c.evaluate(u))? {
            Err(CurveError::ParameterOutOfBounds { u: v, lower_bound, upper_bound })
                if same(u, v) && lower_bound == 0.0 && upper_bound == 1.0 =>
            {
                cx.obs()
            }
            r => return Err(format!("evaluate({u:e}) returned {r:?}").into()),
        }
        cx.count("refused evaluations");
    }
    cx.check(snapshot(&c) == before, || "refused evaluations changed the curve".into())?;
    bad.extend_from_slice(&[0.0, -0.0, 1.0]);
    for &u in &bad {
        let is_oob = |r: &Result<(), InsertError>| match r {
            Err(InsertError::OutOfBounds { u: v, lower_bound, upper_bound }) => {
                same(u, *v) && *lower_bound == 0.0 && *upper_bound == 1.0
            }
            _ => false,
        };
        let x = cx.rng.range(1, g.p + 3);
        let r = call("insert", || c.insert(u).map(|_| ()))?;
        cx.check(is_oob(&r), || format!("insert({u:e}) returned {r:?}"))?;
        if let Err(e) = &r {
            names(cx, e)?;
        }
        let r = call("insert_times", || c.insert_times(u, x).map(|_| ()))?;
        cx.check(is_oob(&r), || format!("insert_times({u:e},{x}) returned {r:?}"))?;
        let r = call("manipulation::insert", || lib_insert(&mut c, u))?;
        cx.check(is_oob(&r), || format!("manipulation::insert({u:e}) returned {r:?}"))?;
        let soob = |r: &Result<(), SplitError>| match r {
            Err(SplitError::OutOfBounds { u: v, lower_bound, upper_bound }) => {
                same(u, *v) && *lower_bound == 0.0 && *upper_bound == 1.0
            }
            _ => false,
        };
        let r = call("split", || c.split(u).map(|_| ()))?;
        cx.check(soob(&r), || format!("split({u:e}) returned {r:?}"))?;
        if let Err(e) = &r {
            names(cx, e)?;
        }
        let r = call("manipulation::split", || lib_split(&c, u).map(|_| ()))?;
        cx.check(soob(&r), || format!("manipulation::split({u:e}) returned {r:?}"))?;
        for f in [(true, true), (true, false), (false, true), (false, false)] {
            let r = call("split_and_normalize", || split_and_normalize(&c, u, f).map(|_| ()))?;
            cx.check(soob(&r), || format!("split_and_normalize({u:e},{f:?}) returned {r:?}"))?;
        }
        cx.count("refused manipulations");
        let same_now = snapshot(&c) == before;
        cx.check(same_now, || format!("refused request at {u:e} changed the curve"))?;
    }
    // everything inside is accepted, however close to the ends
    let mut good = vec![
        tiny,
        f64::MIN_POSITIVE,
        1e-200,
        1e-17,
        EPS,
        gen::next_down(1.0),
        1.0 - 1e-12,
        0.5,
        cx.rng.f().max(1e-9),
        g.u[cx.rng.range(g.p, g.n() + 1)],
    ];
    cx.rng.shuffle(&mut good);
    for &u in good.iter().take(6) {
        for k in [0, g.p, g.p + 1] {
            let r = call("evaluate_derivative", || c.evaluate_derivative(u, k))?;
            cx.check(r.is_ok(), || format!("evaluate_derivative({u:e},{k}) refused: {r:?}"))?;
        }
        if u > 0.0 && u < 1.0 && c.knots.vector().iter().filter(|x| **x == u).count() < g.p {
            let mut d = c.clone();
            let r = call("insert", || d.insert(u).map(|_| ()))?;
            cx.check(r.is_ok(), || format!("insert({u:e}) refused: {r:?}"))?;
            let r = call("split", || c.split(u).map(|_| ()))?;
            cx.check(r.is_ok(), || format!("split({u:e}) refused: {r:?}"))?;
            let f = (cx.rng.chance(1, 2), cx.rng.chance(1, 2));
            let r = call("split_and_normalize", || split_and_normalize(&c, u, f).map(|_| ()))?;
            cx.check(r.is_ok(), || format!("split_and_normalize({u:e},{f:?}) refused: {r:?}"))?;
            cx.count("accepted manipulations");
        }
    }
    for u in [0.0, -0.0, 1.0] {
        for k in [0, 1, g.p, g.p + 2] {
            let r = call("evaluate_derivative", || c.evaluate_derivative(u, k))?;
            cx.check(r.is_ok(), || format!("evaluate_derivative({u:e},{k}) refused: {r:?}"))?;
        }
    }
    Ok(())
}

fn c28(cx: &mut Ctx) -> R {
    let g = gen(cx, COpt { pmax: 7, ..WILD });
    g.note(cx);
    cx.mark_nontrivial();
    let c = g.build(cx)?;
    let rc = g.refc();
    let (p, n, dim) = (g.p, g.n(), g.dim());
    let i = cx.rng.range(0, n);
    let delta: Vec<f64> = (0..dim).map(|_| cx.rng.uni(-2.0, 2.0) * rc.pmax().max(1e-30)).collect();
    let mut h = g.clone();
    for d in 0..dim {
        h.pts[i][d] += delta[d];
    }
    let moved: Vec<Dd> = (0..dim).map(|d| Dd::new(h.pts[i][d]) - Dd::new(g.pts[i][d])).collect();
    let c2 = h.build(cx)?;
    let rc2 = h.refc();
    let mut us = params(cx, &g.u, p, 14);
    us.extend(span_samples(cx, &rc, 20));
    // parameters right at the borders of the support
    for x in [g.u[i], g.u[i + p + 1]] {
        us.extend([x, gen::next_up(x), gen::next_down(x)].iter().filter(|x| **x >= 0.0 && **x <= 1.0));
    }
    for &u in &us {
        let a = evaluate(&c, u, 0)?;
        let b = evaluate(&c2, u, 0)?;
        let bi = basis_all(&g.u, p, n + 1, u)[i];
        let outside = u < g.u[i] || u > g.u[i + p + 1];
        let ea = rc.eval(Dd::new(u), 0);
        let eb = rc2.eval(Dd::new(u), 0);
        for d in 0..dim {
            if outside {
                cx.check(a[d] == b[d], || {
                    format!("moving point {i} changed coordinate {d} at {u:e}, outside its support: {:e} -> {:e}", a[d], b[d])
                })?;
                cx.count("compared outside the support");
            } else {
                let want = bi * moved[d];
                let t = tol(p) * (ea.mag[d] + eb.mag[d]) + TINY;
                cx.close(&format!("displacement by point {i} at {u:e}"), b[d] - a[d], want, t)?;
            }
        }
        // hull of the span's control points
        let s = rc.span(Dd::new(u));
        for d in 0..dim {
            let lo = (s - p..=s).map(|j| g.pts[j][d]).fold(f64::INFINITY, f64::min);
            let hi = (s - p..=s).map(|j| g.pts[j][d]).fold(f64::NEG_INFINITY, f64::max);
            let t = tol(p) * lo.abs().max(hi.abs()) + TINY;
            let v = a[d];
            cx.check(v >= lo - t && v <= hi + t, || format!("coordinate {d} at {u:e} is {v:e}, hull [{lo:e},{hi:e}]"))?;
        }
        let w: Vec<f64> = (0..dim).map(|_| cx.rng.normal()).collect();
        let dot = |q: &dyn Fn(usize) -> f64| (0..dim).map(|d| w[d] * q(d)).sum::<f64>();
        let size = (s - p..=s).map(|j| (0..dim).map(|d| (w[d] * g.pts[j][d]).abs()).sum::<f64>()).fold(0.0, f64::max);
        let hi = (s - p..=s).map(|j| dot(&|d| g.pts[j][d])).fold(f64::NEG_INFINITY, f64::max);
        let v = dot(&|d| a[d]);
        cx.check(v <= hi + tol(p) * size * 4.0 + TINY, || format!("point at {u:e} leaves a half-space: {v:e} > {hi:e}"))?;
    }
    // straight line and constant
    let base: Vec<f64> = (0..dim).map(|_| cx.rng.uni(-3.0, 3.0)).collect();
    let dir: Vec<f64> = (0..dim).map(|_| cx.rng.uni(-3.0, 3.0)).collect();
    let ts: Vec<f64> = (0..=n).map(|_| cx.rng.uni(-2.0, 2.0)).collect();
    let mut l = g.clone();
    let mut k = g.clone();
    for j in 0..=n {
        for d in 0..dim {
            l.pts[j][d] = base[d] + ts[j] * dir[d];
            k.pts[j][d] = base[d];
        }
    }
    let lc = l.build(cx)?;
    let kc = k.build(cx)?;
    for &u in us.iter().take(8) {
        let v = evaluate(&lc, u, 0)?;
        let big = (0..dim).max_by(|a, b| dir[*a].abs().partial_cmp(&dir[*b].abs()).unwrap()).unwrap();
        let t = (v[big] - base[big]) / dir[big];
        for d in 0..dim {
            cx.close(&format!("collinear points: coordinate {d} at {u:e}"), v[d], Dd::new(base[d] + t * dir[d]), 1e-12 * 20.0)?;
        }
        let v = evaluate(&kc, u, 0)?;
        for d in 0..dim {
            cx.close(&format!("constant curve at {u:e}"), v[d], Dd::new(base[d]), tol(p) * base[d].abs())?;
        }
        for o in 1..=p {
            let v = evaluate(&kc, u, o)?;
            let t = tol(p) * rc.amp(Dd::new(u), o);
            for d in 0..dim {
                if t < 1e280 {
                    cx.close(&format!("derivative {o} of a constant curve at {u:e}"), v[d], Dd::ZERO, t * base[d].abs())?;
                }
            }
        }
    }
    let _ = TAME;
    Ok(())
}

#[allow(unused)]
fn unused(c: Curve) -> usize {
    let p: &ControlPoints = &c.points;
    p.count()
}
