//! C06-C10: knot insertion, splitting, reversal.
use super::*;
use crate::gen::{self, gen, params, span_samples, COpt, WILD};
use bsplines::curve::knots::{is_clamped, is_normed, is_sorted};
use bsplines::manipulation::{
    insert::{insert as lib_insert, InsertError},
    reverse::{reverse as lib_reverse, reversed as lib_reversed},
    split::{split as lib_split, split_and_normalize, SplitError},
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            case: c06,
            quick: 60000,
            thorough: 2500000,
            min_nontrivial: 5000,
            rule: "a case is a curve and a history of 1 to 2p+6 insertions (fresh, repeated, at and next to knots and ends, through all three entry points); \
                   the final trace and all derivatives are compared with the original; distinct by the bits of knots, points and inserted parameters",
            assumptions: &[A_MODEL, A_TOL, A_CLAMPED],
        },
        Prop {
            id: "C07",
            case: c07,
            quick: 120000,
            thorough: 4000000,
            min_nontrivial: 5000,
            rule: "a case is a curve and a history of insertions up to and beyond full multiplicity; after every one knots, control points, locality and errors are compared \
                   with exact insertion into the previous state; distinct by the bits of knots, points and inserted parameters",
            assumptions: &[A_MODEL, A_TOL, A_CLAMPED],
        },
        Prop {
            id: "C08",
            case: c08,
            quick: 120000,
            thorough: 4000000,
            min_nontrivial: 5000,
            rule: "a case is a curve, a split parameter (interior, at simple or repeated knots, next to knots and ends) and a normalisation choice; both pieces are compared with the \
                   original in value and all derivatives; distinct by the bits of knots, points and parameter",
            assumptions: &[A_MODEL, A_TOL, A_CLAMPED, "normalised pieces carry knots rounded to double precision; the tolerance grows with eps over the smallest knot span"],
        },
        Prop {
            id: "C09",
            case: c09,
            quick: 400000,
            thorough: 8000000,
            min_nontrivial: 5000,
            rule: "a case is a curve and a split parameter; knots, counts, ends, clamping, refusals and further use of the pieces are checked; distinct by the bits of knots, points and parameter",
            assumptions: &[A_MODEL, A_TOL, A_CLAMPED],
        },
        Prop {
            id: "C10",
            case: c10,
            quick: 120000,
            thorough: 4000000,
            min_nontrivial: 5000,
            rule: "a case is a curve (fresh or with a history), reversed in place and as a copy, once and twice; distinct by the bits of knots and points",
            assumptions: &[A_MODEL, A_TOL, A_CLAMPED],
        },
    ]
}

/// A parameter in the open interval, hostile.
pub fn inner_param(cx: &mut Ctx, u: &[f64], p: usize) -> f64 {
    loop {
        let v = params(cx, u, p, 3)[2];
        // knots closer than this overflow the pre-factors of the basis recursion (see DESIGN.md)
        if v >= 1e-60 && v < 1.0 {
            return v;
        }
    }
}

/// Compares values and derivatives of a recomputed curve with the original at the given parameters.
fn same_shape(cx: &mut Ctx, what: &str, c: &Curve, orig: &RefCurve, us: &[f64]) -> R {
    let now = RefCurve::of(c);
    let p = orig.p;
    for &u in us {
        for k in 0..=p {
            if overflows(&now, k) {
                cx.count("skipped: derivative overflow");
                break;
            }
            let got = evaluate(c, u, k)?;
            let want = orig.eval(Dd::new(u), k);
            let amp = now.amp(Dd::new(u), k);
            for d in 0..orig.dim() {
                let t = tol(p) * amp * now.pmax_coord(d).max(orig.pmax_coord(d));
                if !(t < 1e280) {
                    cx.count("skipped: magnitude overflow");
                    continue;
                }
                cx.close(&format!("{what}: derivative {k} at {u:e} coordinate {d}"), got[d], want.v[d], t + TINY)?;
            }
        }
    }
    Ok(())
}

fn c06(cx: &mut Ctx) -> R {
    let o = COpt { pmax: 7, mult_below: cx.rng.below(2), ..WILD };
    let g = gen(cx, o);
    g.note(cx);
    let mut c = g.build(cx)?;
    let rc = g.refc();
    let steps = cx.rng.range(1, 2 * g.p + 6);
    let mut us = vec![];
    let mut log = vec![];
    for _ in 0..steps {
        let v: Vec<f64> = c.knots.vector().iter().cloned().collect();
        let x = if !us.is_empty() && cx.rng.chance(1, 4) {
            *cx.rng.pick(&us)
        } else if cx.rng.chance(1, 4) && g.n() > g.p {
            g.u[cx.rng.range(g.p + 1, g.n())]
        } else {
            inner_param(cx, &v, g.p)
        };
        let m = v.iter().filter(|k| **k == x).count();
        if m > g.p {
            continue;
        }
        let route = cx.rng.below(3);
        let times = if route == 1 { cx.rng.range(0, (g.p + 1 - m).min(3)) } else { 1 };
        let r = match route {
            0 => call("insert", || c.insert(x).map(|_| ()))?,
            1 => call("insert_times", || c.insert_times(x, times).map(|_| ()))?,
            _ => call("manipulation::insert", || lib_insert(&mut c, x))?,
        };
        log.push((x, times));
        cx.hashf(&[x]);
        if let Err(e) = r {
            let l = log.clone();
            cx.describe(|| format!("insertions {l:?}"));
            return Err(format!("insertion of {x:e} (multiplicity {m}, degree {}) refused: {e:?}", g.p).into());
        }
        if m > 0 {
            cx.count("insertion at an existing knot");
        }
        if m + times == g.p + 1 {
            cx.count("insertion to multiplicity p+1");
        }
        if v.iter().zip(v.iter().skip(1)).any(|(a, b)| a == b && *a > 0.0 && *a < x) {
            cx.count("insertion to the right of a repeated knot");
        }
        cx.add("insertions", times as u64);
        if times > 0 {
            us.push(x);
        }
    }
    cx.describe(|| format!("insertions {log:?}"));
    if !us.is_empty() {
        cx.mark_nontrivial();
    }
    let mut at = params(cx, &g.u, g.p, 8);
    at.extend_from_slice(&us);
    at.extend(span_samples(cx, &rc, 10));
    let now = RefCurve::of(&c);
    at.extend(span_samples(cx, &now, 10));
    same_shape(cx, "after insertion", &c, &rc, &at)?;
    consistent(cx, "after insertion", &c, 0.0)
}

fn c07(cx: &mut Ctx) -> R {
    let o = COpt { pmax: 7, mult_below: 0, ..WILD };
    let g = gen(cx, o);
    g.note(cx);
    let mut c = g.build(cx)?;
    let p = g.p;
    let steps = cx.rng.range(1, 2 * p + 5);
    let mut last = None;
    for step in 0..steps {
        let old = RefCurve::of(&c);
        let oldu: Vec<f64> = c.knots.vector().iter().cloned().collect();
        let x = match last {
            Some(x) if cx.rng.chance(1, 2) => x,
            _ if cx.rng.chance(1, 3) && oldu.len() > 2 * p + 2 => oldu[cx.rng.range(p + 1, oldu.len() - p - 2)],
            _ => inner_param(cx, &oldu, p),
        };
        last = Some(x);
        cx.hashf(&[x]);
        cx.describe(|| format!("step {step}: insert {x:e}"));
        let m = oldu.iter().filter(|k| **k == x).count();
        let before = snapshot(&c);
        // x times at once equals x single insertions, whatever they return
        if cx.rng.chance(1, 4) {
            // also absurd numbers, which are refused at the first knot too many
            let times = if cx.rng.chance(1, 12) { *cx.rng.pick(&[1000, 1 << 45, usize::MAX / 16, usize::MAX]) } else { cx.rng.range(0, p + 3) };
            let mut a = c.clone();
            let mut b = c.clone();
            let ra = call("insert_times", || a.insert_times(x, times).map(|_| ()))?;
            let mut rb = Ok(());
            for _ in 0..times {
                rb = call("insert", || b.insert(x).map(|_| ()))?;
                if rb.is_err() {
                    break;
                }
            }
            cx.check(ra == rb, || format!("insert_times({x:e},{times}) returned {ra:?}, singly {rb:?}"))?;
            let rb2 = RefCurve::of(&b);
            cmp_knots(cx, "insert_times against single insertions", &a, &rb2.u, 0.0)?;
            cmp_points(cx, "insert_times against single insertions", &a, &rb2, tol(p))?;
            let want_ok = m.saturating_add(times) <= p + 1;
            cx.check(ra.is_ok() == want_ok, || {
                format!("insert_times({x:e},{times}) at multiplicity {m}, degree {p}: {ra:?}")
            })?;
            let len = a.knots.vector().len();
            let full = oldu.len() + times.min(p + 1 - m.min(p + 1));
            cx.check(len == full, || format!("insert_times({x:e},{times}) left {len} knots, expected {full}"))?;
            cx.count("insert_times compared with single insertions");
        }
        let r = match cx.rng.below(3) {
            0 => call("insert", || c.insert(x).map(|_| ()))?,
            1 => call("insert_times", || c.insert_times(x, 1).map(|_| ()))?,
            _ => call("manipulation::insert", || lib_insert(&mut c, x))?,
        };
        if m > p {
            match r {
                Err(InsertError::MultiplicityError { u, m: mm, p: pp }) if u == x && mm == m && pp == p => {
                    cx.obs();
                    names(cx, &InsertError::MultiplicityError { u, m, p })?;
                }
                r => return Err(format!("insert({x:e}) at multiplicity {m} > degree {p} returned {r:?}").into()),
            }
            cx.check(snapshot(&c) == before, || "refused insertion changed the curve".into())?;
            cx.count("refused: multiplicity p+1");
            continue;
        }
        if let Err(e) = r {
            return Err(format!("insert({x:e}) at multiplicity {m}, degree {p} refused: {e:?}").into());
        }
        cx.mark_nontrivial();
        cx.count("insertions compared");
        if m == p {
            cx.count("insertions to multiplicity p+1");
        }
        // knots: exactly one more
        let mut want = oldu.clone();
        let pos = want.iter().position(|k| *k > x).unwrap();
        want.insert(pos, x);
        let got: Vec<f64> = c.knots.vector().iter().cloned().collect();
        cx.check(got == want, || format!("knots after insert({x:e}): {got:?}, expected {want:?}"))?;
        let mult = call("multiplicity", || c.knots.multiplicity(x))?;
        cx.check(mult == m + 1, || format!("multiplicity({x:e}) = {mult}, expected {}", m + 1))?;
        // points
        let new = old.insert(Dd::new(x));
        let mt = c.points.matrix();
        let (rows, cols) = (mt.nrows(), mt.ncols());
        cx.check(cols == old.pts.len() + 1 && rows == old.dim(), || {
            format!("{rows}x{cols} points after inserting into {} points", old.pts.len())
        })?;
        let k = pos - 1; // last index with knot <= x in the old vector
        for j in 0..cols {
            for d in 0..rows {
                let v = mt[(d, j)];
                // a blend with weights 0 and 1 may still round
                let near = [j.wrapping_sub(1), j].iter().filter_map(|i| old.pts.get(*i)).map(|q| q[d].f().abs()).fold(0.0, f64::max);
                if j + p <= k {
                    let w = old.pts[j][d].f();
                    cx.check((v - w).abs() <= 4.0 * EPS * near, || format!("insert({x:e}) changed remote control point {j}: {w:e} -> {v:e}"))?;
                } else if j > k {
                    let w = old.pts[j - 1][d].f();
                    cx.check((v - w).abs() <= 4.0 * EPS * near, || format!("insert({x:e}) changed remote control point {j}: {w:e} -> {v:e}"))?;
                } else {
                    let s = old.pts[j][d].f().abs().max(old.pts[j - 1][d].f().abs());
                    cx.close(&format!("insert({x:e}): control point {j} coordinate {d}"), v, new.pts[j][d], 64.0 * EPS * s + TINY)?;
                }
            }
        }
    }
    consistent(cx, "after insertions", &c, 0.0)
}

fn split_lib(cx: &mut Ctx, c: &Curve, x: f64) -> R<(Result<(Curve, Curve), SplitError>, (bool, bool))> {
    Ok(match cx.rng.below(4) {
        0 => (call("split", || c.split(x))?, (true, true)),
        1 => (call("manipulation::split", || lib_split(c, x))?, (true, true)),
        _ => {
            let f = (cx.rng.chance(1, 2), cx.rng.chance(1, 2));
            (call("split_and_normalize", || split_and_normalize(c, x, f))?, f)
        }
    })
}

fn split_param(cx: &mut Ctx, g: &gen::G) -> f64 {
    if cx.rng.chance(1, 3) && g.n() > g.p {
        g.u[cx.rng.range(g.p + 1, g.n())]
    } else {
        inner_param(cx, &g.u, g.p)
    }
}

fn c08(cx: &mut Ctx) -> R {
    let o = COpt { pmax: 7, mult_below: cx.rng.below(2), ..WILD };
    let g = gen(cx, o);
    g.note(cx);
    let mut c = g.build(cx)?;
    if cx.rng.chance(1, 5) {
        // with a history
        let x = cx.rng.uni(0.05, 0.95);
        let _ = call("insert", || c.insert(x).map(|_| ()))?;
        cx.count("split of a curve with a history");
    }
    let rc = RefCurve::of(&c);
    let p = g.p;
    let x = split_param(cx, &g);
    cx.hashf(&[x]);
    cx.describe(|| format!("split at {x:e}"));
    let m = rc.mult(x);
    if m > p {
        cx.count("skipped: multiplicity p+1");
        return Ok(());
    }
    let before = snapshot(&c);
    let (r, flags) = split_lib(cx, &c, x)?;
    let (a, b) = r.map_err(|e| format!("split at {x:e} (multiplicity {m}) refused: {e:?}"))?;
    cx.check(snapshot(&c) == before, || "splitting changed the original curve".into())?;
    cx.mark_nontrivial();
    match m {
        0 => cx.count("split between knots"),
        1 => cx.count("split at a simple knot"),
        m if m == p => cx.count("split at a knot of multiplicity p"),
        _ => cx.count("split at a repeated knot"),
    }
    let xd = Dd::new(x);
    let (ra, rb) = rc.split(xd);
    for (side, piece, rp, norm) in [("left", &a, &ra, flags.0), ("right", &b, &rb, flags.1)] {
        let exact = if norm { rp.normalized() } else { rp.clone() };
        cmp_points_of(cx, &format!("{side} piece"), piece, &exact, tol(p), &rc)?;
        cx.count(if norm { "normalised pieces" } else { "unnormalised pieces" });
        let ms = exact.min_span();
        let mut us = span_samples(cx, &exact, 24);
        if !norm {
            us.push(exact.lo().f());
            us.push(exact.hi().f());
        } else {
            us.extend([0.0, 1.0]);
        }
        let kslack = if norm { 32.0 * p as f64 * EPS / ms } else { 0.0 };
        if kslack > 1e-4 {
            cx.count("skipped: normalised span below rounding");
            continue;
        }
        let base = if side == "left" { Dd::ZERO } else { xd };
        let len = if side == "left" { xd } else { Dd::ONE - xd };
        for &v in &us {
            if !(0.0..=1.0).contains(&v) {
                continue;
            }
            for k in 0..=p {
                if overflows(&exact, k) {
                    cx.count("skipped: derivative overflow");
                    break;
                }
                let got = evaluate(piece, v, k)?;
                let vd = Dd::new(v);
                // the same point of the original, and the chain rule
                let (ou, mut chain) = if norm { (base + len * vd, Dd::ONE) } else { (vd, Dd::ONE) };
                if norm {
                    for _ in 0..k {
                        chain = chain * len;
                    }
                }
                // the one-sided piece of the original that belongs to this side
                let s = if side == "left" { rc.span_left(if v == 0.0 { Dd::ZERO } else { ou }) } else { rc.span(ou) };
                let want = rc.eval_span(s, ou, k);
                let amp = exact.amp(vd, k);
                for d in 0..rc.dim() {
                    let t = (tol(p) + kslack) * amp * rc.pmax_coord(d);
                    if !(t < 1e280) {
                        continue;
                    }
                    cx.close(
                        &format!("{side} piece ({}): derivative {k} at {v:e} coordinate {d}", if norm { "normalised" } else { "as is" }),
                        got[d],
                        want.v[d] * chain,
                        t + TINY,
                    )?;
                }
            }
        }
    }
    Ok(())
}

fn c09(cx: &mut Ctx) -> R {
    let g = gen(cx, COpt { pmax: 7, ..WILD });
    g.note(cx);
    let c = g.build(cx)?;
    let rc = g.refc();
    let p = g.p;
    let x = split_param(cx, &g);
    cx.hashf(&[x]);
    cx.describe(|| format!("split at {x:e}"));
    let m = rc.mult(x);
    let before = snapshot(&c);
    let (r, flags) = split_lib(cx, &c, x)?;
    cx.check(snapshot(&c) == before, || "splitting changed the original curve".into())?;
    cx.mark_nontrivial();
    if m > p {
        match r {
            Err(SplitError::MultiplicityTooHigh { u, p: pp, multiplicity }) if u == x && pp == p && multiplicity == m => {
                cx.obs();
                names(cx, &SplitError::MultiplicityTooHigh { u, p, multiplicity })?;
            }
            r => return Err(format!("split({x:e}) at multiplicity {m} > degree {p} returned {r:?}").into()),
        }
        cx.count("refused: multiplicity p+1");
        return Ok(());
    }
    let (a, b) = r.map_err(|e| format!("split at {x:e} (multiplicity {m}, degree {p}) refused: {e:?}"))?;
    cx.count("splits");
    let xd = Dd::new(x);
    let (ra, rb) = rc.split(xd);
    for (side, piece, rp, norm) in [("left", &a, &ra, flags.0), ("right", &b, &rb, flags.1)] {
        let (dp, dd, ns) = (piece.degree(), piece.dimension(), piece.segments());
        cx.check(dp == p && dd == g.dim() && ns == rp.n(), || {
            format!("{side} piece: degree {dp} dimension {dd} segments {ns}, expected {p} {} {}", g.dim(), rp.n())
        })?;
        let exact = if norm { rp.normalized() } else { rp.clone() };
        cmp_knots(cx, &format!("{side} piece"), piece, &exact.u, if norm { 8.0 * EPS } else { 0.0 })?;
        let u = piece.knots.vector();
        let (s, e) = (exact.u[0].f(), exact.u[exact.u.len() - 1].f());
        let head = u.iter().filter(|k| **k == s).count();
        let tail = u.iter().filter(|k| **k == e).count();
        // distinct knots may coincide after rounding only if the span is below rounding
        let tight = norm && exact.min_span() < 16.0 * EPS;
        if !tight {
            cx.check(head == p + 1 && tail == p + 1, || {
                format!("{side} piece: {head} knots at its start {s:e}, {tail} at its end {e:e}, expected {}", p + 1)
            })?;
        } else {
            cx.check(head >= p + 1 && tail >= p + 1, || format!("{side} piece is not clamped: {head}/{tail}"))?;
        }
        if norm {
            let (cl, no, so) = (is_clamped(&piece.knots), is_normed(&piece.knots), is_sorted(&piece.knots));
            cx.check(cl && no && so, || format!("{side} piece: clamped {cl} normed {no} sorted {so}"))?;
        }
        cmp_points_of(cx, &format!("{side} piece"), piece, &exact, tol(p), &rc)?;
        let md = call("max_derivative", || piece.max_derivative())?;
        cx.check(md == p, || format!("{side} piece: max_derivative {md}"))?;
    }
    // both pieces end in the split point
    let want = rc.eval(xd, 0);
    let (ea, eb) = (a.points.matrix(), b.points.matrix());
    for d in 0..g.dim() {
        let t = tol(p) * rc.pmax_coord(d) + TINY;
        cx.close("end of the left piece", ea[(d, ea.ncols() - 1)], want.v[d], t)?;
        cx.close("start of the right piece", eb[(d, 0)], want.v[d], t)?;
    }
    // the pieces live on by themselves
    if flags.0 && flags.1 && ra.normalized().min_span() > 1e-6 && rb.normalized().min_span() > 1e-6 {
        let mut a2 = a.clone();
        let mut b2 = b.clone();
        let y = cx.rng.uni(0.05, 0.95);
        let old = RefCurve::of(&a2);
        call("insert into the left piece", || a2.insert(y).map(|_| ()))?.map_err(|e| format!("insert refused: {e:?}"))?;
        cmp_points(cx, "insertion into the left piece", &a2, &old.insert(Dd::new(y)), tol(p))?;
        let old = RefCurve::of(&b2);
        let mo = old.mult(y);
        if mo <= p {
            let (l, r) = call("split of the right piece", || b2.split(y))?.map_err(|e| format!("split refused: {e:?}"))?;
            let (rl, rr) = old.split(Dd::new(y));
            cmp_points_of(cx, "left piece of the right piece", &l, &rl, tol(p), &old)?;
            cmp_points_of(cx, "right piece of the right piece", &r, &rr, tol(p), &old)?;
        }
        call("reverse of a piece", || {
            b2.reverse();
        })?;
        cmp_points(cx, "reversed piece", &b2, &old.reversed(), 0.0)?;
        consistent(cx, "left piece after insertion", &a2, 0.0)?;
        consistent(cx, "right piece after reversal", &b2, 2.0 * EPS)?;
        cx.count("pieces used further");
        cx.check(snapshot(&c) == before, || "using a piece changed the original".into())?;
    } else {
        consistent(cx, "left piece", &a, 0.0)?;
        consistent(cx, "right piece", &b, 0.0)?;
    }
    Ok(())
}

fn c10(cx: &mut Ctx) -> R {
    let o = COpt { pmax: 7, mult_below: cx.rng.below(2), ..WILD };
    let g = gen(cx, o);
    g.note(cx);
    cx.mark_nontrivial();
    let mut c = g.build(cx)?;
    if cx.rng.chance(1, 4) {
        let x = cx.rng.uni(0.05, 0.95);
        let _ = call("insert", || c.insert(x).map(|_| ()))?;
    }
    let p = g.p;
    let rc = RefCurve::of(&c);
    let before = snapshot(&c);
    let copy = call("reversed", || lib_reversed(&c))?;
    cx.check(snapshot(&c) == before, || "reversed() changed its input".into())?;
    let mut r1 = c.clone();
    call("reverse", || {
        r1.reverse();
    })?;
    let mut r2 = c.clone();
    call("manipulation::reverse", || {
        lib_reverse(&mut r2);
    })?;
    // the three forms give the same curve, up to the rounding of the knots
    let rr = RefCurve::of(&r1);
    for (name, o) in [("reversed()", &copy), ("manipulation::reverse", &r2)] {
        cmp_knots(cx, name, o, &rr.u, 4.0 * EPS)?;
        cmp_points(cx, name, o, &rr, 0.0)?;
        consistent(cx, name, o, 2.0 * EPS)?;
    }
    let exact = rc.reversed();
    cmp_knots(cx, "reversed curve", &r1, &exact.u, 4.0 * EPS)?;
    cmp_points(cx, "reversed curve", &r1, &exact, 0.0)?;
    let cl = is_clamped(&r1.knots) && is_sorted(&r1.knots) && is_normed(&r1.knots);
    cx.check(cl, || format!("reversed knots {:?} not clamped, sorted, normed", r1.knots.vector()))?;
    consistent(cx, "reversed curve", &r1, 2.0 * EPS)?;
    let ms = exact.min_span();
    let kslack = 32.0 * p as f64 * EPS / ms;
    if kslack < 1e-4 {
        let mut us = span_samples(cx, &exact, 24);
        us.extend([0.0, 1.0]);
        for &v in &us {
            let vd = Dd::new(v);
            let ou = Dd::ONE - vd;
            for k in 0..=p {
                let got = evaluate(&r1, v, k)?;
                let s = if v == 0.0 { rc.span_left(Dd::ONE) } else { rc.span(ou) };
                let want = rc.eval_span(s, ou, k);
                let amp = exact.amp(vd, k);
                for d in 0..rc.dim() {
                    let t = (tol(p) + kslack) * amp * rc.pmax_coord(d);
                    if !(t < 1e280) {
                        continue;
                    }
                    let w = if k % 2 == 1 { -want.v[d] } else { want.v[d] };
                    cx.close(&format!("reversed curve: derivative {k} at {v:e} coordinate {d}"), got[d], w, t + TINY)?;
                }
            }
        }
        cx.count("traces compared");
    }
    // twice is the identity
    let mut tw = r1.clone();
    call("reverse", || {
        tw.reverse();
    })?;
    cmp_knots(cx, "reversed twice", &tw, &rc.u, 6.0 * EPS)?;
    cmp_points(cx, "reversed twice", &tw, &rc, 0.0)?;
    consistent(cx, "reversed twice", &tw, 4.0 * EPS)?;
    // a reversed curve can be manipulated further
    if ms > 1e-6 {
        let y = cx.rng.uni(0.02, 0.98);
        let old = RefCurve::of(&r1);
        if old.mult(y) <= p {
            let mut z = r1.clone();
            call("insert into a reversed curve", || z.insert(y).map(|_| ()))?.map_err(|e| format!("insert refused: {e:?}"))?;
            cmp_points(cx, "insertion into a reversed curve", &z, &old.insert(Dd::new(y)), tol(p))?;
            consistent(cx, "insertion into a reversed curve", &z, 0.0)?;
        }
    }
    Ok(())
}
