use crate::ctx::{call, Ctx, Viol, R};
use crate::dd::Dd;
use crate::refm::{Ev, RefCurve, EPS};
use bsplines::curve::{points::Points, Curve};
use nalgebra::DVector;

pub mod affine;
pub mod eval;
pub mod fit;
pub mod hist;
pub mod insert;
pub mod knots;
pub mod memory;
pub mod merge;
pub mod open;
pub mod pts;
pub mod pure;

pub struct Prop {
    pub id: &'static str,
    pub case: fn(&mut Ctx) -> R,
    pub quick: u64,
    pub thorough: u64,
    pub min_nontrivial: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub const A_MODEL: &str = "the double-double reference model in harness/src/refm.rs is right (it shares no code with the library)";
pub const A_TOL: &str = "errors below the stated rounding tolerance are rounding";
pub const A_CLAMPED: &str = "curves are valid: clamped [0,1] knots of length n+p+2, interior multiplicity <= p+1, finite coordinates";

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(affine::props());
    v.extend(eval::props());
    v.extend(fit::props());
    v.extend(hist::props());
    v.extend(insert::props());
    v.extend(knots::props());
    v.extend(memory::props());
    v.extend(merge::props());
    v.extend(open::props());
    v.extend(pts::props());
    v.extend(pure::props());
    v.sort_by_key(|p| p.id);
    v
}

pub fn helper(name: &str, a: &crate::run::Args) {
    match name {
        "purity" => pure::fresh(a),
        "miri" => memory::miri(a),
        _ => {}
    }
}

/// All bits of a curve: every knot vector and every control point matrix, through the public API.
pub fn snapshot(c: &Curve) -> Vec<u64> {
    let mut v = vec![c.knots.degree() as u64, c.knots.max_derivative() as u64, c.points.max_derivative() as u64];
    for k in 0..=c.knots.max_derivative() {
        let u = c.knots.vector_derivative(k);
        v.push(u.len() as u64);
        v.extend(u.iter().map(|x| x.to_bits()));
    }
    for k in 0..=c.points.max_derivative() {
        let m = c.points.matrix_derivative(k);
        v.push(m.nrows() as u64);
        v.push(m.ncols() as u64);
        v.extend(m.iter().map(|x| x.to_bits()));
    }
    v
}

/// Rounding tolerance relative to the magnitude of the summed terms.
pub fn tol(p: usize) -> f64 {
    let q = (p + 3) as f64;
    32.0 * q * q * EPS
}
pub const TINY: f64 = 1e-290;

pub fn evaluate(c: &Curve, u: f64, k: usize) -> R<DVector<f64>> {
    let r = if k == 0 {
        call("evaluate", || c.evaluate(u))?
    } else {
        call("evaluate_derivative", || c.evaluate_derivative(u, k))?
    };
    r.map_err(|e| Viol::from(format!("evaluate_derivative(u={u:e}, k={k}) refused: {e:?}")))
}

/// Library value against a reference value, with the reference's term magnitude.
pub fn cmp_ev(cx: &mut Ctx, what: &str, got: &DVector<f64>, want: &Ev, t: f64) -> R {
    let (g, w) = (got.len(), want.v.len());
    cx.check(g == w, || format!("{what}: dimension {g}, expected {w}"))?;
    for c in 0..w {
        if !(want.mag[c] < 1e280) {
            cx.count("skipped: magnitude overflow");
            continue;
        }
        cx.close(what, got[c], want.v[c], t * want.mag[c] + TINY)?;
    }
    Ok(())
}

/// Compares the library's control points with expected ones; `t` times the size of the coordinate.
pub fn cmp_points(cx: &mut Ctx, what: &str, c: &Curve, want: &RefCurve, t: f64) -> R {
    cmp_points_of(cx, what, c, want, t, want)
}
/// As `cmp_points`, with the sizes of the coordinates of the curve the points were computed from.
pub fn cmp_points_of(cx: &mut Ctx, what: &str, c: &Curve, want: &RefCurve, t: f64, size: &RefCurve) -> R {
    let m = c.points.matrix();
    let (nr, nc) = (m.nrows(), m.ncols());
    cx.check(nr == want.dim() && nc == want.pts.len(), || {
        format!("{what}: points are {nr}x{nc}, expected {}x{}", want.dim(), want.pts.len())
    })?;
    for r in 0..nr {
        let s = want.pmax_coord(r).max(size.pmax_coord(r));
        for j in 0..nc {
            cx.close(&format!("{what}: point {j} coordinate {r}"), m[(r, j)], want.pts[j][r], t * s + TINY)?;
        }
    }
    Ok(())
}
pub fn cmp_knots(cx: &mut Ctx, what: &str, c: &Curve, want: &[Dd], t: f64) -> R {
    let u = c.knots.vector();
    let l = u.len();
    cx.check(l == want.len(), || format!("{what}: {l} knots, expected {}", want.len()))?;
    for i in 0..want.len() {
        cx.close(&format!("{what}: knot {i}"), u[i], want[i], t)?;
    }
    for i in 1..l {
        let (a, b) = (u[i - 1], u[i]);
        cx.check(a <= b, || format!("{what}: knots not sorted at {i}: {a:e} > {b:e}"))?;
    }
    Ok(())
}

/// Everything stored in the curve must be what belongs to its knots and control points.
/// `slack`: absolute rounding the stored vectors may carry against each other (reversal rounds 1-u).
pub fn consistent(cx: &mut Ctx, what: &str, c: &Curve, slack: f64) -> R {
    let p = c.degree();
    let nk = c.knots.vector().len();
    let np = c.points.count();
    cx.check(nk == np + p + 1, || format!("{what}: {nk} knots for {np} points of degree {p}"))?;
    let (a, b) = (c.segments(), np - 1);
    cx.check(a == b, || format!("{what}: segments() = {a}, expected {b}"))?;
    let d = call("max_derivative", || c.max_derivative())?;
    cx.check(d == p, || format!("{what}: max_derivative() = {d}, degree is {p}"))?;
    let u = c.knots.vector();
    for i in 1..nk {
        let (a, b) = (u[i - 1], u[i]);
        cx.check(a <= b, || format!("{what}: knots not sorted at {i}: {a:e} > {b:e}"))?;
    }
    let rc = RefCurve::of(c);
    for k in 1..=p {
        let uk = call("vector_derivative", || c.knots.vector_derivative(k).clone())?;
        cx.check(uk.len() == nk - 2 * k, || format!("{what}: derivative {k} has {} knots", uk.len()))?;
        for i in 0..uk.len() {
            let (g, w) = (uk[i], u[i + k]);
            // reversal maps every stored vector separately; equal up to rounding
            cx.close(&format!("{what}: knot {i} of derivative {k}"), g, Dd::new(w), 4.0 * EPS * w.abs() + slack)?;
        }
        let m = call("matrix_derivative", || c.points.matrix_derivative(k).clone())?;
        let (r, l) = (m.nrows(), m.ncols());
        cx.check(r == rc.dim() && l == np - k, || format!("{what}: derivative {k} has {r}x{l} points"))?;
    }
    // the derivative control points, recomputed from the current state with magnitudes
    let mut val = rc.clone();
    let mut mag: Vec<Vec<f64>> = rc.pts.iter().map(|q| q.iter().map(|x| x.f().abs()).collect()).collect();
    let mut rel = vec![0.0f64; mag.len()];
    for k in 1..=p {
        let pk = val.p;
        let mut m2 = vec![];
        let mut rel2 = vec![];
        let nxt = val.derivative(1);
        for i in 0..nxt.pts.len() {
            let den = (val.u[i + pk + 1] - val.u[i + 1]).f();
            let f = if den == 0.0 { 0.0 } else { pk as f64 / den };
            // knots may only coincide after rounding
            let r = if den > 0.0 {
                4.0 * slack / den
            } else if slack > 0.0 {
                f64::INFINITY
            } else {
                0.0
            };
            rel2.push(rel[i].max(rel[i + 1]) + r);
            m2.push((0..rc.dim()).map(|d| f.abs() * (mag[i + 1][d] + mag[i][d])).collect::<Vec<f64>>());
        }
        val = nxt;
        mag = m2;
        rel = rel2;
        let m = c.points.matrix_derivative(k);
        for i in 0..val.pts.len() {
            for d in 0..rc.dim() {
                if !(mag[i][d] < 1e280) || !(rel[i] < 1e-3) {
                    continue;
                }
                cx.close(
                    &format!("{what}: stored control point {i} of derivative {k}, coordinate {d}"),
                    m[(d, i)],
                    val.pts[i][d],
                    (tol(p) + rel[i]) * mag[i][d] + TINY,
                )?;
            }
        }
    }
    Ok(())
}

/// k-th derivative tolerance when the curve has been recomputed: unit-size amplification of the
/// expected curve times the coordinate size.
pub fn soft(rc: &RefCurve, x: Dd, k: usize) -> f64 {
    rc.amp(x, k)
}

/// Derivatives of this order may overflow somewhere on the curve (minute knot spans): not claimed.
pub fn overflows(rc: &RefCurve, k: usize) -> bool {
    let ms = rc.min_span();
    if ms > 1e-20 && rc.p <= 9 && rc.pmax() < 1e100 {
        return false;
    }
    let l = (2.0 * rc.p as f64 / ms).log10() * k as f64 + (rc.pmax() + 1e-300).log10();
    !(l < 280.0)
}

/// The text of an error must give every quantity the error carries.
pub fn names<E: std::fmt::Debug + std::fmt::Display>(cx: &mut Ctx, e: &E) -> R {
    let (dbg, text) = (format!("{e:?}"), format!("{e}"));
    for part in dbg.split([',', '{', '}', '(', ')']) {
        let Some((name, value)) = part.split_once(':') else { continue };
        let value = value.trim();
        let Ok(v) = value.parse::<f64>() else { continue };
        let plain = format!("{v}");
        // as a word of its own, not as a part of a longer number
        let found = [value, plain.as_str()].iter().any(|w| {
            text.match_indices(w).any(|(i, _)| {
                let before = text[..i].chars().next_back();
                let after: Vec<char> = text[i + w.len()..].chars().take(2).collect();
                let digit = |c: Option<&char>| c.map_or(false, |c| c.is_ascii_digit());
                !before.map_or(false, |c| c.is_ascii_digit() || c == '.' || c == '-')
                    && !digit(after.first())
                    && !(after.first() == Some(&'.') && digit(after.get(1)))
            })
        });
        cx.check(found, || format!("the text of {dbg} does not give {}: {text}", name.trim()))?;
    }
    cx.count("error texts checked");
    Ok(())
}
