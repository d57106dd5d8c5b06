//! C16-C19: interpolation, least-squares fits, generation requests around their limits.
use super::*;
use crate::dd::M;
use crate::gen::{self, mat, vecd};
use crate::refm::{collocation, sym_eig};
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::{self, Knots};
use bsplines::curve::parameters::{self, Parameters};
use bsplines::curve::points::methods::fit::{self, FitError, Penalization};
use bsplines::curve::points::methods::interpolation::interpolate;
use bsplines::curve::points::{ControlPoints, DataPoints};
use bsplines::curve::CurveError;

const A_COND: &str = "the collocation or normal matrix is numerically non-singular: what lies below the numerical rank of a double precision solver is skipped and counted, or listed as a finding";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            case: c16,
            quick: 180000,
            thorough: 4000000,
            min_nontrivial: 3000,
            rule: "a case is one data set interpolated by the generator (equally spaced parameters, uniform knots) or directly with other parameters and knots; the curve is evaluated at every \
                   data parameter and its control points are compared with the double-double solution; distinct by the bits of data, knots and parameters",
            assumptions: &[A_MODEL, A_TOL, A_COND],
        },
        Prop {
            id: "C17",
            case: c17,
            quick: 36000,
            thorough: 1000000,
            min_nontrivial: 3000,
            rule: "a case is one data set fitted with loose ends; the gradient of the penalised sum of squares at the returned control points and their distance from the double-double minimiser \
                   are bounded; distinct by the bits of data, knots, parameters and penalty",
            assumptions: &[A_MODEL, A_TOL, A_COND],
        },
        Prop {
            id: "C18",
            case: c18,
            quick: 72000,
            thorough: 2000000,
            min_nontrivial: 3000,
            rule: "a case is one data set fitted with fixed ends; both ends must be the data points exactly, the inner control points are judged as for loose ends; distinct by the bits of data, \
                   knots, parameters and penalty",
            assumptions: &[A_MODEL, A_TOL, A_COND],
        },
        Prop {
            id: "C19",
            case: c19,
            quick: 1200000,
            thorough: 40000000,
            min_nontrivial: 20000,
            rule: "a case is one generation request (interpolation, fits through the generator or directly, manual construction) with sizes around the limits; the outcome must be a curve of the \
                   requested shape or one of the errors that apply, with the offending quantities; distinct by all arguments",
            assumptions: &["where several limits are violated, any of the applicable errors is accepted"],
        },
    ]
}

fn max_abs(v: &[Vec<f64>], c: usize) -> f64 {
    v.iter().map(|q| q[c].abs()).fold(0.0, f64::max)
}
fn norm(v: &[Vec<f64>], c: usize) -> f64 {
    v.iter().map(|q| q[c] * q[c]).sum::<f64>().sqrt()
}
/// The uniform knots as the library spells them, if it spells i/(n-p+1) up to rounding (C21 judges that):
/// which of the floats next to it is "uniform" is the library's choice.
pub fn uniform_knots(p: usize, n: usize) -> Vec<f64> {
    let cnt = n - p;
    let inner: Vec<f64> = (1..=cnt).map(|i| i as f64 / (cnt + 1) as f64).collect();
    let own = gen::clamp(p, &inner);
    let lib = std::panic::catch_unwind(|| bsplines::curve::knots::methods::uniform(p, n).ok().map(|k| k.vector().iter().cloned().collect::<Vec<f64>>()));
    match lib {
        Ok(Some(v)) if v.len() == own.len() && v.iter().zip(&own).all(|(a, b)| (a - b).abs() <= 16.0 * f64::EPSILON * b) => v,
        _ => own,
    }
}
fn equal_params(m: usize) -> Vec<f64> {
    (0..=m).map(|g| if g == m { 1.0 } else { g as f64 / m as f64 }).collect()
}

/// Data with some spread; sometimes strongly scaled.
fn data(cx: &mut Ctx, dim: usize, cnt: usize) -> Vec<Vec<f64>> {
    let (mut d, cl) = gen::points(cx, dim, cnt, true);
    if cx.rng.chance(1, 8) {
        let s = 10f64.powi(cx.rng.range(0, 40) as i32 - 20);
        for x in d.iter_mut().flatten() {
            *x *= s;
        }
        cx.count("scaled data");
    }
    cx.count(&format!("data={cl}"));
    d
}

/// Parameters from 0 to 1; strictly increasing on demand.
fn gen_params(cx: &mut Ctx, d: &[Vec<f64>], strict: bool) -> (Vec<f64>, &'static str) {
    let m = d.len() - 1;
    let mut v = equal_params(m);
    let mut class = "equally spaced";
    let lengths = |f: &dyn Fn(f64) -> f64| -> Vec<f64> {
        let l: Vec<f64> = (1..=m).map(|g| f((0..d[0].len()).map(|c| (d[g][c] - d[g - 1][c]).powi(2)).sum::<f64>().sqrt())).collect();
        let s: f64 = l.iter().sum();
        let mut acc = 0.0;
        let mut o = vec![0.0];
        for x in l {
            acc += x / s;
            o.push(acc.min(1.0));
        }
        o[m] = 1.0;
        o
    };
    match cx.rng.below(5) {
        0 | 1 => {}
        2 => {
            v = lengths(&|x| x);
            class = "chord length";
        }
        3 => {
            v = lengths(&|x| x.sqrt());
            class = "centripetal";
        }
        _ => {
            let jit = *cx.rng.pick(&[0.2, 0.45, 0.9]);
            for g in 1..m {
                v[g] = (g as f64 + jit * (cx.rng.f() - 0.5)) / m as f64;
            }
            class = "jittered";
        }
    }
    let bad = v.iter().any(|x| !(0.0..=1.0).contains(x)) || (1..=m).any(|g| v[g] < v[g - 1]) || (strict && (1..=m).any(|g| v[g] <= v[g - 1]));
    if bad {
        return (equal_params(m), "equally spaced");
    }
    if cx.rng.chance(1, 4) {
        // only a part of the interval
        let (a, b) = (*cx.rng.pick(&[0.0, 0.03, 0.1]), *cx.rng.pick(&[1.0, 0.97, 0.9]));
        let w: Vec<f64> = v.iter().map(|x| a + (b - a) * x).collect();
        if (1..=m).all(|g| w[g] > w[g - 1] || !strict && w[g] == w[g - 1]) {
            return (w, "part of the interval");
        }
    }
    if !strict && m > 3 && cx.rng.chance(1, 5) {
        // several measurements at one parameter, in places also at the ends
        for _ in 0..cx.rng.range(1, 3) {
            let g = match cx.rng.below(4) {
                0 => 1,
                1 => m,
                _ => cx.rng.range(1, m),
            };
            let l = cx.rng.range(1, 3).min(m + 1 - g);
            if g + l > m && g <= m {
                for j in g - 1..m {
                    v[j] = v[m];
                }
            } else {
                for j in g..g + l {
                    v[j] = v[g - 1];
                }
            }
        }
        return (v, "repeated");
    }
    (v, class)
}

/// Clamped knots for n segments suited to the parameters.
fn gen_knots(cx: &mut Ctx, p: usize, n: usize, par: &[f64]) -> (Vec<f64>, &'static str) {
    let (mut u, class) = gen_knots_any(cx, p, n, par);
    if cx.rng.chance(1, 40) {
        gen::negative_zeros(cx, &mut u);
    }
    let inner = &u[p + 1..n + 1];
    let many = inner.iter().any(|x| inner.iter().filter(|y| *y == x).count() > p);
    if many || inner.iter().any(|x| *x < 1e-3 || *x > 1.0 - 1e-3) {
        return (uniform_knots(p, n), "uniform");
    }
    (u, class)
}
fn gen_knots_any(cx: &mut Ctx, p: usize, n: usize, par: &[f64]) -> (Vec<f64>, &'static str) {
    let m = par.len() - 1;
    let cnt = n - p;
    match cx.rng.below(4) {
        0 => (uniform_knots(p, n), "uniform"),
        1 | 2 => {
            // knots between the parameters, spread evenly over them (averaging when n = m)
            let mut inner = vec![];
            for j in 1..=cnt {
                if n == m {
                    inner.push(par[j..j + p].iter().sum::<f64>() / p as f64);
                } else {
                    let x = j as f64 * (m + 1) as f64 / (cnt + 1) as f64;
                    let i = (x.floor() as usize).clamp(1, m);
                    let f = x - x.floor();
                    inner.push((1.0 - f) * par[i - 1] + f * par[i]);
                }
            }
            inner.sort_by(|a, b| a.partial_cmp(b).unwrap());
            (gen::clamp(p, &inner), "averaged")
        }
        _ => {
            let mut inner: Vec<f64> = (1..=cnt).map(|i| (i as f64 + 0.8 * (cx.rng.f() - 0.5)) / (cnt + 1) as f64).collect();
            if cnt > 1 && cx.rng.chance(1, 3) {
                let i = cx.rng.range(1, cnt - 1);
                inner[i] = inner[i - 1];
            } else if cnt > 1 && p > 1 && cx.rng.chance(1, 3) {
                // a run of equal knots
                let l = cx.rng.range(2, p).min(cnt);
                let i = cx.rng.range(0, cnt - l);
                for j in i + 1..i + l {
                    inner[j] = inner[i];
                }
            } else if cnt > 1 && cx.rng.chance(1, 4) {
                // two knots close together
                let i = cx.rng.range(1, cnt - 1);
                inner[i] = inner[i - 1] + 10f64.powf(-(3.0 + 5.0 * cx.rng.f()));
            }
            inner.sort_by(|a, b| a.partial_cmp(b).unwrap());
            (gen::clamp(p, &inner), "irregular")
        }
    }
}

fn dmat(d: &[Vec<f64>]) -> M {
    let mut m = M::zeros(d.len(), d[0].len());
    for (i, q) in d.iter().enumerate() {
        for (c, x) in q.iter().enumerate() {
            m.set(i, c, Dd::new(*x));
        }
    }
    m
}
fn inf_norm(a: &M) -> f64 {
    (0..a.r).map(|i| (0..a.c).map(|j| a.at(i, j).f().abs()).sum::<f64>()).fold(0.0, f64::max)
}
fn col_norm(a: &M, c: usize) -> f64 {
    (0..a.r).map(|i| a.at(i, c).f().powi(2)).sum::<f64>().sqrt()
}

/// Interpolations listed in known_findings.txt: degree and data segments.
const SINGULAR: [(usize, usize); 4] = [(3, 300), (4, 160), (5, 80), (10, 40)];

fn c16(cx: &mut Ctx) -> R {
    if (cx.case as usize) < SINGULAR.len() {
        let (p, m) = SINGULAR[cx.case as usize];
        cx.key = Some(format!("uniform-p{p}-m{m}"));
        let d: Vec<Vec<f64>> = (0..=m).map(|g| vec![(g as f64 * 1.7).sin(), ((g * g % 17) as f64 * 0.1).cos()]).collect();
        cx.describe(|| format!("interpolation of degree {p} through {} points (sin(1.7 g), cos(0.1 (g^2 mod 17)))", m + 1));
        return through(cx, p, &d, None);
    }
    if cx.rng.chance(1, 2) {
        let p = gen::degree(cx, 1, 8);
        let big = if p <= 3 && cx.rng.chance(1, 150) { *cx.rng.pick(&[90, 90, 150]) } else { 0 };
        let m = match cx.rng.below(6) {
            0 => p,
            1 => p + 1,
            2 => p + cx.rng.range(0, 4),
            3 => p + cx.rng.range(10, 26) + big,
            _ => p + cx.rng.range(0, 12) + big,
        };
        let dim = gen::dims(cx, 4);
        let d = data(cx, dim, m + 1);
        cx.hash(p as u64);
        cx.hashf(&d.concat());
        cx.describe(|| format!("interpolation, degree {p}, data {d:?}"));
        let u = uniform_knots(p, m);
        return through(cx, p, &d, Some(u));
    }
    // directly, with other knots and parameters
    let p = gen::degree(cx, 1, 6);
    let m = p + match cx.rng.below(4) {
        0 => 0,
        1 => cx.rng.range(10, 30),
        _ => cx.rng.range(0, 10),
    };
    let dim = gen::dims(cx, 4);
    let d = data(cx, dim, m + 1);
    let (par, pc) = gen_params(cx, &d, true);
    let (u, kc) = gen_knots(cx, p, m, &par);
    cx.hashf(&d.concat());
    cx.hashf(&par);
    cx.hashf(&u);
    cx.describe(|| format!("direct interpolation, degree {p}, knots {u:?}, parameters {par:?}, data {d:?}"));
    let Some(rf) = solve_ref(cx, p, &u, &par, &d)? else { return Ok(()) };
    let k = call("Knots::new", || Knots::new(p, vecd(&u)))?;
    let pr = Parameters::new(vecd(&par), m);
    let dp = DataPoints::new(mat(&d));
    let x = call("interpolate", || interpolate(&k, &dp, &pr))?;
    cx.count(&format!("parameters={pc}"));
    cx.count(&format!("knots={kc}"));
    let c = call("Curve::new", || Curve::new(k, ControlPoints::new(x)))?.map_err(|e| format!("{e:?}"))?;
    judge_interpolation(cx, &c, &u, &par, &d, &rf)
}

struct Solved {
    x: M,
    cond: f64,
}
fn solve_ref(cx: &mut Ctx, p: usize, u: &[f64], par: &[f64], d: &[Vec<f64>]) -> R<Option<Solved>> {
    let n = d.len() - 1;
    let a = collocation(u, p, n, par);
    let Some(inv) = a.inverse() else {
        cx.count("skipped: singular");
        return Ok(None);
    };
    let cond = inf_norm(&a) * inf_norm(&inv);
    if !(cond * (n + 1) as f64 * EPS < 1e-4) {
        cx.count("skipped: ill-conditioned");
        return Ok(None);
    }
    cx.maximum("condition number", cond);
    Ok(Some(Solved { x: inv.mul(&dmat(d)), cond }))
}

fn judge_interpolation(cx: &mut Ctx, c: &Curve, u: &[f64], par: &[f64], d: &[Vec<f64>], rf: &Solved) -> R {
    let m = d.len() - 1;
    let _ = u;
    cx.mark_nontrivial();
    for g in 0..=m {
        let got = evaluate(c, par[g], 0)?;
        cx.check(got.len() == d[0].len(), || format!("dimension {}", got.len()))?;
        for i in 0..d[0].len() {
            let t = 200.0 * (m + 5) as f64 * EPS * (col_norm(&rf.x, i) + norm(d, i)) + TINY;
            cx.close_as("residual", &format!("data point {g} of {m}, coordinate {i}, at {:e}", par[g]), got[i], Dd::new(d[g][i]), t)?;
        }
        cx.count("data points checked");
    }
    let x = c.points.matrix();
    let same = x.ncols() == m + 1 && x.nrows() == d[0].len();
    cx.check(same, || format!("{} control points of dimension {} for {} data points", x.ncols(), x.nrows(), m + 1))?;
    for i in 0..d[0].len() {
        let t = 200.0 * (m + 5) as f64 * EPS * rf.cond * (col_norm(&rf.x, i) + norm(d, i)) + TINY;
        for j in 0..=m {
            cx.close_as("control points", &format!("control point {j} coordinate {i}"), x[(i, j)], rf.x.at(j, i), t)?;
        }
    }
    Ok(())
}

/// Interpolation through the generator; `u` gives the expected knots and asks for the reference.
fn through(cx: &mut Ctx, p: usize, d: &[Vec<f64>], u: Option<Vec<f64>>) -> R {
    let m = d.len() - 1;
    let par = equal_params(m);
    let rf = match &u {
        Some(u) => match solve_ref(cx, p, u, &par, d)? {
            Some(r) => Some(r),
            None => return Ok(()),
        },
        None => None,
    };
    let dp = DataPoints::new(mat(d));
    let c = call("generate(Interpolation)", || generate(Generation::Interpolation { degree: p, points: &dp }))?
        .map_err(|e| format!("interpolation refused: {e:?}"))?;
    let (cp, cs, cd) = (c.degree(), c.segments(), c.dimension());
    cx.check(cp == p && cs == m && cd == d[0].len(), || format!("degree {cp}, {cs} segments, dimension {cd}"))?;
    match (u, rf) {
        (Some(u), Some(rf)) => {
            judge_interpolation(cx, &c, &u, &par, d, &rf)?;
            consistent(cx, "interpolated curve", &c, 0.0)
        }
        _ => {
            let mut worst = (0.0, 0);
            for g in 0..=m {
                let got = evaluate(&c, par[g], 0)?;
                for i in 0..d[0].len() {
                    let e = (got[i] - d[g][i]).abs();
                    if !(e <= worst.0) {
                        worst = (e, g);
                    }
                }
            }
            cx.check(worst.0 <= 1e-6, || format!("degree {p}: data point {} of {m} is missed by {:e}", worst.1, worst.0))?;
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- fits

struct FitCase {
    p: usize,
    n: usize,
    m: usize,
    u: Vec<f64>,
    par: Vec<f64>,
    d: Vec<Vec<f64>>,
    pen: Option<(f64, usize)>,
    /// through `generate`
    via: bool,
    /// control points of the spline the data was taken from
    truth: Option<Vec<Vec<f64>>>,
}

fn fit_case(cx: &mut Ctx, fixed: bool) -> FitCase {
    let p = gen::degree(cx, 1, 6);
    let n = match cx.rng.below(6) {
        0 => p,
        1 => p + 1,
        2 if cx.rng.chance(1, 8) => p + cx.rng.range(0, 54 - p),
        2 => p + cx.rng.range(0, 20),
        _ => p + cx.rng.range(0, 8),
    };
    let m = n + match cx.rng.below(6) {
        0 => 0,
        1 => 1,
        2 if cx.rng.chance(1, 30) => cx.rng.range(60, 300),
        2 => cx.rng.range(20, 60),
        _ => cx.rng.range(1, 20),
    };
    let dim = gen::dims(cx, 4);
    let via = cx.rng.chance(1, 2);
    let mut d = data(cx, dim, m + 1);
    let (par, u);
    if via {
        par = equal_params(m);
        u = uniform_knots(p, n);
        cx.count("through generate");
    } else {
        let (a, pc) = gen_params(cx, &d, false);
        let (b, kc) = gen_knots(cx, p, n, &a);
        cx.count(&format!("parameters={pc}"));
        cx.count(&format!("knots={kc}"));
        par = a;
        u = b;
    }
    let lim = if fixed { n.saturating_sub(2) } else { n - 1 };
    let uni = u == uniform_knots(p, n);
    let pen = if lim >= 1 && cx.rng.chance(1, 2) {
        let kappa = match cx.rng.below(4) {
            0 => lim,
            1 => 1,
            _ => cx.rng.range(1, lim.min(5)),
        };
        let l = if !uni || cx.rng.chance(1, 8) {
            *cx.rng.pick(&[0.0, -0.0])
        } else {
            *cx.rng.pick(&[1.0, 0.5, 1e-3, 1e-6, 1e-9, 1e-12, 10.0, 1e3, 1e5, 1e7, 1e9]) * (0.5 + cx.rng.f())
        };
        cx.count(if l > 0.0 { "penalised" } else { "penalty of weight zero" });
        cx.count(&format!("kappa={}", if kappa > 25 { "26+".into() } else if kappa > 4 { "5+".into() } else { kappa.to_string() }));
        Some((l, kappa))
    } else {
        None
    };
    let mut truth = None;
    if pen.map_or(true, |x| x.0 == 0.0) && cx.rng.chance(1, 3) {
        let (t, _) = gen::points(cx, dim, n + 1, true);
        let rc = RefCurve::new(p, &u, &t);
        d = par.iter().map(|x| rc.eval(Dd::new(*x), 0).v.iter().map(|v| v.f()).collect()).collect();
        truth = Some(t);
    }
    cx.hash(p as u64);
    cx.hashf(&d.concat());
    cx.hashf(&u);
    cx.hashf(&par);
    if let Some((l, k)) = pen {
        cx.hashf(&[l, k as f64]);
    }
    cx.describe(|| format!("fit fixed={fixed} via generate={via}: p={p} n={n} m={m} penalty (lambda,kappa)={pen:?} knots {u:?} parameters {par:?} data {d:?}"));
    cx.count(match (n, n == m) {
        (1, _) => "one segment",
        (_, true) => "as many segments as data",
        _ => "fewer segments than data",
    });
    FitCase { p, n, m, u, par, d, pen, via, truth }
}

fn run_fit(cx: &mut Ctx, f: &FitCase, fixed: bool) -> R<Vec<Vec<f64>>> {
    let pen = f.pen.map(|(lambda, kappa)| Penalization { lambda, kappa });
    let dp = DataPoints::new(mat(&f.d));
    let before: Vec<u64> = dp.matrix().iter().map(|x| x.to_bits()).collect();
    let x = if f.via {
        let method = if fixed { fit::Method::FixedEnds } else { fit::Method::LooseEnds };
        let c = call("generate(LeastSquaresFit)", || {
            generate(Generation::LeastSquaresFit { degree: f.p, points: &dp, intended_segments: f.n, method, penalization: pen })
        })?
        .map_err(|e| format!("fit refused: {e:?}"))?;
        let (cp, cs, cd) = (c.degree(), c.segments(), c.dimension());
        cx.check(cp == f.p && cs == f.n && cd == f.d[0].len(), || format!("degree {cp}, {cs} segments, dimension {cd}"))?;
        let ku: Vec<f64> = c.knots.vector().iter().cloned().collect();
        cx.check(ku == f.u, || format!("knots {ku:?}, expected uniform ones"))?;
        if cx.rng.chance(1, 4) {
            consistent(cx, "fitted curve", &c, 0.0)?;
        }
        c.points.matrix().clone()
    } else {
        let k = call("Knots::new", || Knots::new(f.p, vecd(&f.u)))?;
        let pr = Parameters::new(vecd(&f.par), f.m);
        call("fit", || if fixed { fit::fixed::fit(&k, &dp, &pr, pen) } else { fit::loose::fit(&k, &dp, &pr, pen) })?
            .map_err(|e| format!("fit refused: {e:?}"))?
    };
    let same = before == dp.matrix().iter().map(|x| x.to_bits()).collect::<Vec<u64>>();
    cx.check(same, || "fitting changed the data".into())?;
    let (r, l) = (x.nrows(), x.ncols());
    cx.check(r == f.d[0].len() && l == f.n + 1, || format!("{l} control points of dimension {r}"))?;
    Ok((0..l).map(|j| (0..r).map(|i| x[(i, j)]).collect()).collect())
}

fn binom(k: usize, i: usize) -> f64 {
    // exact up to k = 56
    (0..i).fold(1u128, |a, j| a * (k - j) as u128 / (j + 1) as u128) as f64
}
/// kappa-th order differences of cnt unknowns
pub fn differences(cnt: usize, kappa: usize) -> M {
    let mut m = M::zeros(cnt - kappa, cnt);
    for r in 0..cnt - kappa {
        for i in 0..=kappa {
            let s = if (kappa - i) % 2 == 0 { 1.0 } else { -1.0 };
            m.set(r, r + i, Dd::new(s * binom(kappa, i)));
        }
    }
    m
}

/// The normal equations (A^T A + lambda D^T D) x = A^T b of the minimisation, judged at x.
fn judge_fit(cx: &mut Ctx, f: &FitCase, a: &M, b: &M, x: &[Vec<f64>], extra: &dyn Fn(usize) -> f64, truth: Option<&[Vec<f64>]>) -> R {
    let at = a.t();
    let mut g = at.mul(a);
    let n = a.c;
    let plain = sym_eig(&g);
    if let Some((l, k)) = f.pen {
        if l > 0.0 {
            let dm = differences(n, k);
            let dd = dm.t().mul(&dm);
            for i in 0..n {
                for j in 0..n {
                    g.set(i, j, g.at(i, j) + Dd::new(l) * dd.at(i, j));
                }
            }
        }
    }
    let e = sym_eig(&g);
    let (lo, hi) = (e[0], e[n - 1]);
    let size = (n + f.m + 5) as f64;
    if !(lo > 300.0 * size * EPS * hi) {
        cx.count("skipped: normal matrix numerically singular");
        return Ok(());
    }
    let rhs = at.mul(b);
    let Some(want) = g.solve(&rhs) else {
        cx.count("skipped: normal matrix numerically singular");
        return Ok(());
    };
    cx.mark_nontrivial();
    let xm = dmat(x);
    let gx = g.mul(&xm);
    let cond = hi / lo;
    cx.maximum("condition number of the normal matrix", cond);
    for i in 0..f.d[0].len() {
        // what a backward-stable solution of the normal equations may leave
        let s = hi * col_norm(&want, i) + plain[n - 1].sqrt() * (col_norm(b, i) + extra(i));
        // and one that applies an inverse, which is as accurate but leaves a larger gradient
        let tg = 40.0 * size * EPS * s + 4.0 * size * EPS * cond * hi * col_norm(&want, i);
        for j in 0..n {
            cx.close_as("gradient", &format!("gradient of the sum of squares, control point {j} coordinate {i}"), gx.at(j, i).f(), rhs.at(j, i), tg + TINY)?;
        }
        cx.count("gradients checked");
        let t = 40.0 * size * EPS * s / lo;
        for j in 0..n {
            cx.close_as("minimiser", &format!("control point {j} coordinate {i} against the minimiser"), x[j][i], want.at(j, i), t + TINY)?;
        }
        if let Some(tr) = truth {
            let t = t + 40.0 * size * EPS / lo * hi * max_abs(tr, i);
            for j in 0..n {
                cx.close_as("reproduction", &format!("control point {j} coordinate {i} of the spline the data lies on"), x[j][i], Dd::new(tr[j][i]), t + TINY)?;
            }
            cx.count("splines reproduced");
        }
    }
    Ok(())
}

fn c17(cx: &mut Ctx) -> R {
    let f = fit_case(cx, false);
    let x = run_fit(cx, &f, false)?;
    let a = collocation(&f.u, f.p, f.n, &f.par);
    let tr = f.truth.clone();
    judge_fit(cx, &f, &a, &dmat(&f.d), &x, &|_| 0.0, tr.as_deref())
}

fn c18(cx: &mut Ctx) -> R {
    let f = fit_case(cx, true);
    let x = run_fit(cx, &f, true)?;
    for i in 0..f.d[0].len() {
        let (s, e) = (x[0][i], x[f.n][i]);
        let (ws, we) = (f.d[0][i], f.d[f.m][i]);
        cx.check(s == ws && e == we, || format!("coordinate {i} of the ends is {s:e} and {e:e}, the data has {ws:e} and {we:e}"))?;
    }
    cx.count("fixed ends checked");
    if f.n == 1 {
        cx.mark_nontrivial();
        return Ok(());
    }
    let full = collocation(&f.u, f.p, f.n, &f.par);
    let (n, m) = (f.n, f.m);
    let mut a = M::zeros(m - 1, n - 1);
    let mut b = M::zeros(m - 1, f.d[0].len());
    for g in 1..m {
        for j in 1..n {
            a.set(g - 1, j - 1, full.at(g, j));
        }
        for i in 0..f.d[0].len() {
            let v = Dd::new(f.d[g][i]) - full.at(g, 0) * Dd::new(f.d[0][i]) - full.at(g, n) * Dd::new(f.d[m][i]);
            b.set(g - 1, i, v);
        }
    }
    // the end points belong to the curve of the data only if it is measured there
    let whole = f.par[0] == 0.0 && f.par[f.m] == 1.0;
    let tr = f.truth.as_ref().filter(|_| whole).map(|t| t[1..n].to_vec());
    let d = f.d.clone();
    judge_fit(cx, &f, &a, &b, &x[1..n], &|i| norm(&d, i), tr.as_deref())
}

// ---------------------------------------------------------------- C19

fn c19(cx: &mut Ctx) -> R {
    let dim = cx.rng.range(1, 3);
    let p = match cx.rng.below(60) {
        0 => *cx.rng.pick(&[300, 1 << 45, usize::MAX / 2, usize::MAX - 2, usize::MAX]),
        _ => cx.rng.below(7),
    };
    match cx.rng.below(10) {
        0 | 1 => {
            let m = cx.rng.below(10);
            let d: Vec<Vec<f64>> = (0..=m).map(|_| (0..dim).map(|_| cx.rng.uni(-1.0, 1.0)).collect()).collect();
            cx.describe(|| format!("interpolation degree {p}, {} points", m + 1));
            cx.hashf(&d.concat());
            cx.hash(p as u64);
            cx.mark_nontrivial();
            let dp = DataPoints::new(mat(&d));
            let r = call("generate(Interpolation)", || generate(Generation::Interpolation { degree: p, points: &dp }))?;
            let bad = shape_errors(p, m);
            outcome(cx, "interpolation", r, p, m, dim, &bad)
        }
        2 | 3 | 4 | 5 => {
            let n = match cx.rng.below(25) {
                0 => cx.rng.range(20, 64),
                1 => *cx.rng.pick(&[1000, 1 << 45, usize::MAX / 2, usize::MAX - 3, usize::MAX]),
                _ => cx.rng.below(10),
            };
            let m = match cx.rng.below(4) {
                _ if n > 64 => cx.rng.below(12),
                0 => cx.rng.below(12),
                1 => n,
                _ => n + cx.rng.below(5),
            };
            let fixed = cx.rng.chance(1, 2);
            let pen = penalty(cx, n);
            let d: Vec<Vec<f64>> = (0..=m).map(|_| (0..dim).map(|_| cx.rng.uni(-1.0, 1.0)).collect()).collect();
            cx.describe(|| format!("fit fixed={fixed} degree {p}, {n} segments, {} points, penalty {pen:?}", m + 1));
            cx.hashf(&d.concat());
            cx.hash(p.wrapping_mul(100).wrapping_add(n) as u64);
            cx.mark_nontrivial();
            let mut bad = shape_errors(p, n);
            bad.extend(fit_errors(n, m, fixed, &pen).into_iter().map(|err| CurveError::FitError { err }));
            let dp = DataPoints::new(mat(&d));
            let method = if fixed { fit::Method::FixedEnds } else { fit::Method::LooseEnds };
            let pn = pen.map(|(lambda, kappa)| Penalization { lambda, kappa });
            let r = call("generate(LeastSquaresFit)", || {
                generate(Generation::LeastSquaresFit { degree: p, points: &dp, intended_segments: n, method, penalization: pn })
            })?;
            outcome(cx, "fit", r, p, n, dim, &bad)
        }
        6 | 7 | 8 => direct_fit(cx, dim),
        _ => manual(cx, p, dim),
    }
}

fn penalty(cx: &mut Ctx, n: usize) -> Option<(f64, usize)> {
    if cx.rng.chance(1, 3) {
        return None;
    }
    let kappa = match cx.rng.below(4) {
        0 => n.saturating_sub(cx.rng.below(4)).max(1),
        1 if cx.rng.chance(1, 6) => *cx.rng.pick(&[200, 1 << 20, usize::MAX / 2, usize::MAX - 1, usize::MAX]),
        1 => n.saturating_add(cx.rng.below(3) + 1),
        _ => cx.rng.range(1, 6),
    };
    let l = *cx.rng.pick(&[0.0, -0.0, 1.0, 1e-3, 1e4, -1.0, -1e-300, -1e5, f64::MIN_POSITIVE, 5e-324, f64::NEG_INFINITY]);
    Some((l, kappa))
}

fn shape_errors(p: usize, n: usize) -> Vec<CurveError> {
    let mut v = vec![];
    if p == 0 {
        v.push(CurveError::DegreeTooLow { p: 0, limit: 0 });
    }
    if p > n {
        v.push(CurveError::DegreeAndSegmentsMismatch { p, n });
    }
    v
}
fn fit_errors(n: usize, m: usize, fixed: bool, pen: &Option<(f64, usize)>) -> Vec<FitError> {
    let mut v = vec![];
    if n > m {
        v.push(FitError::RequestedPolynomialSegmentAndDataSegementMismatch { n, m });
    }
    if let Some((l, kappa)) = *pen {
        let lim = kappa.saturating_add(if fixed { 2 } else { 1 });
        if n < lim {
            v.push(FitError::RequestedPolynomialSegmentAndPenalizationKappaMismatch { n, kappa });
        }
        if l < 0.0 {
            v.push(FitError::NegativeLambda { lambda: l });
        }
    }
    v
}

fn outcome(cx: &mut Ctx, what: &str, r: Result<Curve, CurveError>, p: usize, n: usize, dim: usize, bad: &[CurveError]) -> R {
    match r {
        Ok(c) => {
            cx.check(bad.is_empty(), || format!("{what} succeeded although {bad:?}"))?;
            let (a, b, e) = (c.degree(), c.segments(), c.dimension());
            cx.check(a == p && b == n && e == dim, || format!("{what}: degree {a}, {b} segments, dimension {e}; requested {p}, {n}, {dim}"))?;
            let kl = c.knots.vector().len();
            cx.check(kl == n + p + 2, || format!("{what}: {kl} knots"))?;
            for u in [0.0, 0.3, 1.0] {
                for k in 0..=p {
                    let v = evaluate(&c, u, k)?;
                    cx.check(v.len() == dim && v.iter().all(|x| x.is_finite()), || format!("{what}: derivative {k} at {u} is {v:?}"))?;
                }
            }
            cx.count("curves returned");
        }
        Err(e) => {
            cx.check(bad.contains(&e), || format!("{what} returned {e:?}, applicable: {bad:?}"))?;
            names(cx, &e)?;
            cx.count(&format!("refused: {}", format!("{e:?}").split([' ', '{']).next().unwrap_or("")));
            if let CurveError::FitError { err } = &e {
                cx.count(&format!("refused: {}", format!("{err:?}").split([' ', '{']).next().unwrap_or("")));
            }
        }
    }
    Ok(())
}

fn direct_fit(cx: &mut Ctx, dim: usize) -> R {
    let p = cx.rng.range(1, 5);
    // degree too high for the number of segments now and then
    let n = if cx.rng.chance(1, 8) && p > 1 { cx.rng.range(p - 1, p) } else { p + cx.rng.below(8) };
    let m = match cx.rng.below(4) {
        0 => cx.rng.range(1, 12),
        1 => n,
        _ => n + cx.rng.below(5),
    };
    let fixed = cx.rng.chance(1, 2);
    let pen = penalty(cx, n);
    let d: Vec<Vec<f64>> = (0..=m).map(|_| (0..dim).map(|_| cx.rng.uni(-1.0, 1.0)).collect()).collect();
    let mp = if cx.rng.chance(1, 6) { [m.saturating_sub(1).max(1), m + 1, m + 3][cx.rng.below(3)] } else { m };
    let mut u: Vec<f64> = if n >= p { uniform_knots(p, n) } else { (0..n + p + 2).map(|i| i as f64 / (n + p + 1) as f64).collect() };
    let mut uni = n >= p;
    if n > p && cx.rng.chance(1, 3) {
        let i = p + 1 + cx.rng.below(n - p);
        u[i] = 0.5 * (u[i] + u[i - 1]);
        uni = false;
    } else if n > p && cx.rng.chance(1, 10) {
        // by one unit in the last place
        let i = p + 1 + cx.rng.below(n - p);
        u[i] = gen::next_up(u[i]);
        uni = false;
    }
    let par = equal_params(mp);
    cx.describe(|| format!("direct fit fixed={fixed} p={p} n={n} m={m} mp={mp} penalty {pen:?} knots {u:?}"));
    cx.hashf(&d.concat());
    cx.hashf(&u);
    cx.hash(mp as u64);
    cx.mark_nontrivial();
    let mut bad = fit_errors(n, m, fixed, &pen);
    if m != mp {
        bad.push(FitError::DataSegmentsAndParameterSegmentsMismatch { m, mp });
    }
    if n < p {
        bad.push(FitError::RequestedPolynomialSegmentAndSplineDegreeMismatch { n, p });
    }
    if pen.map_or(false, |x| x.0 > 0.0) && !uni {
        bad.push(FitError::NonUniformKnots);
    }
    let k = call("Knots::new", || Knots::new(p, vecd(&u)))?;
    let pr = Parameters::new(vecd(&par), mp);
    let dp = DataPoints::new(mat(&d));
    let pn = pen.map(|(lambda, kappa)| Penalization { lambda, kappa });
    let r = call("fit", || if fixed { fit::fixed::fit(&k, &dp, &pr, pn) } else { fit::loose::fit(&k, &dp, &pr, pn) })?;
    match r {
        Ok(x) => {
            cx.check(bad.is_empty(), || format!("direct fit succeeded although {bad:?}"))?;
            let ok = x.nrows() == dim && x.ncols() == n + 1 && x.iter().all(|v| v.is_finite());
            cx.check(ok, || format!("direct fit returned {x:?}"))?;
            cx.count("control points returned");
        }
        Err(e) => {
            cx.check(bad.contains(&e), || format!("direct fit returned {e:?}, applicable: {bad:?}"))?;
            names(cx, &e)?;
            cx.count(&format!("refused: {}", format!("{e:?}").split([' ', '{']).next().unwrap_or("")));
        }
    }
    Ok(())
}

fn manual(cx: &mut Ctx, p: usize, dim: usize) -> R {
    let n = cx.rng.below(9);
    let pts: Vec<Vec<f64>> = (0..=n).map(|_| (0..dim).map(|_| cx.rng.uni(-1.0, 1.0)).collect()).collect();
    let pm = cx.rng.below(3);
    let km = cx.rng.below(4);
    cx.describe(|| format!("manual degree {p}, {} points, parameter method {pm}, knot method {km}", n + 1));
    cx.hashf(&pts.concat());
    cx.hash(p.wrapping_mul(16).wrapping_add(pm * 4 + km) as u64);
    cx.mark_nontrivial();
    let bad = shape_errors(p, n);
    if n == 0 && km > 0 {
        // chord length of a single point is not defined
        return Ok(());
    }
    let knots = match km {
        0 => knots::Generation::Uniform,
        _ => knots::Generation::Method {
            parameter_method: match pm {
                0 => parameters::Method::EquallySpaced,
                1 => parameters::Method::ChordLength,
                _ => parameters::Method::Centripetal,
            },
            knot_method: match km {
                1 => knots::Method::Uniform,
                2 => knots::Method::DeBoor,
                _ => knots::Method::Averaging,
            },
        },
    };
    let r = call("generate(Manual)", || generate(Generation::Manual { degree: p, points: ControlPoints::new(mat(&pts)), knots }))?;
    outcome(cx, "manual", r, p, n, dim, &bad)
}
