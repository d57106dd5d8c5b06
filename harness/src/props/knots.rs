//! C20-C23: parametrisation, knot generation, knot queries, predicates and rescaling.
use super::*;
use crate::gen::{self, clamp, interior, mat, next_down, next_up, vecd, COpt, KOpt, TAME};
use bsplines::curve::knots::{
    self, is_clamped, is_normed, is_sorted, is_uniform, DomainKnotComparatorType as Cmp, Knots,
};
use bsplines::curve::parameters::{self, Parameters};
use bsplines::curve::points::DataPoints;
use bsplines::curve::CurveError;
use bsplines::manipulation::split::split_and_normalize;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            case: c20,
            quick: 600000,
            thorough: 20000000,
            min_nontrivial: 20000,
            rule: "a case is one data set (with duplicates, clusters, trailing repeats, far offsets, extreme scales) under all three methods, its translate, rotation, scaling and reversal; \
                   non-trivial = at least 3 points, distinct by the bits of the data",
            assumptions: &[A_MODEL, A_TOL, "the data points are finite, of ordinary extent (the centripetal method debug-asserts a total of at least 1.5e-8; squares do not overflow) and not all the same point"],
        },
        Prop {
            id: "C21",
            case: c21,
            quick: 1800000,
            thorough: 30000000,
            min_nontrivial: 20000,
            rule: "a case is a degree, a segment count and a non-decreasing parameter set (equal, random, clustered, repeated, generated from data) under every knot method; \
                   non-trivial = at least one interior knot, distinct by degree, segments and the bits of the parameters",
            assumptions: &[A_MODEL, A_TOL, "parameters are non-decreasing from 0 to 1 and at least n+1 in number"],
        },
        Prop {
            id: "C22",
            case: c22,
            quick: 400000,
            thorough: 20000000,
            min_nontrivial: 20000,
            rule: "a case is one sorted knot vector (clamped or not, repeated knots, any domain) queried with all four comparators, every derivative order and parameters at, next to, \
                   between and beyond the knots; distinct by the bits of the knots",
            assumptions: &["knot vectors are sorted and have at least 2p+2 knots with a non-empty domain"],
        },
        Prop {
            id: "C23",
            case: c23,
            quick: 400000,
            thorough: 30000000,
            min_nontrivial: 20000,
            rule: "a case is one knot vector (valid, perturbed by one rounding step, unsorted, shifted, scaled) under all predicates, normalisation and rescaling; distinct by the bits of the knots",
            assumptions: &[A_TOL, "knots are finite, not all equal, and their extent neither under- nor overflows"],
        },
    ]
}

// ---------------------------------------------------------------- C20

/// Data with a history of nasty features; never all one point.
pub fn data(cx: &mut Ctx, dim: usize, cnt: usize) -> (Vec<Vec<f64>>, &'static str) {
    for _ in 0..50 {
        let (mut pts, mut class) = gen::points(cx, dim, cnt, true);
        match cx.rng.below(9) {
            0 => {
                // trailing repeats
                let k = cx.rng.range(1, cnt - 1);
                let q = pts[k].clone();
                for p in pts.iter_mut().skip(k) {
                    *p = q.clone();
                }
                class = "trailing repeats";
            }
            1 => {
                let k = cx.rng.range(0, cnt - 2);
                let q = pts[k].clone();
                for p in pts.iter_mut().take(k) {
                    *p = q.clone();
                }
                class = "leading repeats";
            }
            2 => {
                let s = 10f64.powi(cx.rng.range(0, 90) as i32 - 12);
                for x in pts.iter_mut().flatten() {
                    *x *= s;
                }
                class = "scaled data";
            }
            3 => {
                // very uneven distances
                for i in 1..cnt {
                    let f = 10f64.powi(-(cx.rng.below(13) as i32));
                    for d in 0..dim {
                        pts[i][d] = pts[i - 1][d] + f * cx.rng.uni(-1.0, 1.0);
                    }
                }
                class = "uneven distances";
            }
            _ => {}
        }
        let size = pts.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
        let ext = (1..cnt)
            .map(|i| (0..dim).map(|d| (pts[i][d] - pts[i - 1][d]).abs()).fold(0.0, f64::max))
            .fold(0.0, f64::max);
        if ext > 1e-14 && size < 1e100 {
            return (pts, class);
        }
    }
    let pts = (0..cnt).map(|i| (0..dim).map(|d| (i * (d + 1)) as f64).collect()).collect();
    (pts, "line")
}

fn dist(a: &[f64], b: &[f64]) -> Dd {
    let mut s = Dd::ZERO;
    for (x, y) in a.iter().zip(b) {
        let d = Dd::new(*x) - Dd::new(*y);
        s += d * d;
    }
    s.sqrt()
}

fn lengths(pts: &[Vec<f64>], root: bool) -> Vec<Dd> {
    (1..pts.len())
        .map(|i| {
            let d = dist(&pts[i], &pts[i - 1]);
            if root {
                d.sqrt()
            } else {
                d
            }
        })
        .collect()
}

fn run_method(cx: &mut Ctx, pts: &[Vec<f64>], which: usize) -> R<Parameters> {
    let d = DataPoints::new(mat(pts));
    let m = pts.len() - 1;
    let direct = cx.rng.chance(1, 2);
    call("parametrisation", || match (which, direct) {
        (0, true) => parameters::methods::equally_spaced(m),
        (0, false) => parameters::generate(&d, parameters::Method::EquallySpaced),
        (1, true) => parameters::methods::chord_length(&d),
        (1, false) => parameters::generate(&d, parameters::Method::ChordLength),
        (_, true) => parameters::methods::centripetal(&d),
        (_, false) => parameters::generate(&d, parameters::Method::Centripetal),
    })
}

const METHODS: [&str; 3] = ["equally spaced", "chord length", "centripetal"];

/// `extra[i]`: how far the length of segment i may be off because the data were rounded.
fn check_params(cx: &mut Ctx, what: &str, got: &Parameters, len: &[Dd], extra: &[f64], dim: usize) -> R {
    let m = len.len();
    let v = got.vector();
    let (l, s) = (v.len(), got.segments());
    cx.check(l == m + 1 && s == m, || format!("{what}: {l} parameters, segments() = {s} for {} points", m + 1))?;
    let (a, b) = (v[0], v[m]);
    cx.check(a == 0.0 && b == 1.0, || format!("{what}: parameters run from {a:e} to {b:e}"))?;
    for g in 1..=m {
        let (a, b) = (v[g - 1], v[g]);
        cx.check(a <= b, || format!("{what}: parameters decrease at {g}: {a:e} > {b:e} (difference {:e})", a - b))?;
    }
    let mut sum = Dd::ZERO;
    for x in len {
        sum += *x;
    }
    let xt: f64 = extra.iter().sum::<f64>() / sum.f();
    let t = 8.0 * (3 * m + dim + 10) as f64 * EPS;
    let mut acc = Dd::ZERO;
    for g in 1..m {
        acc += len[g - 1];
        cx.close(&format!("{what}: parameter {g}"), v[g], acc / sum, t + 4.0 * xt)?;
        let inc = v[g] - v[g - 1];
        cx.close(&format!("{what}: increment {g}"), inc, len[g - 1] / sum, t + 4.0 * xt)?;
    }
    Ok(())
}

fn c20(cx: &mut Ctx) -> R {
    let dim = gen::dims(cx, 4);
    let cnt = match cx.rng.below(6) {
        0 => 2,
        1 => 3,
        2 if cx.rng.chance(1, 30) => cx.rng.range(150, 600),
        2 => cx.rng.range(20, 120),
        _ => cx.rng.range(3, 20),
    };
    let (pts, class) = data(cx, dim, cnt);
    cx.count(class);
    for p in &pts {
        cx.hashf(p);
    }
    cx.hash(dim as u64);
    if cnt >= 3 {
        cx.mark_nontrivial();
    }
    {
        let p = pts.clone();
        cx.describe(|| format!("data {p:?}"));
    }
    let m = cnt - 1;
    let zero = vec![0.0; m];
    // equally spaced
    let e = run_method(cx, &pts, 0)?;
    let one = vec![Dd::ONE; m];
    check_params(cx, METHODS[0], &e, &one, &zero, 0)?;
    for which in 1..3 {
        let name = METHODS[which];
        let raw = lengths(&pts, false);
        let len = lengths(&pts, which == 2);
        let got = run_method(cx, &pts, which)?;
        check_params(cx, name, &got, &len, &zero, dim)?;
        if len.iter().any(|x| x.f() == 0.0) {
            cx.count("data with repeated neighbours");
        }
        // reversed data mirror the parameters
        let rev: Vec<Vec<f64>> = pts.iter().rev().cloned().collect();
        let got = run_method(cx, &rev, which)?;
        let rlen: Vec<Dd> = len.iter().rev().cloned().collect();
        check_params(cx, &format!("{name} of the reversed data"), &got, &rlen, &zero, dim)?;
        // uniform scaling, rotation in a coordinate plane, translation
        let s = 2f64.powi(cx.rng.range(0, 40) as i32 - 20) * cx.rng.uni(0.5, 1.5);
        let (sn, cs) = cx.rng.uni(0.0, 6.3).sin_cos();
        let off: Vec<f64> = (0..dim).map(|_| cx.rng.uni(-10.0, 10.0) * raw.iter().fold(0.0f64, |a, x| a.max(x.f()))).collect();
        let mut tp = pts.clone();
        for q in tp.iter_mut() {
            for x in q.iter_mut() {
                *x *= s;
            }
            if dim >= 2 {
                let (x, y) = (q[0], q[1]);
                q[0] = cs * x - sn * y;
                q[1] = sn * x + cs * y;
            }
            for d in 0..dim {
                q[d] += off[d];
            }
        }
        let size = pts.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs())) * s
            + off.iter().fold(0.0f64, |a, x| a.max(x.abs()));
        let delta = 16.0 * dim as f64 * EPS * size / s;
        let extra: Vec<f64> = raw
            .iter()
            .map(|l| {
                if which == 1 {
                    delta
                } else if l.f() > delta {
                    2.0 * delta / l.f().sqrt()
                } else {
                    2.0 * delta.sqrt()
                }
            })
            .collect();
        let tl = lengths(&tp, false);
        if tl.iter().any(|x| x.f() > 1e-14) {
            let got = run_method(cx, &tp, which)?;
            check_params(cx, &format!("{name} of moved data"), &got, &len, &extra, dim)?;
            cx.count("moved data compared");
        }
        // the very same data in much smaller or larger units; for the centripetal method the library asks
        // for a minimal extent
        let ext = raw.iter().fold(0.0f64, |a, x| a.max(x.f()));
        let size = pts.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
        let e = if which == 1 && cx.rng.chance(1, 2) {
            -(cx.rng.range(0, 120) as f64)
        } else {
            cx.rng.range(0, 130) as f64
        };
        let k = ((e - ext.log10()) * 10f64.log2()).round() as i32;
        if size < 1e15 * ext && size * 2f64.powi(k) < 1e145 && k.abs() < 900 {
            let f = 2f64.powi(k);
            let tp: Vec<Vec<f64>> = pts.iter().map(|q| q.iter().map(|x| x * f).collect()).collect();
            let got = run_method(cx, &tp, which)?;
            check_params(cx, &format!("{name} of the data in other units"), &got, &len, &zero, dim)?;
            cx.count("data in units of another size compared");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

/// Non-decreasing parameters from 0 to 1.
pub fn param_set(cx: &mut Ctx, cnt: usize) -> (Vec<f64>, &'static str) {
    let m = cnt - 1;
    let (mut v, class): (Vec<f64>, _) = match cx.rng.below(6) {
        0 => ((0..cnt).map(|g| g as f64 / m as f64).collect(), "equally spaced"),
        1 => ((0..cnt).map(|_| cx.rng.f()).collect(), "random"),
        2 => ((0..cnt).map(|_| cx.rng.f().powi(4)).collect(), "clustered"),
        3 => {
            let q = cx.rng.range(2, 12);
            ((0..cnt).map(|_| cx.rng.range(0, q) as f64 / q as f64).collect(), "repeated")
        }
        4 => ((0..cnt).map(|g| (g as f64 + cx.rng.uni(-0.4, 0.4)) / m as f64).collect(), "jittered"),
        _ => {
            let dim = gen::dims(cx, 3);
            let (pts, _) = data(cx, dim, cnt);
            let d = DataPoints::new(mat(&pts));
            let which = cx.rng.below(2);
            let p = call("parametrisation", || {
                if which == 0 {
                    parameters::methods::chord_length(&d)
                } else {
                    parameters::methods::centripetal(&d)
                }
            });
            match p {
                Ok(p) if p.vector().len() == cnt => (p.vector().iter().cloned().collect(), "from data"),
                _ => ((0..cnt).map(|g| g as f64 / m as f64).collect(), "equally spaced"),
            }
        }
    };
    for x in v.iter_mut() {
        *x = x.clamp(0.0, 1.0);
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v[0] = 0.0;
    v[m] = 1.0;
    (v, class)
}

fn check_clamped(cx: &mut Ctx, what: &str, k: &Knots, p: usize, n: usize) -> R<Vec<f64>> {
    let u: Vec<f64> = k.vector().iter().cloned().collect();
    let l = u.len();
    cx.check(l == n + p + 2, || format!("{what}: {l} knots, expected {}", n + p + 2))?;
    let (d, s) = (k.degree(), k.segments());
    cx.check(d == p && s == n, || format!("{what}: degree {d} segments {s}, expected {p} {n}"))?;
    for i in 0..=p {
        let (a, b) = (u[i], u[n + 1 + i]);
        cx.check(a == 0.0 && b == 1.0, || format!("{what}: end knots {a:e} and {b:e} at {i}"))?;
    }
    for i in 1..l {
        let (a, b) = (u[i - 1], u[i]);
        cx.check(a <= b, || format!("{what}: knots decrease at {i}: {a:e} > {b:e} (difference {:e})", a - b))?;
    }
    let ok = call("predicates", || is_sorted(k) && is_clamped(k) && is_normed(k))?;
    cx.check(ok, || format!("{what}: not sorted, clamped and normed by the library's own predicates"))?;
    for d in 1..=p {
        let v = call("vector_derivative", || k.vector_derivative(d).clone())?;
        let same = v.len() + 2 * d == l && v.iter().zip(&u[d..]).all(|(a, b)| a == b);
        cx.check(same, || format!("{what}: derivative {d} knots {v:?} of {u:?}"))?;
    }
    Ok(u)
}

fn c21(cx: &mut Ctx) -> R {
    let top = if cx.rng.chance(1, 20) { 24 } else { 8 };
    let p = cx.rng.range(1, top);
    let n = p + match cx.rng.below(6) {
        0 => 0,
        1 => 1,
        2 => cx.rng.range(20, 200),
        _ => cx.rng.below(15),
    };
    let m = n + match cx.rng.below(5) {
        0 => 0,
        1 => 1,
        2 => cx.rng.range(0, 3 * n),
        _ => cx.rng.below(20),
    };
    let (v, class) = param_set(cx, m + 1);
    cx.count(class);
    cx.hash(p as u64);
    cx.hash(n as u64);
    cx.hashf(&v);
    if n > p {
        cx.mark_nontrivial();
    }
    {
        let v = v.clone();
        cx.describe(|| format!("p={p} n={n} parameters={v:?}"));
    }
    let params = Parameters::new(vecd(&v), m);
    let inner = n - p;
    // uniform
    let direct = cx.rng.chance(1, 2);
    let k = call("uniform", || {
        if direct {
            knots::methods::uniform(p, n)
        } else {
            knots::generate(p, n, &params, knots::Method::Uniform)
        }
    })?
    .map_err(|e| format!("uniform knots refused: {e:?}"))?;
    let u = check_clamped(cx, "uniform", &k, p, n)?;
    for j in 1..=inner {
        cx.close(&format!("uniform: interior knot {j}"), u[p + j], Dd::new(j as f64) / Dd::new((inner + 1) as f64), 16.0 * EPS)?;
    }
    // averaging
    let k = call("averaging", || {
        if direct {
            knots::methods::averaging(p, n, &params)
        } else {
            knots::generate(p, n, &params, knots::Method::Averaging)
        }
    })?
    .map_err(|e| format!("averaging refused: {e:?}"))?;
    let u = check_clamped(cx, "averaging", &k, p, n)?;
    for j in 1..=inner {
        let mut s = Dd::ZERO;
        for i in j..j + p {
            s += Dd::new(v[i]);
        }
        cx.close(&format!("averaging: interior knot {j}"), u[p + j], s / Dd::new(p as f64), 16.0 * (p + 3) as f64 * EPS)?;
    }
    // de Boor
    let k = call("de_boor", || {
        if direct {
            knots::methods::de_boor(p, n, &params)
        } else {
            knots::generate(p, n, &params, knots::Method::DeBoor)
        }
    })?
    .map_err(|e| format!("de Boor knots refused: {e:?}"))?;
    let u = check_clamped(cx, "de Boor", &k, p, n)?;
    for j in 1..=inner {
        // exactly: j*d = j*(m+1)/(n-p+1)
        let num = j * (m + 1);
        let i = num / (inner + 1);
        let al = Dd::new((num % (inner + 1)) as f64) / Dd::new((inner + 1) as f64);
        let lo = Dd::new(v[i - 1]);
        let hi = Dd::new(v[i]);
        let want = (Dd::ONE - al) * lo + al * hi;
        // the position j*d carries rounding of a few ulps of m
        let step = (v[i] - v[i - 1]).max(if i >= 2 { v[i - 1] - v[i - 2] } else { 0.0 }).max(if i < m { v[i + 1] - v[i] } else { 0.0 });
        let t = 32.0 * EPS + 32.0 * EPS * (m + 1) as f64 * step;
        cx.close(&format!("de Boor: interior knot {j}"), u[p + j], want, t)?;
    }
    // every knot span contains a parameter (up to the rounding of the knots)
    for s in p..=n {
        let (a, b) = (u[s], u[s + 1]);
        let t = 64.0 * EPS * (m + 1) as f64;
        let has = v.iter().any(|x| *x >= a - t && *x <= b + t);
        cx.check(has, || format!("de Boor: no parameter in span [{a:e},{b:e}]"))?;
    }
    cx.add("interior knots compared", 3 * inner as u64);
    // the invalid neighbours
    if cx.rng.chance(1, 10) {
        for which in 0..3 {
            let f = |p: usize, n: usize| match which {
                0 => knots::methods::uniform(p, n),
                1 => knots::methods::averaging(p, n, &params),
                _ => knots::methods::de_boor(p, n, &params),
            };
            let r = call("degree 0", || f(0, n))?;
            cx.check(matches!(r, Err(CurveError::DegreeTooLow { p: 0, limit: 0 })), || format!("degree 0: {:?}", r.err()))?;
            let bad = cx.rng.below(p);
            let r = call("n < p", || f(p, bad))?;
            cx.check(matches!(r, Err(CurveError::DegreeAndSegmentsMismatch { p: a, n: b }) if a == p && b == bad), || {
                format!("degree {p} with {bad} segments: {:?}", r.err())
            })?;
        }
        cx.count("refusals checked");
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

/// A sorted knot vector, not necessarily clamped; domain non-empty.
fn any_knots(cx: &mut Ctx, p: usize) -> (Vec<f64>, &'static str) {
    loop {
        // long vectors now and then: lookups may take another path there
        let cnt = if cx.rng.chance(1, 25) { cx.rng.range(20, 300) } else { cx.rng.below(14) };
        let max_mult = p + 2;
        let (inner, _) = interior(cx, cnt, KOpt { max_mult, ulps: true, min_gap: 0.0 });
        let (u, class) = match cx.rng.below(5) {
            0 | 1 | 2 => (clamp(p, &inner), "clamped"),
            3 => {
                // unclamped: free knots everywhere
                let cnt = 2 * p + 2 + cx.rng.below(12);
                let q = cx.rng.range(2, 30);
                let mut v: Vec<f64> = (0..cnt)
                    .map(|_| if cx.rng.chance(1, 2) { cx.rng.uni(-2.0, 3.0) } else { cx.rng.range(0, q) as f64 / q as f64 })
                    .collect();
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                (v, "unclamped")
            }
            _ => {
                let (a, l) = (cx.rng.uni(-5.0, 5.0), cx.rng.uni(0.1, 10.0));
                (clamp(p, &inner).iter().map(|x| a + l * x).collect(), "clamped, other domain")
            }
        };
        let last = u.len() - 1 - p;
        if last > p && u[p] < u[last] {
            let mut u = u;
            if cx.rng.chance(1, 20) {
                gen::negative_zeros(cx, &mut u);
            }
            return (u, class);
        }
    }
}

fn c22(cx: &mut Ctx) -> R {
    let p = if cx.rng.chance(1, 60) { cx.rng.range(8, 14) } else { cx.rng.range(0, 7) };
    let (u, class) = any_knots(cx, p);
    cx.count(class);
    cx.hash(p as u64);
    cx.hashf(&u);
    cx.mark_nontrivial();
    {
        let v = u.clone();
        cx.describe(|| format!("p={p} knots={v:?}"));
    }
    let len = u.len();
    let n = len - p - 2;
    let mut k = call("Knots::new", || Knots::new(p, vecd(&u)))?;
    let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits());
    // shape queries
    let got: Vec<f64> = k.vector().iter().cloned().collect();
    cx.check(same(&got, &u), || format!("vector() = {got:?}"))?;
    let (d, s, ic, dc, md) = (k.degree(), k.segments(), call("internal_count", || k.internal_count())?, call("domain_count", || k.domain_count())?, k.max_derivative());
    cx.check(d == p && s == n && ic == n - p && dc == n - p + 2 && md == p, || {
        format!("degree {d} segments {s} internal_count {ic} domain_count {dc} max_derivative {md} for p={p}, {len} knots")
    })?;
    let inn: Vec<f64> = call("internal", || k.internal().iter().cloned().collect())?;
    cx.check(same(&inn, &u[p + 1..n + 1]), || format!("internal() = {inn:?}"))?;
    let dom: Vec<f64> = call("domain", || k.domain().iter().cloned().collect())?;
    cx.check(same(&dom, &u[p..n + 2]), || format!("domain() = {dom:?}"))?;
    for i in 0..n - p {
        let x = call("internal_knot", || k.internal_knot(i))?;
        cx.check(x == u[p + 1 + i], || format!("internal_knot({i}) = {x:e}"))?;
    }
    for i in 0..n - p + 2 {
        let x = call("domain_knot", || k.domain_knot(i))?;
        cx.check(x == u[p + i], || format!("domain_knot({i}) = {x:e}"))?;
    }
    for d in 0..=p {
        let v: Vec<f64> = call("vector_derivative", || k.vector_derivative(d).iter().cloned().collect())?;
        cx.check(same(&v, &u[d..len - d]), || format!("vector_derivative({d}) = {v:?}"))?;
        let v: Vec<f64> = call("domain_derivative", || k.domain_derivative(d).iter().cloned().collect())?;
        cx.check(same(&v, &u[p..n + 2]), || format!("domain_derivative({d}) = {v:?}"))?;
        let l = k.len(d);
        cx.check(l == len - 2 * d, || format!("len({d}) = {l}"))?;
        let s = call("segments_derivative", || k.segments_derivative(d))?;
        cx.check(s == n, || format!("segments_derivative({d}) = {s}, expected {n}"))?;
    }
    // parameters
    let mut us = vec![u[0] - 1.0, u[len - 1] + 1.0, u[p], u[n + 1], next_down(u[p]), next_up(u[n + 1]), 0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, 1e-300];
    for _ in 0..10 {
        let i = cx.rng.range(0, len - 1);
        let x = match cx.rng.below(5) {
            0 | 1 => u[i],
            2 => next_up(u[i]),
            3 => next_down(u[i]),
            _ => u[p] + (u[n + 1] - u[p]) * cx.rng.f(),
        };
        us.push(x);
    }
    for &x in &us {
        let want = u[p..n + 2].iter().filter(|y| **y == x).count();
        let m = call("multiplicity", || k.multiplicity(x))?;
        cx.check(m == want, || format!("multiplicity({x:e}) = {m}, expected {want}"))?;
        for d in 0..=p {
            let v = &u[d..len - d];
            let first = p - d;
            let last = v.len() - 1 - first;
            for c in 0..4 {
                let (name, cmp) = match c {
                    0 => ("Left", Cmp::Left),
                    1 => ("LeftOrEqual", Cmp::LeftOrEqual),
                    2 => ("RightOrEqual", Cmp::RightOrEqual),
                    _ => ("Right", Cmp::Right),
                };
                let i = call(&format!("find_idx({x:e},{d},{name})"), || k.find_idx(x, d, cmp))?;
                let (lo, hi) = match c {
                    0 | 1 => (first, last - 1),
                    2 => (first, last),
                    _ => (first + 1, last),
                };
                cx.check(i >= lo && i <= hi, || format!("find_idx({x:e},{d},{name}) = {i} outside {lo}..={hi} of {v:?}"))?;
                let want = match c {
                    0 => v[lo..=hi].iter().cloned().filter(|y| *y < x).last().unwrap_or(v[lo]),
                    1 => v[lo..=hi].iter().cloned().filter(|y| *y <= x).last().unwrap_or(v[lo]),
                    2 => v[lo..=hi].iter().cloned().find(|y| *y >= x).unwrap_or(v[hi]),
                    _ => v[lo..=hi].iter().cloned().find(|y| *y > x).unwrap_or(v[hi]),
                };
                let got = v[i];
                cx.check(got == want, || {
                    format!("find_idx({x:e},{d},{name}) = {i} (knot {got:e}), expected the knot {want:e} of {v:?}")
                })?;
                if v[lo..=hi].iter().filter(|y| **y == want).count() > 1 {
                    cx.count("lookups landing on a repeated knot");
                }
            }
            cx.add("lookups", 4);
        }
    }
    // writing through the mutable vectors reaches exactly the named vector
    let d = cx.rng.range(0, p);
    let i = cx.rng.below(len - 2 * d);
    k.vector_derivative_mut(d)[i] = 77.0;
    for e in 0..=p {
        let v = k.vector_derivative(e);
        for j in 0..v.len() {
            let want = if e == d && j == i { 77.0 } else { u[e + j] };
            let got = v[j];
            cx.check(got == want, || format!("write to knot {i} of derivative {d} changed knot {j} of derivative {e} to {got:e}"))?;
        }
    }
    k.vector_mut()[0] = -9.0;
    let x = k.vector()[0];
    cx.check(x == -9.0, || format!("vector_mut() write read back as {x:e}"))?;
    // re-deriving follows the zeroth vector
    let base: Vec<f64> = k.vector().iter().cloned().collect();
    call("derive", || k.derive())?;
    for e in 0..=p {
        let v: Vec<f64> = k.vector_derivative(e).iter().cloned().collect();
        cx.check(same(&v, &base[e..len - e]), || format!("after derive(): vector {e} = {v:?}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

fn c23(cx: &mut Ctx) -> R {
    let p = if cx.rng.chance(1, 60) { cx.rng.range(8, 14) } else { cx.rng.range(1, 7) };
    let (mut u, mut class) = any_knots(cx, p);
    match cx.rng.below(8) {
        0 => {
            // one rounding step off somewhere
            let i = cx.rng.below(u.len());
            u[i] = if cx.rng.chance(1, 2) { next_up(u[i]) } else { next_down(u[i]) };
            class = "one ulp off";
        }
        1 => {
            let i = cx.rng.below(u.len());
            u[i] += cx.rng.uni(-0.5, 0.5);
            class = "one knot moved";
        }
        2 => {
            let (i, j) = (cx.rng.below(u.len()), cx.rng.below(u.len()));
            u.swap(i, j);
            class = "two knots swapped";
        }
        3 => {
            let s = 10f64.powi(cx.rng.range(0, 120) as i32 - 60);
            let o = if cx.rng.chance(1, 2) { 0.0 } else { s * cx.rng.uni(-100.0, 100.0) };
            for x in u.iter_mut() {
                *x = *x * s + o;
            }
            class = "scaled and shifted";
        }
        4 | 5 => {
            let n = u.len() - p - 2;
            u = super::fit::uniform_knots(p, n);
            class = "uniform clamped";
            if cx.rng.chance(1, 2) && n > p {
                let i = cx.rng.range(p + 1, n);
                u[i] += cx.rng.uni(1e-9, 0.01);
                class = "uniform with one knot moved";
            }
        }
        _ => {}
    }
    if cx.rng.chance(1, 12) {
        gen::negative_zeros(cx, &mut u);
    }
    let len = u.len();
    let n = len - p - 2;
    let (mn, mx) = (u.iter().cloned().fold(f64::INFINITY, f64::min), u.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
    if !(mx - mn > 0.0) {
        return Ok(());
    }
    cx.count(class);
    cx.hash(p as u64);
    cx.hashf(&u);
    cx.mark_nontrivial();
    {
        let v = u.clone();
        cx.describe(|| format!("p={p} knots={v:?} ({class})"));
    }
    let k = call("Knots::new", || Knots::new(p, vecd(&u)))?;
    // predicates, by definition
    let sorted = u.windows(2).all(|w| w[0] <= w[1]);
    let clamped = u[..p + 1].iter().all(|x| *x == 0.0) && u[n + 1..].iter().all(|x| *x == 1.0);
    let normed = mn == 0.0 && mx == 1.0;
    let (gs, gc, gn) = (call("is_sorted", || is_sorted(&k))?, call("is_clamped", || is_clamped(&k))?, call("is_normed", || is_normed(&k))?);
    cx.check(gs == sorted, || format!("is_sorted = {gs}"))?;
    cx.check(gc == clamped, || format!("is_clamped = {gc}"))?;
    cx.check(gn == normed, || format!("is_normed = {gn}"))?;
    let dev = if clamped {
        (1..=n - p).map(|i| (u[p + i] - i as f64 / (n - p + 1) as f64).abs()).fold(0.0, f64::max)
    } else {
        f64::INFINITY
    };
    let gu = call("is_uniform", || is_uniform(&k))?.map_err(|e| format!("is_uniform refused: {e:?}"))?;
    // between exactly equal and clearly different the library's spelling of i/(n-p+1) decides
    let want = clamped && u == super::fit::uniform_knots(p, n);
    if want || dev > 16.0 * EPS {
        cx.check(gu == want, || format!("is_uniform = {gu} with deviation {dev:e}"))?;
    }
    for (b, s) in [(sorted, "sorted"), (clamped, "clamped"), (normed, "normed"), (want, "uniform")] {
        cx.count(&format!("{s}: {b}"));
    }
    // normalising
    let size = mn.abs().max(mx.abs());
    let mut a = k.clone();
    call("normalize", || {
        a.normalize();
    })?;
    let v: Vec<f64> = a.vector().iter().cloned().collect();
    let mut raw = vecd(&u);
    call("knots::normalize", || knots::normalize(&mut raw))?;
    let mut src = vecd(&u);
    let copy = call("knots::normalized", || knots::normalized(&mut src))?;
    let unchanged = src.iter().zip(&u).all(|(a, b)| a.to_bits() == b.to_bits());
    cx.check(unchanged, || "normalized() changed its input".into())?;
    let span = Dd::new(mx) - Dd::new(mn);
    for (name, w) in [("Knots::normalize", &v), ("knots::normalize", &raw.iter().cloned().collect()), ("knots::normalized", &copy.iter().cloned().collect())] {
        let l = w.len();
        cx.check(l == len, || format!("{name}: {l} knots from {len}"))?;
        let (wmn, wmx) = (w.iter().cloned().fold(f64::INFINITY, f64::min), w.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
        cx.check(wmn == 0.0 && wmx == 1.0, || format!("{name}: limits {wmn:e}, {wmx:e}"))?;
        for i in 0..len {
            cx.close(&format!("{name}: knot {i}"), w[i], (Dd::new(u[i]) - Dd::new(mn)) / span, 32.0 * EPS)?;
        }
        for i in 0..len {
            for j in [i + 1, i + 2] {
                if j < len {
                    let (a, b) = (u[i].partial_cmp(&u[j]).unwrap(), w[i].partial_cmp(&w[j]).unwrap());
                    let gap = (u[i] - u[j]).abs() / span.f();
                    let ok = a == b || (b.is_eq() && gap < 32.0 * EPS);
                    cx.check(ok, || format!("{name}: order of knots {i} and {j} changed from {a:?} to {b:?}"))?;
                }
            }
        }
    }
    let _ = size;
    for d in 1..=p {
        let w = a.vector_derivative(d);
        let l = w.len();
        cx.check(l + 2 * d == len, || format!("normalize: derivative {d} has {l} knots"))?;
        for i in 0..l {
            cx.close(&format!("normalize: knot {i} of derivative {d}"), w[i], Dd::new(v[i + d]), 32.0 * EPS)?;
        }
    }
    // rescaling
    let (o0, o1) = if cx.rng.chance(1, 2) { (mn, mx) } else { (mn - span.f() * cx.rng.f(), mx + span.f() * cx.rng.f()) };
    let (n0, n1) = match cx.rng.below(6) {
        0 => (0.0, 1.0),
        1 => (0.0, cx.rng.uni(0.1, 20.0)),
        2 => (cx.rng.uni(0.5, 20.0), cx.rng.uni(-20.0, 0.4)),
        3 => (1.0, 0.0),
        4 => (-cx.rng.uni(0.1, 20.0), cx.rng.uni(0.0, 3.0)),
        _ => (cx.rng.uni(-1e3, 1e3), 2e3),
    };
    cx.describe(|| format!("rescale ({o0:e},{o1:e}) -> ({n0:e},{n1:e})"));
    let mut b = k.clone();
    call("rescale", || b.rescale((o0, o1), (n0, n1)))?;
    let w = b.vector();
    let osp = Dd::new(o1) - Dd::new(o0);
    let nsp = Dd::new(n1) - Dd::new(n0);
    let t = 64.0 * EPS * (n0.abs() + n1.abs() + nsp.f().abs());
    if n1 < n0 {
        cx.count("rescaled onto descending limits");
    }
    for i in 0..len {
        let want = Dd::new(n0) + (Dd::new(u[i]) - Dd::new(o0)) / osp * nsp;
        cx.close(&format!("rescale: knot {i}"), w[i], want, t)?;
        if i > 0 {
            let (mut a, b) = (u[i - 1].partial_cmp(&u[i]).unwrap(), w[i - 1].partial_cmp(&w[i]).unwrap());
            if n1 < n0 {
                a = a.reverse();
            }
            let ok = a == b || (b.is_eq() && (u[i] - u[i - 1]).abs() * (nsp / osp).f().abs() < 4.0 * t);
            cx.check(ok, || format!("rescale: order of knots {} and {i} changed from {a:?} to {b:?}", i - 1))?;
        }
    }
    for d in 1..=p {
        let z = b.vector_derivative(d);
        let l = z.len();
        cx.check(l + 2 * d == len, || format!("rescale: derivative {d} has {l} knots"))?;
        for i in 0..l {
            cx.close(&format!("rescale: knot {i} of derivative {d}"), z[i], Dd::new(w[i + d]), t)?;
        }
    }
    // a normalised curve traces the same points
    if cx.rng.chance(1, 8) {
        let g = gen::gen(cx, COpt { pmax: 5, ..TAME });
        let c = g.build(cx)?;
        let rc = g.refc();
        let x = cx.rng.uni(0.2, 0.8);
        let (mut l, mut r) = call("split_and_normalize", || split_and_normalize(&c, x, (false, false)))?.map_err(|e| format!("{e:?}"))?;
        call("normalize", || {
            l.knots.normalize();
            r.knots.normalize();
        })?;
        let ok = call("predicates", || is_clamped(&l.knots) && is_clamped(&r.knots) && is_normed(&l.knots) && is_normed(&r.knots))?;
        cx.check(ok, || "normalised pieces are not clamped and normed".into())?;
        for _ in 0..6 {
            let v = cx.rng.f();
            for (side, piece, y) in [("left", &l, x * v), ("right", &r, x + (1.0 - x) * v)] {
                let got = evaluate(piece, v, 0)?;
                let want = rc.eval(Dd::new(y), 0);
                let slope = rc.eval(Dd::new(y), 1);
                let ms = RefCurve::of(piece).min_span();
                if ms < 1e-6 {
                    continue;
                }
                for d in 0..g.dim() {
                    let t = tol(g.p) * rc.pmax_coord(d) / ms + 1e-14 * slope.mag[d] + TINY;
                    cx.close_as("trace", &format!("normalised {side} piece at {v:e}"), got[d], want.v[d], t)?;
                }
            }
        }
        cx.count("normalised curves traced");
    }
    Ok(())
}
