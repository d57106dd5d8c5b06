//! C29, C30: containers, views, manual construction.
use super::*;
use crate::gen::{self, gen, mat, vecd, COpt, WILD};
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::{self, Knots};
use bsplines::curve::parameters;
use bsplines::curve::points::{ControlPoints, DataPoints};
use bsplines::curve::CurveError;
use bsplines::types::{VecD, VecHelpers};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C29",
            case: c29,
            quick: 1200000,
            thorough: 30000000,
            min_nontrivial: 20000,
            rule: "a case is one point set as data and control points and one vector with all views, every element tagged by its position; reads, writes through views and reversal are \
                   compared with plain indexing; non-trivial = at least 2 points, distinct by sizes, offsets and contents",
            assumptions: &["plain Vec indexing in the monitor is right"],
        },
        Prop {
            id: "C30",
            case: c30,
            quick: 1000000,
            thorough: 20000000,
            min_nontrivial: 10000,
            rule: "a case is one control point set with one of the knot choices (uniform, supplied, 3 parameter methods x 3 knot methods, direct construction), or an invalid size; \
                   distinct by the bits of the points, degree and choice",
            assumptions: &[A_CLAMPED, "the generated knots are compared with the public knot and parameter methods (decided by C20, C21)"],
        },
    ]
}

fn tagged(cx: &mut Ctx, rows: usize, cols: usize) -> Vec<Vec<f64>> {
    let special = cx.rng.chance(1, 10);
    let mut pts: Vec<Vec<f64>> = (0..cols)
        .map(|j| {
            (0..rows)
                .map(|i| {
                    if special && cx.rng.chance(1, 6) {
                        *cx.rng.pick(&[f64::NAN, -0.0, f64::INFINITY, f64::MIN_POSITIVE, 1e308])
                    } else {
                        (j * 1000 + i) as f64 + cx.rng.f() * 0.5
                    }
                })
                .collect()
        })
        .collect();
    if cx.rng.chance(1, 6) {
        // a set with a structure a special case might be made for
        let n = cols;
        match cx.rng.below(6) {
            0 => pts[n - 1] = pts[0].clone(),
            1 => {
                for j in 1..n {
                    pts[j] = pts[0].clone();
                }
            }
            2 => {
                for j in 0..n / 2 {
                    pts[n - 1 - j] = pts[j].clone();
                }
            }
            3 => {
                let s = 10f64.powi(cx.rng.range(0, 500) as i32 - 300);
                for x in pts.iter_mut().flatten() {
                    *x *= s;
                }
            }
            4 => {
                for q in pts.iter_mut() {
                    q.fill(0.0);
                }
            }
            _ => {
                let (i, j) = (cx.rng.below(n), cx.rng.below(n));
                pts[j] = pts[i].clone();
            }
        }
    }
    pts
}

fn bits(m: &nalgebra::DMatrix<f64>) -> Vec<u64> {
    m.iter().map(|x| x.to_bits()).collect()
}
fn vbits(p: &[Vec<f64>]) -> Vec<u64> {
    p.iter().flatten().map(|x| x.to_bits()).collect()
}

fn views<P: Points>(cx: &mut Ctx, what: &str, d: &mut P, pts: &mut Vec<Vec<f64>>) -> R {
    let cols = pts.len();
    let rows = pts[0].len();
    let (c, dim, e) = (d.count(), d.dimension(), d.is_empty());
    cx.check(c == cols && dim == rows && !e, || format!("{what}: count {c} dimension {dim} empty {e} of a {rows}x{cols} set"))?;
    let m = bits(d.matrix());
    cx.check(m == vbits(pts), || format!("{what}: matrix() differs from what was supplied"))?;
    for j in 0..cols {
        let g: Vec<u64> = call("get", || d.get(j).iter().map(|x| x.to_bits()).collect())?;
        let w: Vec<u64> = pts[j].iter().map(|x| x.to_bits()).collect();
        cx.check(g == w, || format!("{what}: get({j}) is another point"))?;
    }
    let bad = panics(|| {
        let _ = d.get(cols).len();
    });
    cx.check(bad, || format!("{what}: get({cols}) of {cols} points did not fail"))?;
    for _ in 0..3 {
        let (j, i) = (cx.rng.below(cols), cx.rng.below(rows));
        let v = cx.rng.uni(-1e6, 1e6);
        if cx.rng.chance(1, 2) {
            call("get_mut", || d.get_mut(j)[i] = v)?;
        } else {
            call("matrix_mut", || d.matrix_mut()[(i, j)] = v)?;
        }
        pts[j][i] = v;
        let m = bits(d.matrix());
        cx.check(m == vbits(pts), || format!("{what}: writing coordinate {i} of point {j} changed something else"))?;
        cx.count("writes through mutable views of points");
    }
    Ok(())
}

use crate::ctx::panics;

fn c29(cx: &mut Ctx) -> R {
    let rows = gen::dims(cx, 5);
    let cols = if cx.rng.chance(1, 10) {
        1
    } else if cx.rng.chance(1, 60) {
        cx.rng.range(40, 400)
    } else {
        cx.rng.range(2, 24)
    };
    let mut pts = tagged(cx, rows, cols);
    for p in &pts {
        cx.hashf(p);
    }
    if cols >= 2 {
        cx.mark_nontrivial();
    }
    cx.describe(|| format!("{rows}x{cols} points"));
    // data points
    let mut d = call("DataPoints::new", || DataPoints::new(mat(&pts)))?;
    let s = d.segments();
    cx.check(s == cols - 1, || format!("data segments() = {s} of {cols} points"))?;
    views(cx, "data points", &mut d, &mut pts)?;
    let keep = d.clone();
    call("reverse", || {
        d.reverse();
    })?;
    let rev: Vec<Vec<f64>> = pts.iter().rev().cloned().collect();
    let m = bits(d.matrix());
    cx.check(m == vbits(&rev), || "reversed data points are not in opposite order".into())?;
    call("reverse", || {
        d.reverse();
    })?;
    let m = bits(d.matrix());
    cx.check(m == vbits(&pts), || "data points reversed twice differ".into())?;
    cx.check(bits(keep.matrix()) == vbits(&pts), || "a clone of the data points changed".into())?;
    // nothing in them
    {
        let (r, k) = *cx.rng.pick(&[(0, 0), (0, 1), (0, 5), (1, 0), (3, 0)]);
        let z = DataPoints::new(nalgebra::DMatrix::zeros(r, k));
        let y = ControlPoints::new(nalgebra::DMatrix::zeros(r, k));
        let got = [(z.count(), z.dimension(), z.is_empty()), (ControlPoints::count(&y), y.dimension(), y.is_empty())];
        cx.check(got == [(k, r, true); 2], || format!("(count, dimension, empty) of {r}x{k} points: {got:?}"))?;
        cx.count("empty point sets");
    }
    // control points
    let cap = cx.rng.below(9);
    let route = cx.rng.below(2);
    let mut c = call("ControlPoints::new", || if route == 0 { ControlPoints::new(mat(&pts)) } else { ControlPoints::new_with_capacity(mat(&pts), cap) })?;
    let (s, n, cd, md) = (c.segments(), ControlPoints::count(&c), c.count_derivative(0), c.max_derivative());
    cx.check(s == cols - 1 && n == cols && cd == cols && md == 0, || {
        format!("control points: segments {s} count {n} count_derivative {cd} max_derivative {md} of {cols}")
    })?;
    views(cx, "control points", &mut c, &mut pts)?;
    let m = bits(c.matrix_derivative(0));
    cx.check(m == vbits(&pts), || "matrix_derivative(0) is not the control points".into())?;
    let bad = panics(|| {
        c.matrix_derivative(1);
    });
    cx.check(bad, || "an underived control point set offers derivative 1".into())?;
    call("reverse", || {
        c.reverse();
    })?;
    let rev: Vec<Vec<f64>> = pts.iter().rev().cloned().collect();
    let m = bits(c.matrix());
    cx.check(m == vbits(&rev), || "reversed control points are not in opposite order".into())?;
    call("reverse", || {
        c.reverse();
    })?;
    let m = bits(c.matrix());
    cx.check(m == vbits(&pts), || "control points reversed twice differ".into())?;
    // with derivatives
    if cols >= 2 && cx.rng.chance(1, 3) {
        let p = cx.rng.range(1, (cols - 1).min(5));
        let n = cols - 1;
        let ku = call("uniform", || knots::methods::uniform(p, n))?.map_err(|e| format!("{e:?}"))?;
        let mut c = ControlPoints::new(mat(&pts));
        call("derive", || c.derive(&ku))?;
        let md = c.max_derivative();
        cx.check(md == p, || format!("max_derivative {md} after deriving with degree {p}"))?;
        for x in pts.iter_mut().flatten() {
            if !(x.abs() < 1e100) {
                *x = 0.5;
            }
        }
        let mut c = ControlPoints::new(mat(&pts));
        call("derive", || c.derive(&ku))?;
        let before: Vec<_> = (0..=p).map(|k| c.matrix_derivative(k).clone()).collect();
        for (k, b) in before.iter().enumerate() {
            let (l, r, cd) = (b.ncols(), b.nrows(), c.count_derivative(k));
            cx.check(l == cols - k && r == rows && cd == l, || format!("derivative {k}: {r}x{l} points, count_derivative {cd}"))?;
        }
        let k = cx.rng.range(0, p);
        let (i, j) = (cx.rng.below(rows), cx.rng.below(cols - k));
        call("matrix_derivative_mut", || c.matrix_derivative_mut(k)[(i, j)] = 4321.0)?;
        for (q, b) in before.iter().enumerate() {
            let mut w = b.clone();
            if q == k {
                w[(i, j)] = 4321.0;
            }
            cx.check(bits(c.matrix_derivative(q)) == bits(&w), || format!("a write to derivative {k} is wrong in derivative {q}"))?;
        }
        c.matrix_derivative_mut(k)[(i, j)] = before[k][(i, j)];
        call("reverse", || {
            c.reverse();
        })?;
        for (q, b) in before.iter().enumerate() {
            let m = c.matrix_derivative(q);
            let l = b.ncols();
            for y in 0..l {
                for x in 0..rows {
                    let w = if q % 2 == 1 { -b[(x, l - 1 - y)] } else { b[(x, l - 1 - y)] };
                    let g = m[(x, y)];
                    cx.check(g == w, || format!("reversed derivative {q}: point {y} coordinate {x} is {g:e}, expected {w:e}"))?;
                }
            }
        }
        call("reverse", || {
            c.reverse();
        })?;
        for (q, b) in before.iter().enumerate() {
            let same = c.matrix_derivative(q).iter().zip(b.iter()).all(|(a, b)| a == b);
            cx.check(same, || format!("derivative {q} reversed twice differs"))?;
        }
        cx.count("derived control point sets reversed");
    }
    // vector views
    let len = if cx.rng.chance(1, 40) { cx.rng.range(30, 500) } else { cx.rng.range(0, 30) };
    let mut v: Vec<f64> = (0..len).map(|i| i as f64 + 0.25).collect();
    let mut x: VecD = vecd(&v);
    for _ in 0..4 {
        let n = cx.rng.range(0, len);
        let s = cx.rng.range(0, len - n);
        cx.hash((len * 1000 + n * 31 + s) as u64);
        for _ in 0..3 {
            let kind = cx.rng.below(3);
            let (a, name) = match kind {
                0 => (0, "head"),
                1 => (s, "segment"),
                _ => (len - n, "tail"),
            };
            let got: Vec<f64> = call(name, || match kind {
                0 => x.head(n).iter().cloned().collect(),
                1 => x.segment(s, n).iter().cloned().collect(),
                _ => x.tail(n).iter().cloned().collect(),
            })?;
            cx.check(got == v[a..a + n], || format!("{name} of {n} elements (start {a}) of {len} is {got:?}"))?;
            if n > 0 {
                let j = cx.rng.below(n);
                let val = cx.rng.uni(-100.0, 100.0);
                call(&format!("{name}_mut"), || match kind {
                    0 => x.head_mut(n)[j] = val,
                    1 => x.segment_mut(s, n)[j] = val,
                    _ => x.tail_mut(n)[j] = val,
                })?;
                v[a + j] = val;
                let same = x.len() == len && x.iter().zip(&v).all(|(a, b)| a == b);
                cx.check(same, || format!("a write through {name}_mut (start {a}, element {j}) changed something else"))?;
                cx.count("writes through mutable views of vectors");
            }
            let l = match kind {
                0 => x.head_mut(n).len(),
                1 => x.segment_mut(s, n).len(),
                _ => x.tail_mut(n).len(),
            };
            cx.check(l == n, || format!("{name}_mut has {l} elements, asked for {n}"))?;
        }
    }
    Ok(())
}

fn c30(cx: &mut Ctx) -> R {
    let mut g = gen(cx, COpt { pmax: 7, ..WILD });
    let p = g.p;
    let n = g.n();
    let mut extreme = false;
    if cx.rng.chance(1, 15) {
        // numbers at the limits of the format are kept like any others
        const SMALL: [f64; 6] = [5e-324, -1e-310, 2.2e-308, f64::MIN_POSITIVE, -0.0, 1e-300];
        const LARGE: [f64; 6] = [f64::MAX, -f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e300];
        extreme = cx.rng.chance(1, 3);
        for _ in 0..cx.rng.range(1, 4) {
            let x = *cx.rng.pick(if extreme { &LARGE } else { &SMALL });
            let (i, d) = (cx.rng.below(n + 1), cx.rng.below(g.dim()));
            g.pts[i][d] = x;
        }
        cx.count(if extreme { "coordinates: huge or not finite" } else { "coordinates: subnormal and minute" });
    }
    let m = mat(&g.pts);
    g.note(cx);
    cx.mark_nontrivial();
    let choice = cx.rng.below(8);
    cx.hash(choice as u64);
    if choice < 2 && n > p && cx.rng.chance(1, 6) {
        // knots close to the ones a method would produce
        g.u = super::fit::uniform_knots(p, n);
        let i = cx.rng.range(p + 1, n);
        g.u[i] += cx.rng.uni(-1.0, 1.0) * 10f64.powi(-(cx.rng.range(5, 15) as i32)) / (n - p + 1) as f64;
        let v = g.u.clone();
        cx.hashf(&v);
        cx.count("knots: almost uniform");
    } else if choice < 2 && cx.rng.chance(1, 3) {
        // knots that are not on the unit interval, or not clamped
        let (s, t) = (10f64.powf(cx.rng.uni(-3.0, 4.0)), *cx.rng.pick(&[0.0, 0.0, -1.0, 0.5, 3.0, -20.0]));
        let len = g.u.len();
        for x in g.u.iter_mut() {
            *x = t + s * *x;
        }
        if cx.rng.chance(1, 3) {
            for i in 0..p {
                g.u[i] -= s * (p - i) as f64 * 0.25;
                g.u[len - 1 - i] += s * (p - i) as f64 * 0.25;
            }
            cx.count("knots: not clamped");
        }
        let v = g.u.clone();
        cx.hashf(&v);
        cx.describe(|| format!("knots {v:?}"));
        cx.count("knots: another interval");
    }
    let distinct = !extreme && g.pts.windows(2).any(|w| w[0].iter().zip(&w[1]).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max) > 1e-70)
        && g.pts.iter().flatten().all(|x| x.abs() < 1e90);
    let mut from_data = false;
    let (curve, want_knots, name): (Curve, Knots, String) = match choice {
        0 => {
            let k = g.knots()?;
            let c = call("Curve::new", || Curve::new(k.clone(), ControlPoints::new(m.clone())))?.map_err(|e| format!("{e:?}"))?;
            (c, k, "Curve::new".into())
        }
        1 => {
            let k = g.knots()?;
            let kc = k.clone();
            let c = call("generate", || {
                generate(Generation::Manual { degree: p, points: ControlPoints::new(m.clone()), knots: knots::Generation::Manual { knots: kc } })
            })?
            .map_err(|e| format!("{e:?}"))?;
            (c, k, "manual knots".into())
        }
        2 => {
            let k = call("uniform", || knots::methods::uniform(p, n))?.map_err(|e| format!("{e:?}"))?;
            let c = call("generate", || generate(Generation::Manual { degree: p, points: ControlPoints::new(m.clone()), knots: knots::Generation::Uniform }))?
                .map_err(|e| format!("{e:?}"))?;
            (c, k, "uniform".into())
        }
        _ => {
            let pm = if distinct { cx.rng.below(3) } else { 0 };
            let km = cx.rng.below(3);
            from_data = pm > 0;
            let d = DataPoints::new(m.clone());
            let params = call("parameters", || match pm {
                0 => parameters::methods::equally_spaced(n),
                1 => parameters::methods::chord_length(&d),
                _ => parameters::methods::centripetal(&d),
            });
            // tiny extents trip a debug assertion of the centripetal method: not claimed
            let params = match params {
                Ok(p) => p,
                Err(_) => {
                    cx.count("skipped: degenerate data");
                    return Ok(());
                }
            };
            let k = call("knots", || match km {
                0 => knots::methods::uniform(p, n),
                1 => knots::methods::de_boor(p, n, &params),
                _ => knots::methods::averaging(p, n, &params),
            })?
            .map_err(|e| format!("{e:?}"))?;
            let pmeth = match pm {
                0 => parameters::Method::EquallySpaced,
                1 => parameters::Method::ChordLength,
                _ => parameters::Method::Centripetal,
            };
            let kmeth = match km {
                0 => knots::Method::Uniform,
                1 => knots::Method::DeBoor,
                _ => knots::Method::Averaging,
            };
            let c = call("generate", || {
                generate(Generation::Manual {
                    degree: p,
                    points: ControlPoints::new(m.clone()),
                    knots: knots::Generation::Method { parameter_method: pmeth, knot_method: kmeth },
                })
            })?
            .map_err(|e| format!("{e:?}"))?;
            (c, k, format!("parameters {pm}, knots {km}"))
        }
    };
    cx.describe(|| format!("choice {name}"));
    cx.count(&format!("choice: {name}"));
    let _ = from_data;
    cx.check(bits(curve.points.matrix()) == bits(&m), || format!("{name}: control points differ from the supplied ones"))?;
    let (d, dim, s) = (curve.degree(), curve.dimension(), curve.segments());
    cx.check(d == p && dim == g.dim() && s == n, || format!("{name}: degree {d} dimension {dim} segments {s}, expected {p} {} {n}", g.dim()))?;
    let (a, b): (Vec<f64>, Vec<f64>) = (curve.knots.vector().iter().cloned().collect(), want_knots.vector().iter().cloned().collect());
    let same = a.len() == b.len()
        && a.iter().zip(&b).all(|(x, y)| x == y || (x - y).abs() <= 8.0 * EPS * y.abs() || (!x.is_finite() && !y.is_finite()));
    cx.check(same, || format!("{name}: knots {a:?}, expected {b:?}"))?;
    let md = call("max_derivative", || curve.max_derivative())?;
    cx.check(md == p, || format!("{name}: max_derivative {md}, degree {p}"))?;
    if from_data && curve.knots.vector().as_slice().windows(2).any(|w| w[0] > w[1]) {
        // decided by C21
        return Ok(());
    }
    if extreme {
        return Ok(());
    }
    consistent(cx, &name, &curve, 0.0)?;
    // too few points
    if cx.rng.chance(1, 4) {
        let few = cx.rng.range(1, p);
        let cut = mat(&g.pts[..few]);
        let route = cx.rng.below(3);
        let k = g.knots()?;
        let c2 = cut.clone();
        let r = call("generate with too few points", || match route {
            0 => Curve::new(k, ControlPoints::new(c2)),
            1 => generate(Generation::Manual { degree: p, points: ControlPoints::new(c2), knots: knots::Generation::Uniform }),
            _ => generate(Generation::Manual { degree: p, points: ControlPoints::new(c2), knots: knots::Generation::Manual { knots: k } }),
        })?;
        let ok = matches!(r, Err(CurveError::DegreeAndSegmentsMismatch { p: a, n: b }) if a == p && b == few - 1);
        cx.check(ok, || format!("{few} points for degree {p}: {:?}", r.err()))?;
        cx.count("refused: too few points");
    }
    Ok(())
}
