//! C27: the workloads of all other monitors, run in an optimised build under AddressSanitizer (and
//! small ones under Miri). Here only the instrumentation decides; the other monitors' verdicts are
//! theirs and are ignored.
use super::*;
use crate::gen;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        case: c27,
        quick: 30000,
        thorough: 600000,
        min_nontrivial: 8000,
        rule: "a case is one case of another monitor's workload (all public operations on valid and refused inputs, histories included), executed in an optimised build without overflow checks \
               under AddressSanitizer with enlarged red zones and the standard library's undefined-behaviour checks; distinct by that case's own rule",
        assumptions: &[
            "AddressSanitizer reports invalid heap, stack and global accesses that actually happen; red zones of 256 bytes and more separate allocations",
            "invalid memory accesses show in some execution of these workloads",
        ],
    },
    Prop {
        id: "C31",
        case: c31,
        quick: 300000,
        thorough: 6000000,
        min_nontrivial: 20000,
        rule: "a case is four groups of calls with arguments that make no sense (knots that do not fit the points, wrong lengths, orders and indices beyond the end, unsorted, unclamped, NaN and infinite knots, \
               parameters and constraints). Values, errors and panics are all accepted; a call that does not end within the watchdog's time, kills the process or changes what it only reads is not; \
               distinct by the bits of the knots, points and parameters",
        assumptions: &["a call that has not returned after the watchdog's time (these calls take microseconds) does not end"],
    }]
}

/// A small workload over the whole public interface without any reference computation: what the
/// undefined-behaviour interpreter can afford. Outcomes (including refusals and panics) are not judged.
pub fn lean(cx: &mut Ctx) -> R {
    use crate::gen::{mat, vecd};
    use bsplines::curve::basis::basis;
    use bsplines::curve::generation::{generate, Generation};
    use bsplines::curve::knots::{self, is_clamped, is_normed, is_sorted, is_uniform, DomainKnotComparatorType as Cmp, Knots};
    use bsplines::curve::parameters;
    use bsplines::curve::points::methods::fit::{self, Penalization};
    use bsplines::curve::points::{ControlPoints, DataPoints};
    use bsplines::manipulation::merge::{merge, merge_from, merge_to, Constraints};
    use bsplines::manipulation::split::split_and_normalize;
    use bsplines::types::VecHelpers;
    let p = cx.rng.range(1, 3);
    let dim = cx.rng.range(1, 2);
    let mk = |cx: &mut Ctx, p: usize| {
        let e = cx.rng.below(3);
        let (inner, _) = gen::interior(cx, e, gen::KOpt { max_mult: p + 1, ulps: true, min_gap: 0.0 });
        let n = p + inner.len();
        let (pts, _) = gen::points(cx, dim, n + 1, true);
        gen::G { p, u: gen::clamp(p, &inner), pts, kclass: "", pclass: "", max_mult: 1 }
    };
    let (g, h) = (mk(cx, p), mk(cx, p));
    let build = |g: &gen::G| Curve::new(Knots::new(g.p, vecd(&g.u)), ControlPoints::new_with_capacity(mat(&g.pts), g.p + 1));
    let (Ok(a), Ok(b)) = (call("new", || build(&g))?, call("new", || build(&h))?) else { return Ok(()) };
    let pick = |cx: &mut Ctx| match cx.rng.below(6) {
        0 => *cx.rng.pick(&[0.0, 1.0, -0.5, 2.0, f64::NAN]),
        1 | 2 => g.u[cx.rng.below(g.u.len())],
        _ => cx.rng.f(),
    };
    for _ in 0..3 {
        let u = pick(cx);
        let k = cx.rng.below(p + 2);
        let _ = call("evaluate", || a.evaluate_derivative(u, k));
        let v = cx.rng.f();
        let kk = cx.rng.below(p + 1);
        let cmp = match kk % 4 {
            0 => Cmp::Left,
            1 => Cmp::LeftOrEqual,
            2 => Cmp::RightOrEqual,
            _ => Cmp::Right,
        };
        let _ = call("find_idx", || a.knots.find_idx(v, kk, cmp));
        let i = cx.rng.below(a.segments() + 1 - kk);
        let _ = call("basis", || (a.knots.evaluate(kk, i, p, v), basis(a.knots.vector(), 0, p, 0, a.segments(), v)));
    }
    match cx.rng.below(9) {
        0 => {
            let mut c = a.clone();
            for _ in 0..3 {
                let u = pick(cx);
                let x = cx.rng.range(0, 2);
                let _ = call("insert_times", || c.insert_times(u, x).map(|_| ()));
            }
            let _ = call("evaluate", || c.evaluate(0.4));
        }
        1 => {
            let u = pick(cx);
            let f = (cx.rng.chance(1, 2), cx.rng.chance(1, 2));
            if let Ok(Ok((l, r))) = call("split", || split_and_normalize(&a, u, f)) {
                let _ = call("evaluate", || (l.evaluate(0.1), r.evaluate_derivative(0.9, 1)));
                let _ = call("merge", || merge(&l, &r));
            }
        }
        2 => {
            let mut c = a.clone();
            let _ = call("reverse", || {
                c.reverse();
                c.evaluate(0.3)
            });
            let k = cx.rng.below(p + 1);
            if let Ok(d) = call("get_derivative_curve", || a.get_derivative_curve(k)) {
                let _ = call("derivative curve", || (d.evaluate(0.2), d.max_derivative(), d.split(0.5)));
            }
        }
        3 | 4 => {
            let form = cx.rng.below(3);
            let r = call("merge", || match form {
                0 => merge(&a, &b),
                1 => merge_from(&a, &b),
                _ => merge_to(&a, &b),
            });
            if let Ok(Ok(c)) = r {
                let _ = call("evaluate", || c.evaluate(0.5));
            }
        }
        5 => {
            let na = cx.rng.below(p + 1);
            let nb = cx.rng.below(p + 1);
            let cons = |n: usize| Constraints { params: (0..n).map(|i| (i as f64 + 0.5) / n as f64).collect() };
            let pre = cx.rng.chance(1, 2);
            let _ = call("append_constrained", || {
                let mut c = a.clone();
                if pre {
                    c.prepend_constrained(cons(na), &b, cons(nb));
                } else {
                    c.append_constrained(cons(na), &b, cons(nb));
                }
            });
        }
        6 => {
            let m = cx.rng.range(1, 6);
            let (pts, _) = gen::points(cx, dim, m + 1, true);
            let d = DataPoints::new(mat(&pts));
            let _ = call("interpolate", || generate(Generation::Interpolation { degree: p, points: &d }));
            let n = cx.rng.range(1, m);
            let method = if cx.rng.chance(1, 2) { fit::Method::FixedEnds } else { fit::Method::LooseEnds };
            let pen = if cx.rng.chance(1, 2) { Some(Penalization { lambda: 0.5, kappa: cx.rng.range(1, 4) }) } else { None };
            let q = cx.rng.range(1, n.min(3));
            let _ = call("fit", || generate(Generation::LeastSquaresFit { degree: q, points: &d, intended_segments: n, method, penalization: pen }));
        }
        7 => {
            let pm = match cx.rng.below(3) {
                0 => parameters::Method::EquallySpaced,
                1 => parameters::Method::ChordLength,
                _ => parameters::Method::Centripetal,
            };
            let km = match cx.rng.below(3) {
                0 => knots::Method::Uniform,
                1 => knots::Method::DeBoor,
                _ => knots::Method::Averaging,
            };
            let pts = g.pts.clone();
            let _ = call("manual", || {
                generate(Generation::Manual {
                    degree: p,
                    points: ControlPoints::new(mat(&pts)),
                    knots: knots::Generation::Method { parameter_method: pm, knot_method: km },
                })
            });
            let _ = call("predicates", || (is_clamped(&a.knots), is_normed(&a.knots), is_sorted(&a.knots), is_uniform(&a.knots).is_ok()));
            let mut k = a.knots.clone();
            let _ = call("rescale", || {
                k.rescale((0.0, 1.0), (2.0, 5.0));
                k.normalize();
                (k.multiplicity(0.5), k.internal().len(), k.domain().len(), k.segments_derivative(1))
            });
        }
        _ => {
            let l = cx.rng.range(1, 5);
            let mut v = vecd(&(0..l).map(|i| i as f64).collect::<Vec<_>>());
            let x = cx.rng.range(0, l);
            let _ = call("views", || {
                let s = v.head(x).len() + v.tail(x).len();
                v.head_mut(x).fill(1.0);
                v.tail_mut(x).fill(2.0);
                s
            });
            let y = cx.rng.range(0, l - x);
            let _ = call("segment", || {
                v.segment_mut(x, y).fill(3.0);
                v.segment(x, y).sum()
            });
            let mut q = ControlPoints::new(mat(&g.pts));
            let mut d = DataPoints::new(mat(&g.pts));
            let i = cx.rng.below(g.pts.len());
            let _ = call("points", || {
                q.get_mut(i).fill(1.0);
                d.get_mut(i).fill(1.0);
                (q.get(i).sum(), d.get(i).sum())
            });
            let _ = call("reverse", || {
                q.reverse();
                d.reverse();
            });
        }
    }
    Ok(())
}

/// Calls the library has to refuse or panic on, or whose result means nothing: knots that do not fit the points,
/// wrong lengths, indices and orders beyond the end, unsorted and unclamped knots, NaN. Outcomes are not judged.
pub fn invalid(cx: &mut Ctx) -> R {
    use crate::gen::{mat, vecd};
    use bsplines::curve::basis::basis;
    use bsplines::curve::knots::{self, is_clamped, is_normed, is_sorted, is_uniform, DomainKnotComparatorType as Cmp, Knots};
    use bsplines::curve::parameters::Parameters;
    use bsplines::curve::points::methods::fit::{self, Penalization};
    use bsplines::curve::points::methods::interpolation::interpolate;
    use bsplines::curve::points::{ControlPoints, DataPoints};
    use bsplines::manipulation::merge::{merge, merge_from, merge_to, Constraints};
    use bsplines::manipulation::reverse::reversed;
    use bsplines::manipulation::split::split_and_normalize;
    use bsplines::types::VecHelpers;
    let cmps = |i: usize| match i % 4 {
        0 => Cmp::Left,
        1 => Cmp::LeftOrEqual,
        2 => Cmp::RightOrEqual,
        _ => Cmp::Right,
    };
    let size = |cx: &mut Ctx, l: usize| match cx.rng.below(12) {
        0 => usize::MAX - cx.rng.below(6),
        1 => usize::MAX / 2 + 1,
        2 => 0,
        3 => l,
        _ => cx.rng.below(l + 5),
    };
    let real = |cx: &mut Ctx| match cx.rng.below(8) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => -0.5,
        3 => 1.5,
        4 => 0.5,
        _ => cx.rng.f(),
    };
    // any vector at all as a knot vector
    let vector = |cx: &mut Ctx, p: usize, len: usize| -> Vec<f64> {
        let kind = cx.rng.below(4);
        let mut v: Vec<f64> = (0..len)
            .map(|i| match kind {
                0 => (i as f64 - p as f64) / len as f64,
                _ if i <= p => 0.0,
                _ if i + p + 1 >= len => 1.0,
                _ => (i - p) as f64 / (len - 2 * p - 1) as f64,
            })
            .collect();
        if kind == 2 && len > 1 {
            let (i, j) = (cx.rng.below(len), cx.rng.below(len));
            v.swap(i, j);
        }
        if kind == 3 && len > 0 {
            let i = cx.rng.below(len);
            v[i] = real(cx);
        }
        v
    };
    match cx.rng.below(5) {
        4 => {
            // absurd counts and orders on valid curves
            let g = gen::gen(cx, gen::TAME);
            g.note(cx);
            let a = g.build(cx)?;
            let n = *cx.rng.pick(&[300, 1 << 45, usize::MAX / 16, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
            let x = if cx.rng.chance(1, 2) { 0.5 } else { cx.rng.uni(0.01, 0.99) };
            let y = real(cx);
            cx.describe(|| format!("count {n}, u = {x}, v = {y}"));
            let before = snapshot(&a);
            let mut c = a.clone();
            let _ = call("insert_times", || c.insert_times(x, n).is_ok());
            let _ = call("insert_times", || c.insert_times(y, n).is_ok());
            let _ = call("evaluate", || c.evaluate(x).is_ok());
            let _ = call("evaluate_derivative", || a.evaluate_derivative(x, n).is_ok());
            let _ = call("get_derivative_curve", || a.get_derivative_curve(n).segments());
            let _ = call("vector_derivative", || a.knots.vector_derivative(n).len());
            let _ = call("matrix_derivative", || a.points.matrix_derivative(n).ncols());
            cx.check(snapshot(&a) == before, || "a misused call changed a curve it only reads".into())?;
            if g.n() > 40 {
                return Ok(());
            }
            let d = DataPoints::new(mat(&g.pts));
            let k = cx.rng.range(0, 3);
            let o = cx.rng.chance(1, 2);
            let pen = move || if o { Some(Penalization { lambda: y, kappa: n }) } else { None };
            let _ = call("generate", || {
                use bsplines::curve::generation::{generate, Generation};
                let method = if k & 1 == 0 { fit::Method::FixedEnds } else { fit::Method::LooseEnds };
                let (degree, intended_segments) = if k < 2 { (g.p, n) } else { (n, g.n()) };
                generate(Generation::LeastSquaresFit { degree, points: &d, intended_segments, method, penalization: pen() }).is_ok()
            });
            let params = Parameters::new(vecd(&(0..=g.n()).map(|i| i as f64 / g.n() as f64).collect::<Vec<_>>()), g.n());
            let _ = call("fixed", || fit::fixed::fit(&a.knots, &d, &params, pen()).is_ok());
            let _ = call("loose", || fit::loose::fit(&a.knots, &d, &params, pen()).is_ok());
        }
        0 => {
            // vector and point views
            let l = cx.rng.below(6);
            cx.describe(|| format!("views of {l} elements"));
            let mut v = vecd(&(0..l).map(|i| i as f64).collect::<Vec<_>>());
            for _ in 0..4 {
                let (x, y) = (size(cx, l), size(cx, l));
                let _ = call("head", || v.head(x).sum());
                let _ = call("tail", || v.tail(x).sum());
                let _ = call("segment", || v.segment(x, y).sum());
                let _ = call("head_mut", || v.head_mut(x).fill(1.0));
                let _ = call("tail_mut", || v.tail_mut(x).fill(1.0));
                let _ = call("segment_mut", || v.segment_mut(x, y).fill(1.0));
            }
            let n = cx.rng.below(4);
            let pts: Vec<Vec<f64>> = (0..n).map(|i| vec![i as f64, 1.0]).collect();
            let i = size(cx, n);
            // `get` hands the index to nalgebra's `column` as it is, which wraps for usize::MAX itself
            let j = i.min(n + 9);
            let _ = call("points", || {
                let mut q = ControlPoints::new(if n == 0 { nalgebra::DMatrix::zeros(2, 0) } else { mat(&pts) });
                let mut d = DataPoints::new(q.matrix().clone());
                let _ = call("segments", || q.segments());
                let _ = call("segments", || d.segments());
                let _ = call("reverse", || q.reverse().count());
                let _ = call("reverse", || d.reverse().count());
                let _ = call("get", || q.get(j).sum());
                let _ = call("get_mut", || q.get_mut(j).fill(1.0));
                let _ = call("get_mut", || d.get_mut(j).fill(1.0));
                let _ = call("matrix_derivative", || q.matrix_derivative(i).sum());
                let _ = call("count_derivative", || q.count_derivative(i));
            });
        }
        1 => {
            // knot vectors of any length
            let p = cx.rng.below(5);
            let len = cx.rng.below(2 * p + 6);
            let u = vector(cx, p, len);
            let Ok(mut k) = call("Knots::new", || Knots::new(p, vecd(&u))) else { return Ok(()) };
            let (o, i, x) = (size(cx, p), size(cx, len), real(cx));
            cx.describe(|| format!("knots {u:?} of degree {p}, order {o}, index {i}, u = {x}"));
            for o in [o, 0, p] {
                let _ = call("segments_derivative", || k.segments_derivative(o));
                let _ = call("len", || k.len(o));
                let _ = call("vector_derivative", || k.vector_derivative(o).sum());
                let _ = call("domain_derivative", || k.domain_derivative(o).sum());
                for c in 0..4 {
                    let _ = call("find_idx", || k.find_idx(x, o, cmps(c)));
                }
                let _ = call("evaluate", || k.evaluate(o, i, p, x));
                let _ = call("basis", || basis(k.vector(), i, p, o, 2, x));
            }
            let _ = call("internal", || k.internal().iter().take(100).sum::<f64>());
            let _ = call("internal_knot", || k.internal_knot(i));
            let _ = call("domain", || k.domain().iter().take(100).sum::<f64>());
            let _ = call("domain_knot", || k.domain_knot(i));
            let _ = call("multiplicity", || k.multiplicity(x));
            let _ = call("predicates", || (is_clamped(&k), is_sorted(&k)));
            let _ = call("is_normed", || is_normed(&k));
            let _ = call("is_uniform", || is_uniform(&k).is_ok());
            let _ = call("normalize", || k.normalize().len(0));
            let _ = call("derive", || k.derive());
            let _ = call("methods", || {
                let params = Parameters::new(vecd(&u), i.min(9));
                let n = cx.rng.below(9);
                let _ = call("averaging", || knots::methods::averaging(p, n, &params).is_ok());
                let _ = call("de_boor", || knots::methods::de_boor(p, n, &params).is_ok());
            });
        }
        2 => {
            // knots that do not fit the points
            let p = cx.rng.range(1, 4);
            let mk = |cx: &mut Ctx| {
                let n = cx.rng.range(p, p + 4);
                let len = (n + p + 2 + cx.rng.below(5)).saturating_sub(2);
                let u = vector(cx, p, len);
                let dim = cx.rng.range(1, 2);
                let (pts, _) = gen::points(cx, dim, n + 1, true);
                call("Curve::new", || Curve::new(Knots::new(p, vecd(&u)), ControlPoints::new(mat(&pts))))
            };
            let Ok(Ok(a)) = mk(cx) else { return Ok(()) };
            let b = mk(cx).ok().and_then(|r| r.ok());
            let x = real(cx);
            let k = size(cx, p);
            cx.hash(p as u64);
            for y in snapshot(&a) {
                cx.hash(y);
            }
            let before = (snapshot(&a), b.as_ref().map(snapshot));
            cx.describe(|| format!("curve of degree {p}, {} knots {:?}, {} points, u = {x}, k = {k}", a.knots.vector().len(), a.knots.vector().as_slice(), a.points.matrix().ncols()));
            let f = (cx.rng.chance(1, 2), cx.rng.chance(1, 2));
            let _ = call("evaluate", || a.evaluate(x).is_ok());
            let _ = call("evaluate_derivative", || a.evaluate_derivative(x, k).is_ok());
            let _ = call("split", || split_and_normalize(&a, x, f).map(|(l, r)| (l.evaluate(0.5).is_ok(), r.evaluate(0.5).is_ok())).is_ok());
            let _ = call("get_derivative_curve", || a.get_derivative_curve(k).evaluate(x).is_ok());
            let _ = call("reversed", || reversed(&a).evaluate(x).is_ok());
            let mut c = a.clone();
            for _ in 0..3 {
                let x = if cx.rng.chance(1, 2) { 0.5 } else { cx.rng.f() };
                let old = snapshot(&c);
                if let Ok(false) = call("insert", || c.insert(x).is_ok()) {
                    cx.check(snapshot(&c) == old, || "a refused insert changed the curve".into())?;
                }
                let _ = call("evaluate", || c.evaluate(x).is_ok());
            }
            if let Some(b) = &b {
                let _ = call("merge", || merge(&a, b).map(|c| c.evaluate(0.5).is_ok()).is_ok());
                let _ = call("merge_from", || merge_from(&a, b).is_ok());
                let _ = call("merge_to", || merge_to(b, &c).is_ok());
                let cons = |cx: &mut Ctx| Constraints { params: (0..cx.rng.below(p + 1)).map(|_| real(cx)).collect() };
                let (ca, cb) = (cons(cx), cons(cx));
                let form = cx.rng.below(4);
                // sometimes onto a sound curve, which must survive a refusal
                if cx.rng.chance(1, 2) {
                    let g = gen::gen_p(cx, gen::TAME, p, 2);
                    if let Ok(s) = g.build(cx) {
                        c = s;
                    }
                }
                let old = snapshot(&c);
                let r = call("in-place merge", || match form {
                    0 => c.append_constrained(ca, b, cb).segments(),
                    1 => c.prepend_constrained(ca, b, cb).segments(),
                    2 => c.append(b).segments(),
                    _ => c.prepend(b).segments(),
                });
                if r.is_err() {
                    cx.check(snapshot(&c) == old, || format!("a refused in-place merge (form {form}) changed the curve"))?;
                    cx.count("refused in-place merges");
                }
            }
            cx.check((snapshot(&a), b.as_ref().map(snapshot)) == before, || "a misused call changed a curve it only reads".into())?;
        }
        _ => {
            // fits and interpolation with arguments that do not fit each other
            let p = cx.rng.below(4);
            let len = cx.rng.below(2 * p + 6);
            let u = vector(cx, p, len);
            let Ok(k) = call("Knots::new", || Knots::new(p, vecd(&u))) else { return Ok(()) };
            let m = cx.rng.below(7);
            let (pts, _) = gen::points(cx, 2, m + 1, true);
            let d = DataPoints::new(mat(&pts));
            let l = cx.rng.below(9);
            let ubar = vector(cx, 0, l);
            let (seg, kappa) = (cx.rng.below(9), size(cx, 5).min(40));
            let lambda = real(cx);
            let params = Parameters::new(vecd(&ubar), if cx.rng.chance(2, 3) { m } else { seg });
            let pen = |o: bool| if o { Some(Penalization { lambda, kappa: if kappa > 12 { kappa - 28 } else { kappa } }) } else { None };
            let o = cx.rng.chance(1, 2);
            let bits = |k: &Knots, d: &DataPoints, q: &Parameters| -> Vec<u64> {
                k.vector().iter().chain(d.matrix().iter()).chain(q.vector().iter()).map(|x| x.to_bits()).collect()
            };
            let before = bits(&k, &d, &params);
            cx.describe(|| format!("fits of degree {p}, knots {u:?}, {} data points, parameters {ubar:?}, lambda {lambda}, kappa {kappa}", m + 1));
            for y in &before {
                cx.hash(*y);
            }
            let _ = call("interpolate", || interpolate(&k, &d, &params).sum());
            let _ = call("loose", || fit::loose::fit(&k, &d, &params, pen(o)).is_ok());
            let _ = call("fixed", || fit::fixed::fit(&k, &d, &params, pen(o)).is_ok());
            cx.check(bits(&k, &d, &params) == before, || "a misused fit changed what it only reads".into())?;
        }
    }
    Ok(())
}

/// `bsmon helper:miri --cases N [--case C]`; stops starting cases after BSMON_SECONDS.
pub fn miri(a: &crate::run::Args) {
    let cap: f64 = std::env::var("BSMON_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(1e9);
    let t0 = std::time::Instant::now();
    let (mut n, mut calls, mut caught) = (0, 0, 0);
    let range = match a.case {
        Some(c) => c..c + 1,
        None => 0..a.cases.unwrap_or(10),
    };
    for case in range {
        if t0.elapsed().as_secs_f64() > cap {
            break;
        }
        // the case in progress, for the replay
        println!("case {case}");
        n += 1;
        let mut cx = Ctx::new(a.seed, "C27-miri", case, false);
        crate::ctx::CALLS.with(|c| c.set((0, 0)));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _ = invalid(&mut cx);
            lean(&mut cx)
        }));
        let c = crate::ctx::CALLS.with(|c| c.get());
        calls += c.0;
        caught += c.1;
    }
    println!("miri-cases {n} calls {calls} caught {caught}");
}

fn c31(cx: &mut Ctx) -> R {
    let c0 = crate::ctx::CALLS.with(|c| c.get());
    let mut r = Ok(());
    for _ in 0..4 {
        r = invalid(cx);
        if r.is_err() {
            break;
        }
    }
    let c1 = crate::ctx::CALLS.with(|c| c.get());
    cx.add("calls made", c1.0 - c0.0);
    cx.add("calls that panicked", c1.1 - c0.1);
    cx.obs();
    cx.mark_nontrivial();
    r
}

fn c27(cx: &mut Ctx) -> R {
    let mut all: Vec<Prop> = vec![];
    all.extend(affine::props());
    all.extend(eval::props());
    all.extend(fit::props());
    all.extend(hist::props());
    all.extend(insert::props());
    all.extend(knots::props());
    all.extend(merge::props());
    all.extend(pts::props());
    // merging, splitting and fitting use views with computed offsets: half of the cases
    let i = if cx.rng.chance(1, 2) {
        let ids = ["C09", "C11", "C12", "C13", "C14", "C15", "C16", "C18", "C19", "C24", "C29"];
        let id = *cx.rng.pick(&ids);
        all.iter().position(|p| p.id == id).unwrap()
    } else {
        cx.rng.below(all.len())
    };
    let p = &all[i];
    for _ in 0..4 {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| invalid(cx)));
    }
    let _ = lean(cx);
    let id = p.id;
    cx.describe(|| format!("workload of {id}"));
    cx.count(&format!("workload={id}"));
    let case = cx.case;
    // the first cases of C16 are large and fixed
    cx.case = case + 1000;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(cx)));
    cx.case = case;
    cx.key = None;
    match r {
        Ok(Ok(())) => {}
        Ok(Err(_)) => cx.count("cases another monitor would report"),
        Err(_) => cx.count("cases another monitor could not complete"),
    }
    cx.obs();
    cx.mark_nontrivial();
    Ok(())
}
