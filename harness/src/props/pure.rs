//! C25: repeated, reordered and concurrent requests give the bits a fresh process gives.
use super::*;
use crate::ctx::last_panic;
use crate::gen::{self, gen_p, mat, params, vecd, COpt, G};
use crate::rng::Rng;
use bsplines::curve::basis::basis;
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::{self, is_clamped, is_normed, is_sorted, is_uniform, DomainKnotComparatorType as Cmp, Knots};
use bsplines::curve::parameters::{self, Parameters};
use bsplines::curve::points::methods::fit::{self, Penalization};
use bsplines::curve::points::methods::interpolation::interpolate;
use bsplines::curve::points::{ControlPoints, DataPoints};
use bsplines::manipulation::insert::insert as lib_insert;
use bsplines::manipulation::merge::{merge, merge_from, merge_to, Constraints};
use bsplines::manipulation::reverse::reversed as lib_reversed;
use bsplines::manipulation::split::split_and_normalize;
use std::marker::PhantomData;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        case: c25,
        quick: 6000,
        thorough: 400000,
        min_nontrivial: 1000,
        rule: "a case is one to three curves, a data set and a list of requests (every kind of query, generator and copying manipulation, accepted and refused ones). The bits of all answers \
               from a process of its own (requests in reverse order) are the baseline; the requests are then repeated in order, shuffled, on clones, on equal curves with another history, \
               and from several threads at once on shared curves with injected delays; distinct by the bits of the curves and all requests",
        assumptions: &[A_CLAMPED, "the scheduler decides which interleavings occur (those observed are counted)"],
    }]
}

#[derive(Clone, Debug)]
enum Q {
    Eval(usize, f64, usize),
    Basis(usize, usize, usize, f64),
    BasisFn(usize, usize, usize, f64),
    Find(usize, f64, usize, u8),
    Mult(usize, f64),
    Queries(usize),
    Predicates(usize),
    DerivativeCurve(usize, usize),
    Split(usize, f64, bool, bool),
    Reversed(usize),
    Merge(usize, usize, u8),
    InsertClone(usize, f64, usize),
    AppendClone(usize, usize, bool),
    Interpolate(usize, usize),
    Fit(usize, usize, usize, bool, Option<(f64, usize)>),
    Direct(usize, usize, usize, u8, u8),
    Parameters(usize, u8),
    Knots(usize, usize, usize, u8, u8),
    Manual(usize, usize, u8, u8),
}

struct World {
    gs: Vec<G>,
    curves: Vec<Curve>,
    /// two sets of as many points of the same dimension
    data: [DataPoints; 2],
    raw: [Vec<Vec<f64>>; 2],
}

struct H(u64);
impl H {
    fn new() -> H {
        H(0xcbf29ce484222325)
    }
    fn u(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x100000001b3).rotate_left(29);
    }
    fn f<'a>(&mut self, it: impl Iterator<Item = &'a f64>) {
        for x in it {
            self.u(x.to_bits());
        }
    }
    fn s(&mut self, s: &str) {
        for b in s.bytes() {
            self.u(b as u64);
        }
    }
    fn c(&mut self, c: &Curve) {
        for x in snapshot(c) {
            self.u(x);
        }
    }
    fn rc<E: std::fmt::Debug>(&mut self, r: &Result<Curve, E>) {
        match r {
            Ok(c) => self.c(c),
            Err(e) => self.s(&format!("{e:?}")),
        }
    }
    fn rk<E: std::fmt::Debug>(&mut self, r: &Result<Knots, E>) {
        match r {
            Ok(k) => {
                self.u(k.degree() as u64);
                self.f(k.vector().iter());
            }
            Err(e) => self.s(&format!("{e:?}")),
        }
    }
    fn rm<E: std::fmt::Debug>(&mut self, r: &Result<nalgebra::DMatrix<f64>, E>) {
        match r {
            Ok(k) => {
                self.u(k.nrows() as u64);
                self.f(k.iter());
            }
            Err(e) => self.s(&format!("{e:?}")),
        }
    }
}

fn params_of(d: &DataPoints, m: u8) -> Parameters {
    if m == 3 {
        let n = d.segments();
        return Parameters::new(vecd(&(0..=n).map(|g| (g as f64 / n as f64).powi(2)).collect::<Vec<_>>()), n);
    }
    parameters::generate(
        d,
        match m {
            0 => parameters::Method::EquallySpaced,
            1 => parameters::Method::ChordLength,
            _ => parameters::Method::Centripetal,
        },
    )
}
fn kmethod(k: u8) -> knots::Method {
    match k {
        0 => knots::Method::Uniform,
        1 => knots::Method::DeBoor,
        _ => knots::Method::Averaging,
    }
}

/// One request; a panic is an answer like any other (whether it is right is for the other monitors).
fn answer(w: &World, curves: &[Curve], q: &Q) -> u64 {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| answer_inner(w, curves, q)));
    match r {
        Ok(h) => h,
        Err(_) => {
            let mut h = H::new();
            h.s("panic ");
            h.s(&last_panic());
            h.0
        }
    }
}

fn answer_inner(w: &World, cs: &[Curve], q: &Q) -> u64 {
    let mut h = H::new();
    match q {
        Q::Eval(c, u, k) => {
            let c = &cs[*c];
            let r = if *k == 0 { c.evaluate(*u) } else { c.evaluate_derivative(*u, *k) };
            match r {
                Ok(v) => h.f(v.iter()),
                Err(e) => h.s(&format!("{e:?}")),
            }
        }
        Q::Basis(c, k, i, u) => {
            let c = &cs[*c];
            h.f([c.knots.evaluate(*k, *i, c.degree() - k, *u)].iter());
        }
        Q::BasisFn(c, k, i, u) => {
            let c = &cs[*c];
            h.f([basis(c.knots.vector(), *i, c.degree() - k, 0, c.segments(), *u)].iter());
        }
        Q::Find(c, u, k, m) => {
            let m = match m {
                0 => Cmp::Left,
                1 => Cmp::LeftOrEqual,
                2 => Cmp::RightOrEqual,
                _ => Cmp::Right,
            };
            h.u(cs[*c].knots.find_idx(*u, *k, m) as u64);
        }
        Q::Mult(c, u) => h.u(cs[*c].knots.multiplicity(*u) as u64),
        Q::Queries(c) => {
            let c = &cs[*c];
            let k = &c.knots;
            for x in [
                c.degree(), c.segments(), c.dimension(), c.max_derivative(), k.degree(), k.segments(), k.internal_count(), k.domain_count(),
                k.max_derivative(), c.points.count(), c.points.segments(), c.points.max_derivative(), c.points.dimension(),
            ] {
                h.u(x as u64);
            }
            for d in 0..=c.degree() {
                h.u(k.len(d) as u64);
                h.u(k.segments_derivative(d) as u64);
                h.u(c.points.count_derivative(d) as u64);
                h.f(k.domain_derivative(d).iter());
            }
            h.f(k.internal().iter());
            h.f(k.domain().iter());
            for x in snapshot(c) {
                h.u(x);
            }
        }
        Q::Predicates(c) => {
            let k = &cs[*c].knots;
            h.u(is_clamped(k) as u64 + 2 * is_sorted(k) as u64 + 4 * is_normed(k) as u64);
            h.s(&format!("{:?}", is_uniform(k)));
        }
        Q::DerivativeCurve(c, k) => h.c(&cs[*c].get_derivative_curve(*k)),
        Q::Split(c, u, a, b) => match split_and_normalize(&cs[*c], *u, (*a, *b)) {
            Ok((a, b)) => {
                h.c(&a);
                h.c(&b);
            }
            Err(e) => h.s(&format!("{e:?}")),
        },
        Q::Reversed(c) => h.c(&lib_reversed(&cs[*c])),
        Q::Merge(a, b, f) => {
            let (a, b) = (&cs[*a], &cs[*b]);
            let r = match f {
                0 => merge(a, b),
                1 => merge_from(a, b),
                _ => merge_to(a, b),
            };
            h.rc(&r);
        }
        Q::InsertClone(c, u, x) => {
            let mut d = cs[*c].clone();
            let r = if *x == 1 { lib_insert(&mut d, *u) } else { d.insert_times(*u, *x).map(|_| ()) };
            h.s(&format!("{r:?}"));
            h.c(&d);
        }
        Q::AppendClone(a, b, con) => {
            let mut d = cs[*a].clone();
            if *con {
                d.append_constrained(Constraints { params: vec![1.0] }, &cs[*b], Constraints { params: vec![] });
            } else {
                d.append(&cs[*b]);
                d.prepend(&cs[*b]);
            }
            h.c(&d);
        }
        Q::Interpolate(d, p) => h.rc(&generate(Generation::Interpolation { degree: *p, points: &w.data[*d] })),
        Q::Fit(d, p, n, fixed, pen) => {
            let method = if *fixed { fit::Method::FixedEnds } else { fit::Method::LooseEnds };
            let penalization = pen.map(|(lambda, kappa)| Penalization { lambda, kappa });
            h.rc(&generate(Generation::LeastSquaresFit { degree: *p, points: &w.data[*d], intended_segments: *n, method, penalization }));
        }
        Q::Direct(d, p, n, f, m) => {
            let data = &w.data[*d];
            let pr = params_of(data, *m);
            match knots::generate(*p, *n, &pr, knots::Method::Uniform) {
                Ok(k) => match f {
                    0 => h.rm(&fit::loose::fit(&k, data, &pr, None)),
                    1 => h.rm(&fit::fixed::fit(&k, data, &pr, None)),
                    _ => {
                        if *n == data.segments() {
                            h.f(interpolate(&k, data, &pr).iter());
                        }
                    }
                },
                Err(e) => h.s(&format!("{e:?}")),
            }
        }
        Q::Parameters(d, m) => {
            let p = params_of(&w.data[*d], *m);
            h.u(p.segments() as u64);
            h.f(p.vector().iter());
        }
        Q::Knots(d, p, n, m, k) => {
            let pr = params_of(&w.data[*d], *m);
            h.rk(&knots::generate(*p, *n, &pr, kmethod(*k)));
        }
        Q::Manual(d, p, m, k) => {
            let knots = knots::Generation::Method {
                parameter_method: match m {
                    0 => parameters::Method::EquallySpaced,
                    1 => parameters::Method::ChordLength,
                    _ => parameters::Method::Centripetal,
                },
                knot_method: kmethod(*k),
            };
            h.rc(&generate(Generation::Manual { degree: *p, points: ControlPoints::new(mat(&w.raw[*d])), knots }));
        }
    }
    h.0
}

/// The case, from its random numbers alone, so that another process builds the same one.
fn world(cx: &mut Ctx) -> R<(World, Vec<Q>)> {
    let o = COpt { pmin: 1, pmax: 5, max_extra: 8, max_dim: 3, ulps: true, min_gap: 0.0, mult_below: 0, tame: true };
    let p = gen::degree(cx, 1, 5);
    let dim = gen::dims(cx, 3);
    let cnt = cx.rng.range(1, 3);
    let mut gs = vec![];
    for i in 0..cnt {
        // often the same degree and dimension, sometimes not (refused merges)
        let (q, d) = if i == 0 || cx.rng.chance(3, 4) { (p, dim) } else { (gen::degree(cx, 1, 5), gen::dims(cx, 3)) };
        gs.push(gen_p(cx, o, q, d));
    }
    if cnt > 1 && cx.rng.chance(1, 4) {
        // the same knots, other points: answers must not be mixed up
        let mut g = gs[0].clone();
        let (pts, _) = gen::points(cx, g.dim(), g.n() + 1, true);
        g.pts = pts;
        gs[1] = g;
    }
    let mut curves = vec![];
    for g in &gs {
        let k = g.knots()?;
        let m = ControlPoints::new(mat(&g.pts));
        curves.push(call("Curve::new", || Curve::new(k, m))?.map_err(|e| format!("{e:?}"))?);
    }
    let m = cx.rng.range(1, 12);
    let dd = gen::dims(cx, 3);
    let points = |cx: &mut Ctx| -> Vec<Vec<f64>> {
        let mut raw: Vec<Vec<f64>> = (0..=m).map(|_| (0..dd).map(|_| cx.rng.uni(-2.0, 2.0)).collect()).collect();
        if m > 3 && cx.rng.chance(1, 4) {
            raw[2] = raw[1].clone();
        }
        raw
    };
    let raw = [points(cx), points(cx)];
    let data = [DataPoints::new(mat(&raw[0])), DataPoints::new(mat(&raw[1]))];
    let w = World { gs, curves, data, raw };
    let mut qs = vec![];
    let nq = cx.rng.range(8, 40);
    while qs.len() < nq {
        let c = cx.rng.below(cnt);
        let g = &w.gs[c];
        let (p, n, gu) = (g.p, g.n(), g.u.clone());
        let at = |cx: &mut Ctx| -> f64 {
            if cx.rng.chance(1, 12) {
                return *cx.rng.pick(&[-0.1, 1.1, f64::NAN, f64::INFINITY]);
            }
            params(cx, &gu, p, 3)[2]
        };
        let q = match cx.rng.below(24) {
            0..=4 => Q::Eval(c, at(cx), 0),
            5..=7 => Q::Eval(c, at(cx), cx.rng.range(0, p + 1)),
            8 => {
                let k = cx.rng.below(p + 1);
                Q::Basis(c, k, cx.rng.below(n + 1 - k), params(cx, &gu, p, 3)[2])
            }
            9 => Q::BasisFn(c, 0, cx.rng.below(n + 1), params(cx, &gu, p, 3)[2]),
            10 => Q::Find(c, params(cx, &gu, p, 3)[2], cx.rng.below(p + 1), cx.rng.below(4) as u8),
            11 => Q::Mult(c, at(cx)),
            12 => Q::Queries(c),
            13 => Q::Predicates(c),
            14 => Q::DerivativeCurve(c, cx.rng.below(p + 1)),
            15 => Q::Split(c, at(cx), cx.rng.chance(1, 2), cx.rng.chance(1, 2)),
            16 => Q::Reversed(c),
            17 => Q::Merge(c, cx.rng.below(cnt), cx.rng.below(3) as u8),
            18 => Q::InsertClone(c, at(cx), cx.rng.range(1, 3)),
            19 => Q::AppendClone(c, cx.rng.below(cnt), cx.rng.chance(1, 2)),
            20 => {
                let q = cx.rng.range(0, 4);
                qs.push(Q::Interpolate(0, q));
                Q::Interpolate(1, q)
            }
            21 => {
                let pen = if cx.rng.chance(1, 2) { Some((*cx.rng.pick(&[0.0, 1.0, 1e-3]), cx.rng.range(1, 3))) } else { None };
                Q::Fit(cx.rng.below(2), cx.rng.range(1, 3), cx.rng.range(1, m), cx.rng.chance(1, 2), pen)
            }
            22 => match cx.rng.below(3) {
                0 => Q::Parameters(cx.rng.below(2), cx.rng.below(3) as u8),
                1 => {
                    let q = cx.rng.range(1, m.min(4));
                    Q::Knots(cx.rng.below(2), q, cx.rng.range(q, m), cx.rng.below(4) as u8, cx.rng.below(2) as u8)
                }
                _ => {
                    // the same problem, but for the data or the parameters
                    let q = cx.rng.range(1, m.min(4));
                    let f = cx.rng.below(3) as u8;
                    let n = if f == 2 { m } else { cx.rng.range(q, m) };
                    qs.push(Q::Direct(cx.rng.below(2), q, n, f, *cx.rng.pick(&[0, 1, 3])));
                    Q::Direct(cx.rng.below(2), q, n, f, *cx.rng.pick(&[0, 1, 2, 3]))
                }
            },
            _ => Q::Manual(cx.rng.below(2), cx.rng.range(1, 3), cx.rng.below(3) as u8, cx.rng.below(3) as u8),
        };
        qs.push(q);
    }
    Ok((w, qs))
}

/// `bsmon helper:purity --case N`: the answers of a process that has done nothing else.
pub fn fresh(a: &crate::run::Args) {
    let case = a.case.expect("case");
    let mut cx = Ctx::new(a.seed, "C25", case, a.tier == "thorough");
    let Ok((w, qs)) = world(&mut cx) else {
        println!("none");
        return;
    };
    let mut out = vec![0u64; qs.len()];
    for i in (0..qs.len()).rev() {
        out[i] = answer(&w, &w.curves, &qs[i]);
    }
    println!("{}", out.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "));
}

fn baseline(cx: &Ctx) -> Result<Option<Vec<u64>>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = Command::new(exe)
        .args(["helper:purity", "--seed", &cx.seed.to_string(), "--tier", if cx.thorough { "thorough" } else { "quick" }, "--case", &cx.case.to_string()])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Ok(None);
    }
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    if s.trim() == "none" {
        return Ok(None);
    }
    s.split_whitespace().map(|x| u64::from_str_radix(x, 16).map_err(|e| e.to_string())).collect::<Result<Vec<_>, _>>().map(Some)
}

// Send and Sync, decided by the compiler but observed at run time (so that losing them is a verdict
// and not a failed build of the monitor).
struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
impl<T: Sync> Probe<T> {
    fn sync(&self) -> bool {
        true
    }
}
#[allow(dead_code)]
trait NotSync {
    fn sync(&self) -> bool {
        false
    }
}
impl<T> NotSync for &Probe<T> {}
struct ProbeS<T>(PhantomData<T>);
#[allow(dead_code)]
impl<T: Send> ProbeS<T> {
    fn send(&self) -> bool {
        true
    }
}
#[allow(dead_code)]
trait NotSend {
    fn send(&self) -> bool {
        false
    }
}
impl<T> NotSend for &ProbeS<T> {}

struct Force<T>(T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

/// Runs the requests from `threads` threads at once; None, or a request answered otherwise.
fn concurrent(cx: &mut Ctx, w: &World, qs: &[Q], base: &[u64], threads: usize, rounds: usize) -> Option<(usize, usize)> {
    let fw = Force(w);
    let ticket = AtomicU64::new(0);
    let bar = Barrier::new(threads);
    let seeds: Vec<u64> = (0..threads).map(|_| cx.rng.u64()).collect();
    let mut logs: Vec<Vec<(u64, u64)>> = vec![];
    let mut bad = None;
    std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 0..threads {
            let (fw, ticket, bar, seed) = (&fw, &ticket, &bar, seeds[t]);
            hs.push(s.spawn(move || {
                let w = fw.get();
                let mut r = Rng::new(seed);
                let mut order: Vec<usize> = (0..qs.len()).collect();
                let mut log = vec![];
                let mut bad = None;
                bar.wait();
                for _ in 0..rounds {
                    r.shuffle(&mut order);
                    for &i in &order {
                        match r.below(8) {
                            0 => std::thread::yield_now(),
                            1 => {
                                for _ in 0..r.below(400) {
                                    std::hint::spin_loop();
                                }
                            }
                            _ => {}
                        }
                        let a = ticket.fetch_add(1, Ordering::Relaxed);
                        let h = answer(w, &w.curves, &qs[i]);
                        let b = ticket.fetch_add(1, Ordering::Relaxed);
                        log.push((a, b));
                        if h != base[i] {
                            bad = Some(i);
                        }
                    }
                }
                (log, bad)
            }));
        }
        for (t, h) in hs.into_iter().enumerate() {
            let (l, b) = h.join().expect("monitor thread");
            logs.push(l);
            if let Some(i) = b {
                bad = Some((t, i));
            }
        }
    });
    let mut seq: Vec<(u64, usize)> = vec![];
    let mut overlaps = 0;
    for (t, l) in logs.iter().enumerate() {
        for (a, b) in l {
            seq.push((*a, t));
            if b - a > 1 {
                overlaps += 1;
            }
        }
    }
    seq.sort();
    let mut h = H::new();
    for (_, t) in &seq {
        h.u(*t as u64 + 1);
    }
    cx.seen("interleavings of threads", h.0);
    cx.add("requests overlapping another thread's", overlaps);
    cx.add("requests from concurrent threads", seq.len() as u64);
    bad
}

/// Writes the knots and points of `from` into the buffers of `to`.
fn overwrite(to: &mut Curve, from: &Curve, knots: bool, points: bool) -> R {
    call("writing in place", || {
        for k in 0..=from.degree() {
            if knots {
                to.knots.vector_derivative_mut(k).copy_from(from.knots.vector_derivative(k));
            }
            if points {
                to.points.matrix_derivative_mut(k).copy_from(from.points.matrix_derivative(k));
            }
        }
    })
}

fn c25(cx: &mut Ctx) -> R {
    if cx.case == 0 {
        let all = [
            ("Curve", (&Probe::<Curve>(PhantomData)).sync(), (&ProbeS::<Curve>(PhantomData)).send()),
            ("Knots", (&Probe::<Knots>(PhantomData)).sync(), (&ProbeS::<Knots>(PhantomData)).send()),
            ("ControlPoints", (&Probe::<ControlPoints>(PhantomData)).sync(), (&ProbeS::<ControlPoints>(PhantomData)).send()),
            ("DataPoints", (&Probe::<DataPoints>(PhantomData)).sync(), (&ProbeS::<DataPoints>(PhantomData)).send()),
            ("Parameters", (&Probe::<Parameters>(PhantomData)).sync(), (&ProbeS::<Parameters>(PhantomData)).send()),
            ("CurveError", (&Probe::<bsplines::curve::CurveError>(PhantomData)).sync(), (&ProbeS::<bsplines::curve::CurveError>(PhantomData)).send()),
        ];
        // the probe itself works
        let (a, b) = ((&Probe::<std::cell::Cell<u8>>(PhantomData)).sync(), (&ProbeS::<std::rc::Rc<u8>>(PhantomData)).send());
        assert!(!a && !b);
        for (n, sy, se) in all {
            cx.check(sy, || format!("{n} cannot be shared between threads (not Sync)"))?;
            cx.check(se, || format!("{n} cannot be sent to another thread (not Send)"))?;
        }
    }
    let (w, qs) = world(cx)?;
    for g in &w.gs {
        g.note(cx);
    }
    for q in &qs {
        let s = format!("{q:?}");
        cx.describe(|| s.clone());
        cx.count(&format!("request={}", s.split('(').next().unwrap_or("")));
        for b in s.bytes() {
            cx.hash(b as u64);
        }
    }
    let base = match baseline(cx) {
        Ok(Some(b)) => b,
        Ok(None) => {
            cx.count("skipped: no baseline");
            return Ok(());
        }
        Err(e) => {
            eprintln!("MONITOR-ERROR property=C25 baseline: {e}");
            std::process::exit(2);
        }
    };
    cx.mark_nontrivial();
    let snaps: Vec<Vec<u64>> = w.curves.iter().map(snapshot).collect();
    let bits = |w: &World| w.data.iter().flat_map(|d| d.matrix().iter().map(|x| x.to_bits()).collect::<Vec<_>>()).collect::<Vec<u64>>();
    let dbits = bits(&w);
    let judge = |cx: &mut Ctx, how: &str, i: usize, h: u64| -> R {
        cx.check(h == base[i], || format!("{how}: {:?} answered otherwise than by a fresh process", qs[i]))
    };
    // in order, then each twice in random order
    for i in 0..qs.len() {
        let h = answer(&w, &w.curves, &qs[i]);
        judge(cx, "in order", i, h)?;
    }
    let mut order: Vec<usize> = (0..qs.len()).chain(0..qs.len()).collect();
    cx.rng.shuffle(&mut order);
    for &i in &order {
        let h = answer(&w, &w.curves, &qs[i]);
        judge(cx, "shuffled and repeated", i, h)?;
    }
    cx.add("sequential requests", 3 * qs.len() as u64);
    // clones, and equal curves with another history
    let clones: Vec<Curve> = w.curves.iter().map(|c| c.clone()).collect();
    let mut rebuilt = vec![];
    for g in &w.gs {
        let k = g.knots()?;
        let m = ControlPoints::new_with_capacity(mat(&g.pts), g.p + 1);
        let c = call("Curve::new", || Curve::new(k, m))?.map_err(|e| format!("{e:?}"))?;
        let mut noise = c.clone();
        let _ = call("insert", || noise.insert(0.37).map(|_| ()));
        let _ = call("reverse", || {
            noise.reverse();
        });
        let _ = call("evaluate", || noise.evaluate(0.21));
        rebuilt.push(c);
    }
    for (how, cs) in [("on clones", &clones), ("on rebuilt curves", &rebuilt)] {
        for &i in order.iter().take(qs.len()) {
            let h = answer(&w, cs, &qs[i]);
            judge(cx, how, i, h)?;
        }
    }
    // curves that held something else in the same buffers when the request was last made
    let mut imposters = vec![];
    for g in &w.gs {
        let mut u: Vec<f64> = g.u.iter().rev().map(|x| 1.0 - x).collect();
        u.sort_by(|a, b| a.total_cmp(b));
        let pts: Vec<Vec<f64>> = g.pts.iter().rev().map(|q| q.iter().map(|x| 0.75 - x).collect()).collect();
        let k = call("Knots::new", || Knots::new(g.p, vecd(&u)))?;
        let m = ControlPoints::new(mat(&pts));
        imposters.push(call("Curve::new", || Curve::new(k, m))?.map_err(|e| format!("{e:?}"))?);
    }
    let mut used = imposters.clone();
    for (step, &i) in order.iter().rev().take(qs.len().min(12)).enumerate() {
        let which = step % 3;
        for (to, from) in [(0, &imposters), (1, &w.curves)] {
            for (c, f) in used.iter_mut().zip(from) {
                // knots, points or both change
                let (kn, pt) = (to == 1 || which != 1, to == 1 || which != 0);
                overwrite(c, f, kn, pt)?;
            }
            let h = answer(&w, &used, &qs[i]);
            if to == 1 {
                judge(cx, "on curves edited in place", i, h)?;
            }
        }
    }
    cx.add("requests around edits in place", qs.len().min(12) as u64);
    // a curve that was changed and then built again from its parts
    let same = w.curves.iter().zip(&snaps).all(|(c, s)| snapshot(c) == *s);
    cx.check(same, || "a request changed a curve".into())?;
    let same = dbits == bits(&w);
    cx.check(same, || "a request changed the data".into())?;
    // several threads on the same curves
    let threads = cx.rng.range(2, 6);
    let stress = cx.case % 40 == 7;
    let bad = if stress {
        cx.count("stress cases");
        let ev: Vec<usize> = (0..qs.len()).filter(|&i| matches!(qs[i], Q::Eval(..) | Q::Basis(..) | Q::Find(..))).collect();
        let q2: Vec<Q> = ev.iter().map(|&i| qs[i].clone()).collect();
        let b2: Vec<u64> = ev.iter().map(|&i| base[i]).collect();
        concurrent(cx, &w, &q2, &b2, 8, 200).map(|(t, i)| (t, ev[i]))
    } else {
        concurrent(cx, &w, &qs, &base, threads, 2)
    };
    if let Some((t, i)) = bad {
        return Err(format!("concurrently (thread {t}): {:?} answered otherwise than by a fresh process", qs[i]).into());
    }
    cx.obs();
    let same = w.curves.iter().zip(&snaps).all(|(c, s)| snapshot(c) == *s);
    cx.check(same, || "concurrent requests changed a curve".into())?;
    Ok(())
}
