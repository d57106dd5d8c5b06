//! Workload generators: hostile but valid curves, parameters and data.
use crate::ctx::{call, Ctx, R};
use crate::refm::RefCurve;
use bsplines::curve::{
    generation::{generate, Generation},
    knots::{self, Knots},
    points::ControlPoints,
    Curve,
};
use nalgebra::{DMatrix, DVector};

#[derive(Clone, Debug)]
pub struct G {
    pub p: usize,
    pub u: Vec<f64>,
    pub pts: Vec<Vec<f64>>,
    pub kclass: &'static str,
    pub pclass: &'static str,
    pub max_mult: usize,
}

pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        f64::from_bits(1)
    } else if x > 0.0 {
        f64::from_bits(x.to_bits() + 1)
    } else {
        f64::from_bits(x.to_bits() - 1)
    }
}
pub fn next_down(x: f64) -> f64 {
    -next_up(-x)
}

#[derive(Clone, Copy)]
pub struct KOpt {
    pub max_mult: usize,
    /// allow knots a few ulps apart
    pub ulps: bool,
    /// smallest admissible gap between distinct knots (0 = any)
    pub min_gap: f64,
}

/// n-p interior knots, strictly inside (0,1), sorted.
pub fn interior(cx: &mut Ctx, cnt: usize, o: KOpt) -> (Vec<f64>, &'static str) {
    if cnt == 0 {
        return (vec![], "bezier");
    }
    for _attempt in 0..40 {
        let r = &mut cx.rng;
        let mut v: Vec<f64> = Vec::with_capacity(cnt);
        let class = match if r.chance(1, 14) { 99 } else { r.below(if o.ulps { 12 } else { 11 }) } {
            99 => {
                // regular but for a little: evenly spaced, symmetric or on round numbers
                let kind = r.below(3);
                for i in 1..=cnt {
                    v.push(match kind {
                        0 => i as f64 / (cnt + 1) as f64,
                        _ => r.uni(0.02, 0.98),
                    });
                }
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                if kind == 1 {
                    for i in 0..cnt / 2 {
                        v[cnt - 1 - i] = 1.0 - v[i].min(1.0 - v[i]);
                        v[i] = 1.0 - v[cnt - 1 - i];
                    }
                    if cnt % 2 == 1 {
                        v[cnt / 2] = 0.5;
                    }
                    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                } else if kind == 2 {
                    for x in v.iter_mut() {
                        *x = (*x * 64.0).round() / 64.0;
                    }
                }
                let e = 10f64.powf(-r.uni(4.0, 14.5));
                if r.chance(1, 2) {
                    let i = r.below(cnt);
                    v[i] += e;
                } else {
                    for x in v.iter_mut() {
                        *x += e * r.uni(-1.0, 1.0);
                    }
                }
                "nearly regular"
            }
            0 | 1 => {
                for i in 1..=cnt {
                    v.push(i as f64 / (cnt + 1) as f64);
                }
                "uniform"
            }
            2 => {
                for _ in 0..cnt {
                    v.push(r.uni(0.0, 1.0));
                }
                "random"
            }
            3 => {
                // jittered uniform
                for i in 1..=cnt {
                    let h = 1.0 / (cnt + 1) as f64;
                    v.push((i as f64 + r.uni(-0.45, 0.45)) * h);
                }
                "jittered"
            }
            4 => {
                let c = *r.pick(&[0.0, 1.0, 0.5, 0.25]);
                for _ in 0..cnt {
                    let d = r.uni(-1.0, 1.0).powi(3) * 0.5;
                    v.push((c + d).abs().min(2.0));
                }
                "clustered"
            }
            5 | 6 | 7 => {
                // repeated knots from a small grid
                while v.len() < cnt {
                    let x = match r.below(4) {
                        0 => r.range(1, 9) as f64 / 10.0,
                        1 => r.range(1, 15) as f64 / 16.0,
                        2 => r.range(1, 6) as f64 / 7.0,
                        _ => r.uni(0.0, 1.0),
                    };
                    let m = r.range(1, o.max_mult.max(1));
                    for _ in 0..m {
                        if v.len() < cnt {
                            v.push(x);
                        }
                    }
                }
                "repeated"
            }
            8 => {
                let a = r.uni(0.4, 0.9);
                for i in 1..=cnt {
                    v.push(1.0 - a.powi(i as i32));
                }
                if r.chance(1, 2) {
                    for x in v.iter_mut() {
                        *x = 1.0 - *x;
                    }
                }
                "geometric"
            }
            9 => {
                // dyadic grid: exact in binary, includes 1/2
                let q = 1usize << r.range(1, 6);
                for _ in 0..cnt {
                    v.push(r.range(1, q - 1) as f64 / q as f64);
                }
                "dyadic"
            }
            10 => {
                // a knot next to an end, the others anywhere
                let x = 10f64.powf(-r.uni(1.0, 9.0)).max(o.min_gap * 1.5);
                v.push(if r.chance(1, 2) { x } else { 1.0 - x });
                while v.len() < cnt {
                    v.push(r.uni(0.05, 0.95));
                }
                "next to an end"
            }
            _ => {
                while v.len() < cnt {
                    let x = r.uni(0.05, 0.95);
                    v.push(x);
                    let mut y = x;
                    for _ in 0..r.range(1, 3) {
                        if v.len() < cnt {
                            y = if r.chance(1, 2) {
                                for _ in 0..r.range(1, 4) {
                                    y = next_up(y);
                                }
                                y
                            } else {
                                y + 10f64.powi(-(r.range(6, 14) as i32))
                            };
                            v.push(y);
                        }
                    }
                }
                "near-coincident"
            }
        };
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if v.iter().any(|&x| !(x > 0.0 && x < 1.0)) {
            continue;
        }
        // multiplicity and gap limits
        let mut ok = true;
        let mut run = 1;
        for i in 1..v.len() {
            if v[i] == v[i - 1] {
                run += 1;
                if run > o.max_mult {
                    ok = false;
                }
            } else {
                run = 1;
                if v[i] - v[i - 1] < o.min_gap {
                    ok = false;
                }
            }
        }
        if o.min_gap > 0.0 && (v[0] < o.min_gap || 1.0 - v[cnt - 1] < o.min_gap) {
            ok = false;
        }
        if ok {
            return (v, class);
        }
    }
    ((1..=cnt).map(|i| i as f64 / (cnt + 1) as f64).collect(), "uniform")
}

pub fn clamp(p: usize, inner: &[f64]) -> Vec<f64> {
    let mut u = vec![0.0; p + 1];
    u.extend_from_slice(inner);
    u.extend(std::iter::repeat(1.0).take(p + 1));
    u
}

pub fn points(cx: &mut Ctx, dim: usize, cnt: usize, tame: bool) -> (Vec<Vec<f64>>, &'static str) {
    let r = &mut cx.rng;
    let mut pts = vec![vec![0.0; dim]; cnt];
    let class = match r.below(if tame { 8 } else { 14 }) {
        0 | 1 | 2 => {
            for p in pts.iter_mut() {
                for x in p.iter_mut() {
                    *x = r.uni(-1.0, 1.0);
                }
            }
            "random"
        }
        3 => {
            for p in pts.iter_mut() {
                for x in p.iter_mut() {
                    *x = r.range(0, 20) as f64 - 10.0;
                }
            }
            "integers"
        }
        4 => {
            // closed curve with duplicates
            for i in 0..cnt {
                if i > 0 && r.chance(1, 3) {
                    pts[i] = pts[i - 1].clone();
                } else {
                    for x in pts[i].iter_mut() {
                        *x = r.uni(-5.0, 5.0);
                    }
                }
            }
            pts[cnt - 1] = pts[0].clone();
            "closed-duplicates"
        }
        5 => {
            let a: Vec<f64> = (0..dim).map(|_| r.uni(-3.0, 3.0)).collect();
            let d: Vec<f64> = (0..dim).map(|_| r.uni(-3.0, 3.0)).collect();
            for (i, p) in pts.iter_mut().enumerate() {
                for c in 0..dim {
                    p[c] = a[c] + d[c] * i as f64;
                }
            }
            "collinear"
        }
        6 => {
            let off: Vec<f64> = (0..dim).map(|_| r.uni(-1e4, 1e4)).collect();
            for p in pts.iter_mut() {
                for c in 0..dim {
                    p[c] = off[c] + r.uni(-1.0, 1.0);
                }
            }
            "far-offset"
        }
        7 => {
            for (i, p) in pts.iter_mut().enumerate() {
                for (c, x) in p.iter_mut().enumerate() {
                    let t = i as f64 * 0.7 + c as f64;
                    *x = t.sin() * (1.0 + 0.1 * i as f64);
                }
            }
            "smooth"
        }
        8 => {
            let i = r.below(cnt);
            for x in pts[i].iter_mut() {
                *x = r.uni(-1.0, 1.0);
            }
            "impulse"
        }
        9 => {
            let s = 10f64.powi(r.range(0, 160) as i32 - 80);
            for p in pts.iter_mut() {
                for x in p.iter_mut() {
                    *x = s * r.uni(-1.0, 1.0);
                }
            }
            "scaled"
        }
        10 => {
            for p in pts.iter_mut() {
                for x in p.iter_mut() {
                    *x = r.normal() * 10f64.powi(r.range(0, 12) as i32 - 6);
                }
            }
            "mixed-scale"
        }
        11 => "zeros",
        12 => {
            // control points that dominate others even where their weight is far below the rounding unit
            for p in pts.iter_mut() {
                let s = 10f64.powi(r.range(0, 90) as i32 - 45);
                for x in p.iter_mut() {
                    *x = s * r.uni(-1.0, 1.0);
                }
            }
            "widely mixed"
        }
        _ => {
            for (i, p) in pts.iter_mut().enumerate() {
                for x in p.iter_mut() {
                    *x = if i % 2 == 0 { 1.0 } else { -1.0 };
                }
            }
            "alternating"
        }
    };
    if r.chance(1, 25) && cnt > 2 {
        // all but closed, straight, constant or repeated
        let e = 10f64.powf(-r.uni(4.0, 14.0));
        let (a, b) = (pts[0].clone(), pts[cnt - 1].clone());
        match r.below(4) {
            0 => pts[cnt - 1] = a,
            1 => {
                for i in 1..cnt - 1 {
                    let t = i as f64 / (cnt - 1) as f64;
                    for c in 0..dim {
                        pts[i][c] = (1.0 - t) * a[c] + t * b[c];
                    }
                }
            }
            2 => {
                for q in pts.iter_mut() {
                    *q = a.clone();
                }
            }
            _ => {
                let i = r.range(1, cnt - 1);
                pts[i] = pts[i - 1].clone();
            }
        }
        for q in pts.iter_mut() {
            for x in q.iter_mut() {
                *x *= 1.0 + e * r.uni(-1.0, 1.0);
            }
        }
        return (pts, "nearly regular");
    }
    if r.chance(1, 12) {
        // the same points with a structure a special case might be made for
        match r.below(9) {
            0 => {
                for q in pts.iter_mut() {
                    for x in q.iter_mut() {
                        if r.chance(1, 3) {
                            *x = if r.chance(1, 3) { 0.0 } else { -0.0 };
                        }
                    }
                }
            }
            k @ (1 | 2) => {
                for i in 0..cnt / 2 {
                    pts[cnt - 1 - i] = pts[i].iter().map(|x| if k == 1 { *x } else { -x }).collect();
                }
            }
            3 => pts[cnt - 1] = pts[0].clone(),
            4 => {
                let d = r.below(dim);
                for q in pts.iter_mut() {
                    q[d] = 0.0;
                }
            }
            5 => {
                let i = r.below(cnt);
                pts[i] = vec![0.0; dim];
            }
            6 => {
                let i = r.below(cnt);
                for j in i + 1..(i + 3).min(cnt) {
                    pts[j] = pts[i].clone();
                }
            }
            7 => {
                for q in pts.iter_mut() {
                    let x = q[0];
                    q.fill(x);
                }
            }
            _ => {
                for q in pts.iter_mut() {
                    for x in q.iter_mut() {
                        *x = x.round();
                    }
                }
            }
        }
        return (pts, "structured");
    }
    if r.chance(1, 40) {
        // a curve very far from the unit scale, exactly the multiple of an ordinary one
        let lim: i64 = if r.chance(1, 2) { 60 } else if tame { 400 } else { 600 };
        let s = 2f64.powi(r.range(0, 2 * lim as usize) as i32 - lim as i32);
        if pts.iter().flatten().all(|x| x.abs() <= 1e30) {
            for q in pts.iter_mut() {
                for x in q.iter_mut() {
                    *x *= s;
                }
            }
            return (pts, "far from unit scale");
        }
    }
    (pts, class)
}

#[derive(Clone, Copy)]
pub struct COpt {
    pub pmin: usize,
    pub pmax: usize,
    pub max_extra: usize,
    pub max_dim: usize,
    pub ulps: bool,
    pub min_gap: f64,
    /// None: up to p+1; Some(x): at most max(1, p+1-x)
    pub mult_below: usize,
    pub tame: bool,
}
pub const WILD: COpt =
    COpt { pmin: 1, pmax: 8, max_extra: 14, max_dim: 5, ulps: true, min_gap: 0.0, mult_below: 0, tame: false };
pub const TAME: COpt =
    COpt { pmin: 1, pmax: 6, max_extra: 12, max_dim: 4, ulps: false, min_gap: 1e-2, mult_below: 1, tame: true };

pub fn degree(cx: &mut Ctx, lo: usize, hi: usize) -> usize {
    // small degrees often, but every degree regularly
    let r = &mut cx.rng;
    let d = match r.below(6) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => 4,
        _ => r.range(lo, hi),
    };
    let d = d.clamp(lo, hi);
    if hi >= 5 && r.chance(1, 60) {
        return match hi {
            8.. if r.chance(1, 6) => r.range(13, 16),
            8.. => r.range(9, 12),
            7 => r.range(8, 12),
            _ => r.range(hi + 1, 9),
        };
    }
    d
}
pub fn dims(cx: &mut Ctx, max: usize) -> usize {
    if cx.rng.chance(1, 40) {
        let most = if cx.rng.chance(1, 20) { 70 } else { 12 };
        return cx.rng.range(6, most).min(max * 3 * (most / 12));
    }
    cx.rng.range(1, max)
}

pub fn gen_p(cx: &mut Ctx, o: COpt, p: usize, dim: usize) -> G {
    let extra = match cx.rng.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => p,
        4 if p <= 4 && cx.rng.chance(1, 6) => {
            // now and then more than fits into a byte
            if p <= 3 && cx.rng.chance(1, 40) {
                cx.rng.range(200, 600)
            } else {
                cx.rng.range(30, 150)
            }
        }
        _ => cx.rng.below(o.max_extra + 1),
    };
    let max_mult = (p + 1).saturating_sub(o.mult_below).max(1);
    let (inner, kclass) = interior(cx, extra, KOpt { max_mult, ulps: o.ulps, min_gap: o.min_gap });
    let n = p + inner.len();
    let (pts, pclass) = points(cx, dim, n + 1, o.tame);
    let mut mm = 0;
    let mut run = 0;
    for i in 0..inner.len() {
        run = if i > 0 && inner[i] == inner[i - 1] { run + 1 } else { 1 };
        mm = mm.max(run);
    }
    let mut u = clamp(p, &inner);
    if cx.rng.chance(1, 40) {
        negative_zeros(cx, &mut u);
    }
    G { p, u, pts, kclass, pclass, max_mult: mm }
}

/// Zeros as reversing and rescaling leave them: equal to zero, but negative.
pub fn negative_zeros(cx: &mut Ctx, u: &mut [f64]) {
    let all = cx.rng.chance(1, 2);
    for x in u.iter_mut() {
        if *x == 0.0 && (all || cx.rng.chance(1, 2)) {
            *x = -0.0;
        }
    }
    cx.count("negative zeros among the knots");
}
pub fn gen(cx: &mut Ctx, o: COpt) -> G {
    let p = degree(cx, o.pmin, o.pmax);
    let dim = dims(cx, o.max_dim);
    gen_p(cx, o, p, dim)
}

pub fn mat(pts: &[Vec<f64>]) -> DMatrix<f64> {
    let dim = pts[0].len();
    DMatrix::from_fn(dim, pts.len(), |r, c| pts[c][r])
}
pub fn vecd(u: &[f64]) -> DVector<f64> {
    DVector::from_vec(u.to_vec())
}

impl G {
    pub fn n(&self) -> usize {
        self.pts.len() - 1
    }
    pub fn dim(&self) -> usize {
        self.pts[0].len()
    }
    pub fn refc(&self) -> RefCurve {
        RefCurve::new(self.p, &self.u, &self.pts)
    }
    pub fn knots(&self) -> R<Knots> {
        call("Knots::new", || Knots::new(self.p, vecd(&self.u)))
    }
    /// Builds the library curve, through either public constructor.
    pub fn build(&self, cx: &mut Ctx) -> R<Curve> {
        let route = cx.rng.below(3);
        let p = self.p;
        let m = mat(&self.pts);
        let c = match route {
            0 => {
                let k = self.knots()?;
                call("Curve::new", || Curve::new(k, ControlPoints::new(m)))?
            }
            1 => {
                let k = self.knots()?;
                call("Curve::new", || Curve::new(k, ControlPoints::new_with_capacity(m, p + 1)))?
            }
            _ => {
                let k = self.knots()?;
                call("generate(Manual)", || {
                    generate(Generation::Manual {
                        degree: p,
                        points: ControlPoints::new(m),
                        knots: knots::Generation::Manual { knots: k },
                    })
                })?
            }
        };
        let c = c.map_err(|e| format!("valid curve refused: {e:?}"))?;
        Ok(c)
    }
    pub fn note(&self, cx: &mut Ctx) {
        cx.hash(self.p as u64);
        cx.hash(self.dim() as u64);
        cx.hashf(&self.u);
        for q in &self.pts {
            cx.hashf(q);
        }
        let k = format!("degree={}", self.p);
        cx.count(&k);
        cx.count(match self.n() - self.p {
            0 => "size=bezier",
            1..=3 => "size=1-3 interior knots",
            4..=14 => "size=4-14 interior knots",
            _ => "size=15+ interior knots",
        });
        let k = format!("knots={}", self.kclass);
        cx.count(&k);
        let k = format!("points={}", self.pclass);
        cx.count(&k);
        if self.max_mult >= 2 {
            cx.count("repeated interior knots");
        }
        if self.max_mult == self.p {
            cx.count("interior knot of multiplicity p");
        }
        if self.max_mult == self.p + 1 {
            cx.count("interior knot of multiplicity p+1");
        }
        let g = self.clone();
        cx.describe(|| format!("p={} dim={} knots={:?} points={:?}", g.p, g.dim(), g.u, g.pts));
    }
}

/// Parameters worth asking for: ends, knots and their neighbours, span interiors, simple fractions.
pub fn params(cx: &mut Ctx, u: &[f64], p: usize, cnt: usize) -> Vec<f64> {
    let n1 = u.len() - p - 1;
    let mut v = vec![0.0, 1.0];
    while v.len() < cnt {
        let r = &mut cx.rng;
        let i = r.range(p, n1 - 1);
        let x = match r.below(14) {
            0 => -0.0,
            1 => next_down(1.0),
            2 => f64::from_bits(r.range(1, 4) as u64),
            3 => 10f64.powi(-(r.range(1, 300) as i32)),
            4 | 5 => u[i],
            6 => next_up(u[i]),
            7 => next_down(u[i]),
            8 => r.range(0, 10) as f64 / 10.0,
            9 => r.range(0, 64) as f64 / 64.0,
            10 => 0.5 * (u[i] + u[i + 1]),
            11 => 1.0 - 10f64.powi(-(r.range(1, 16) as i32)),
            12 => u[i] + (u[i + 1] - u[i]) * r.f(),
            _ => r.f(),
        };
        if (0.0..=1.0).contains(&x) {
            v.push(x);
        }
    }
    v
}

/// p+1 interior samples of every span (enough to pin the polynomial piece), at most `cap` in total.
pub fn span_samples(cx: &mut Ctx, rc: &RefCurve, cap: usize) -> Vec<f64> {
    let mut v = vec![];
    let mut spans = rc.spans();
    cx.rng.shuffle(&mut spans);
    for s in spans {
        let (a, b) = (rc.u[s].f(), rc.u[s + 1].f());
        for j in 0..=rc.p {
            let t = (j as f64 + 0.5) / (rc.p + 1) as f64;
            let x = a + (b - a) * t;
            if x > a && x < b {
                v.push(x);
            }
        }
        if v.len() > cap {
            break;
        }
    }
    v
}
