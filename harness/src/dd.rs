//! Double-double arithmetic (about 32 decimal digits), used by every reference model so that the
//! oracle's own rounding is negligible next to the library's.
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Sub, SubAssign};

#[derive(Clone, Copy, Debug)]
pub struct Dd {
    pub hi: f64,
    pub lo: f64,
}

#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline]
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
#[inline]
fn split(a: f64) -> (f64, f64) {
    const SPLITTER: f64 = 134217729.0; // 2^27+1
    if a.abs() > 6.69692879491417e299 {
        let a = a * 3.7252902984619140625e-09;
        let t = SPLITTER * a;
        let hi = t - (t - a);
        let lo = a - hi;
        (hi * 268435456.0, lo * 268435456.0)
    } else {
        let t = SPLITTER * a;
        let hi = t - (t - a);
        (hi, a - hi)
    }
}
#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}

impl Dd {
    pub const ZERO: Dd = Dd { hi: 0.0, lo: 0.0 };
    pub const ONE: Dd = Dd { hi: 1.0, lo: 0.0 };
    #[inline]
    pub fn new(x: f64) -> Dd {
        Dd { hi: x, lo: 0.0 }
    }
    #[inline]
    pub fn f(self) -> f64 {
        self.hi + self.lo
    }
    #[inline]
    pub fn sqrt(self) -> Dd {
        if self.hi <= 0.0 {
            return Dd::ZERO;
        }
        let x = 1.0 / self.hi.sqrt();
        let ax = Dd::new(self.hi * x);
        let r = self - ax * ax;
        ax + Dd::new(r.hi * (x * 0.5))
    }
    pub fn is_finite(self) -> bool {
        self.hi.is_finite() && self.lo.is_finite()
    }
}
impl From<f64> for Dd {
    fn from(x: f64) -> Dd {
        Dd::new(x)
    }
}
impl Add for Dd {
    type Output = Dd;
    #[inline]
    fn add(self, b: Dd) -> Dd {
        let (s1, s2) = two_sum(self.hi, b.hi);
        let (t1, t2) = two_sum(self.lo, b.lo);
        let (s1, s2) = quick_two_sum(s1, s2 + t1);
        let (hi, lo) = quick_two_sum(s1, s2 + t2);
        Dd { hi, lo }
    }
}
impl Neg for Dd {
    type Output = Dd;
    #[inline]
    fn neg(self) -> Dd {
        Dd { hi: -self.hi, lo: -self.lo }
    }
}
impl Sub for Dd {
    type Output = Dd;
    #[inline]
    fn sub(self, b: Dd) -> Dd {
        self + (-b)
    }
}
impl Mul for Dd {
    type Output = Dd;
    #[inline]
    fn mul(self, b: Dd) -> Dd {
        let (p1, p2) = two_prod(self.hi, b.hi);
        let p2 = p2 + (self.hi * b.lo + self.lo * b.hi);
        let (hi, lo) = quick_two_sum(p1, p2);
        Dd { hi, lo }
    }
}
impl Div for Dd {
    type Output = Dd;
    #[inline]
    fn div(self, b: Dd) -> Dd {
        let q1 = self.hi / b.hi;
        let r = self - b * Dd::new(q1);
        let q2 = r.hi / b.hi;
        let r = r - b * Dd::new(q2);
        let q3 = r.hi / b.hi;
        let (q1, q2) = quick_two_sum(q1, q2);
        Dd { hi: q1, lo: q2 } + Dd::new(q3)
    }
}
impl AddAssign for Dd {
    fn add_assign(&mut self, b: Dd) {
        *self = *self + b;
    }
}
impl SubAssign for Dd {
    fn sub_assign(&mut self, b: Dd) {
        *self = *self - b;
    }
}
impl MulAssign for Dd {
    fn mul_assign(&mut self, b: Dd) {
        *self = *self * b;
    }
}
impl PartialEq for Dd {
    fn eq(&self, b: &Dd) -> bool {
        self.hi == b.hi && self.lo == b.lo
    }
}
impl PartialOrd for Dd {
    fn partial_cmp(&self, b: &Dd) -> Option<Ordering> {
        match self.hi.partial_cmp(&b.hi) {
            Some(Ordering::Equal) => self.lo.partial_cmp(&b.lo),
            o => o,
        }
    }
}

/// Dense matrix of double-doubles, row major.
#[derive(Clone, Debug)]
pub struct M {
    pub r: usize,
    pub c: usize,
    pub d: Vec<Dd>,
}
impl M {
    pub fn zeros(r: usize, c: usize) -> M {
        M { r, c, d: vec![Dd::ZERO; r * c] }
    }
    #[inline]
    pub fn at(&self, i: usize, j: usize) -> Dd {
        self.d[i * self.c + j]
    }
    #[inline]
    pub fn set(&mut self, i: usize, j: usize, v: Dd) {
        self.d[i * self.c + j] = v;
    }
    pub fn t(&self) -> M {
        let mut m = M::zeros(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                m.set(j, i, self.at(i, j));
            }
        }
        m
    }
    pub fn mul(&self, o: &M) -> M {
        assert_eq!(self.c, o.r);
        let mut m = M::zeros(self.r, o.c);
        for i in 0..self.r {
            for k in 0..self.c {
                let a = self.at(i, k);
                if a.hi == 0.0 {
                    continue;
                }
                for j in 0..o.c {
                    let v = m.at(i, j) + a * o.at(k, j);
                    m.set(i, j, v);
                }
            }
        }
        m
    }
    pub fn fro(&self) -> f64 {
        self.d.iter().map(|x| x.hi * x.hi).sum::<f64>().sqrt()
    }
    pub fn maxabs(&self) -> f64 {
        self.d.iter().map(|x| x.hi.abs()).fold(0.0, f64::max)
    }
    /// Solves self * X = B by Gaussian elimination with partial pivoting.
    /// Returns None if a pivot vanishes (relative to the row scale).
    pub fn solve(&self, b: &M) -> Option<M> {
        let n = self.r;
        assert_eq!(n, self.c);
        assert_eq!(n, b.r);
        let mut a = self.clone();
        let mut x = b.clone();
        for k in 0..n {
            let mut piv = k;
            for i in k + 1..n {
                if a.at(i, k).hi.abs() > a.at(piv, k).hi.abs() {
                    piv = i;
                }
            }
            if !(a.at(piv, k).hi.abs() > 1e-290) {
                return None;
            }
            if piv != k {
                for j in 0..n {
                    let (p, q) = (a.at(k, j), a.at(piv, j));
                    a.set(k, j, q);
                    a.set(piv, j, p);
                }
                for j in 0..x.c {
                    let (p, q) = (x.at(k, j), x.at(piv, j));
                    x.set(k, j, q);
                    x.set(piv, j, p);
                }
            }
            for i in k + 1..n {
                if a.at(i, k).hi == 0.0 {
                    continue;
                }
                let f = a.at(i, k) / a.at(k, k);
                for j in k..n {
                    let v = a.at(i, j) - f * a.at(k, j);
                    a.set(i, j, v);
                }
                for j in 0..x.c {
                    let v = x.at(i, j) - f * x.at(k, j);
                    x.set(i, j, v);
                }
            }
        }
        for k in (0..n).rev() {
            for j in 0..x.c {
                let mut v = x.at(k, j);
                for l in k + 1..n {
                    v -= a.at(k, l) * x.at(l, j);
                }
                x.set(k, j, v / a.at(k, k));
            }
        }
        Some(x)
    }
    pub fn inverse(&self) -> Option<M> {
        let mut e = M::zeros(self.r, self.r);
        for i in 0..self.r {
            e.set(i, i, Dd::ONE);
        }
        self.solve(&e)
    }
}
