//! Double-double arithmetic (about 31 significant digits) for the reference model.
use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug)]
pub struct Dd {
    pub h: f64,
    pub l: f64,
}

#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline]
fn quick(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
#[inline]
fn split(a: f64) -> (f64, f64) {
    let t = 134217729.0 * a;
    let h = t - (t - a);
    (h, a - h)
}
#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    if !p.is_finite() || p == 0.0 || p.abs() < 1e-280 {
        return (p, 0.0);
    }
    let (a, b, s) = if a.abs() > 1e290 {
        (a * 1e-16, b, 1e16)
    } else if b.abs() > 1e290 {
        (a, b * 1e-16, 1e16)
    } else {
        (a, b, 1.0)
    };
    let q = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    let e = ((ah * bh - q) + ah * bl + al * bh) + al * bl;
    if s == 1.0 {
        (p, e)
    } else {
        (p, e * s)
    }
}

pub const fn c(h: f64, l: f64) -> Dd {
    Dd { h, l }
}
pub const ZERO: Dd = c(0.0, 0.0);
pub const ONE: Dd = c(1.0, 0.0);
pub const PI: Dd = c(3.141592653589793116e+00, 1.224646799147353207e-16);
pub const LN2: Dd = c(6.931471805599452862e-01, 2.319046813846299558e-17);
pub const E: Dd = c(2.718281828459045091e+00, 1.445646891729250158e-16);

#[inline]
pub fn d(x: f64) -> Dd {
    Dd { h: x, l: 0.0 }
}
/// Exact ratio of two doubles to double-double accuracy.
pub fn q(a: f64, b: f64) -> Dd {
    d(a) / d(b)
}

impl Dd {
    #[inline]
    pub fn f(self) -> f64 {
        self.h + self.l
    }
    #[inline]
    pub fn abs(self) -> Dd {
        if self.h < 0.0 || (self.h == 0.0 && self.l < 0.0) {
            -self
        } else {
            self
        }
    }
    pub fn is_nan(self) -> bool {
        self.h.is_nan()
    }
    pub fn sq(self) -> Dd {
        self * self
    }
    pub fn recip(self) -> Dd {
        ONE / self
    }
    pub fn sqrt(self) -> Dd {
        if self.h <= 0.0 {
            return if self.h == 0.0 { ZERO } else { d(f64::NAN) };
        }
        if !self.h.is_finite() {
            return self;
        }
        let x = d(self.h.sqrt());
        // Newton: x + (a - x^2) / (2x)
        x + (self - x * x) / (x * d(2.0))
    }
    pub fn powi(self, n: i64) -> Dd {
        let mut r = ONE;
        let mut b = if n < 0 { self.recip() } else { self };
        let mut k = n.unsigned_abs();
        while k > 0 {
            if k & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            k >>= 1;
        }
        r
    }
    fn scale2(self, k: i32) -> Dd {
        // Multiply by 2^k, possibly in two steps to avoid spurious overflow.
        let a = k / 2;
        let b = k - a;
        let (fa, fb) = (f64::powi(2.0, a), f64::powi(2.0, b));
        Dd {
            h: self.h * fa * fb,
            l: self.l * fa * fb,
        }
    }
    pub fn exp(self) -> Dd {
        if self.h.is_nan() {
            return self;
        }
        if self.h > 709.79 {
            return d(f64::INFINITY);
        }
        if self.h < -746.0 {
            return ZERO;
        }
        let k = (self.h / LN2.h).round();
        let r = (self - LN2 * d(k)).scale2(-9);
        // exp(r) - 1 by Taylor, then square nine times as (1+s)^2 - 1.
        let mut s = ZERO;
        let mut t = ONE;
        for i in 1..=10 {
            t = t * r / d(i as f64);
            s = s + t;
        }
        for _ in 0..9 {
            s = s * d(2.0) + s * s;
        }
        (s + ONE).scale2(k as i32)
    }
    pub fn exp_m1(self) -> Dd {
        if self.h.abs() > 0.3 {
            return self.exp() - ONE;
        }
        let mut s = ZERO;
        let mut t = ONE;
        for i in 1..60 {
            t = t * self / d(i as f64);
            s = s + t;
            if t.h.abs() <= s.h.abs() * 1e-34 {
                break;
            }
        }
        s
    }
    pub fn ln(self) -> Dd {
        if self.h <= 0.0 {
            return if self.h == 0.0 {
                d(f64::NEG_INFINITY)
            } else {
                d(f64::NAN)
            };
        }
        if !self.h.is_finite() {
            return self;
        }
        // Normalise to [0.7, 1.42) * 2^k
        let mut k = 0i32;
        let mut m = self;
        if m.h < 1e-290 {
            m = m.scale2(300);
            k -= 300;
        }
        let e = m.h.log2().round() as i32;
        m = m.scale2(-e);
        k += e;
        // Accurate near one: ln m = 2 atanh((m-1)/(m+1)).
        let mut r = if (m.h - 1.0).abs() < 0.05 {
            m.sub_one_ln()
        } else {
            let mut y = d(m.h.ln());
            for _ in 0..2 {
                let ey = y.exp();
                y = y + d(2.0) * (m - ey) / (m + ey);
            }
            y
        };
        if k != 0 {
            r = r + LN2 * d(k as f64);
        }
        r
    }
    fn sub_one_ln(self) -> Dd {
        let v = (self - ONE) / (self + ONE);
        let v2 = v * v;
        let mut t = v;
        let mut s = v;
        let mut n = 1.0;
        while t.h != 0.0 && n < 2000.0 {
            t = t * v2;
            n += 2.0;
            let a = t / d(n);
            s = s + a;
            if a.h.abs() <= s.h.abs() * 1e-34 {
                break;
            }
        }
        s * d(2.0)
    }
    /// ln(1 + self)
    pub fn ln_1p(self) -> Dd {
        if self.h.abs() < 0.05 {
            let v = self / (d(2.0) + self);
            let v2 = v * v;
            let mut t = v;
            let mut s = v;
            let mut n = 1.0;
            while t.h != 0.0 && n < 2000.0 {
                t = t * v2;
                n += 2.0;
                let a = t / d(n);
                s = s + a;
                if a.h.abs() <= s.h.abs() * 1e-34 {
                    break;
                }
            }
            s * d(2.0)
        } else {
            (ONE + self).ln()
        }
    }
    pub fn pow(self, y: Dd) -> Dd {
        if y.h == 0.0 {
            return ONE;
        }
        if self.h == 0.0 {
            return if y.h > 0.0 { ZERO } else { d(f64::INFINITY) };
        }
        (self.ln() * y).exp()
    }
    /// Arctangent by Newton iterations on the double result, in double-double.
    pub fn atan(self) -> Dd {
        if self.h.abs() > 1.0 {
            let s = if self.h > 0.0 { 0.5 } else { -0.5 };
            return PI * d(s) - self.recip().atan();
        }
        // argument reduction: atan(x) = 2^n atan(x'), x' = x / (1 + sqrt(1 + x^2))
        let mut x = self;
        let mut k = 0;
        while x.h.abs() > 0.05 {
            x = x / (ONE + (ONE + x * x).sqrt());
            k += 1;
        }
        let x2 = x * x;
        let mut t = x;
        let mut s = x;
        let mut n = 1.0;
        while t.h != 0.0 && n < 2000.0 {
            t = -(t * x2);
            n += 2.0;
            let a = t / d(n);
            s = s + a;
            if a.h.abs() <= s.h.abs() * 1e-34 {
                break;
            }
        }
        s.scale2(k)
    }
    pub fn max(self, o: Dd) -> Dd {
        if self < o {
            o
        } else {
            self
        }
    }
}

impl Add for Dd {
    type Output = Dd;
    #[inline]
    fn add(self, o: Dd) -> Dd {
        let (s, e) = two_sum(self.h, o.h);
        if !s.is_finite() {
            return d(s);
        }
        let (t, f) = two_sum(self.l, o.l);
        let (s, e) = quick(s, e + t);
        let (h, l) = quick(s, e + f);
        Dd { h, l }
    }
}
impl Neg for Dd {
    type Output = Dd;
    #[inline]
    fn neg(self) -> Dd {
        Dd {
            h: -self.h,
            l: -self.l,
        }
    }
}
impl Sub for Dd {
    type Output = Dd;
    #[inline]
    fn sub(self, o: Dd) -> Dd {
        self + (-o)
    }
}
impl Mul for Dd {
    type Output = Dd;
    #[inline]
    fn mul(self, o: Dd) -> Dd {
        let (p, e) = two_prod(self.h, o.h);
        if !p.is_finite() || p == 0.0 {
            return d(p);
        }
        let (h, l) = quick(p, e + (self.h * o.l + self.l * o.h));
        Dd { h, l }
    }
}
impl Div for Dd {
    type Output = Dd;
    #[inline]
    fn div(self, o: Dd) -> Dd {
        let q1 = self.h / o.h;
        if !q1.is_finite() || q1 == 0.0 || !o.h.is_finite() {
            return d(q1);
        }
        let r = self - o * d(q1);
        let q2 = r.h / o.h;
        let r = r - o * d(q2);
        let q3 = r.h / o.h;
        let (h, l) = quick(q1, q2);
        let z = Dd { h, l } + d(q3);
        if z.h.is_nan() {
            return d(q1);
        }
        z
    }
}
impl PartialEq for Dd {
    fn eq(&self, o: &Dd) -> bool {
        self.h == o.h && self.l == o.l
    }
}
impl PartialOrd for Dd {
    fn partial_cmp(&self, o: &Dd) -> Option<Ordering> {
        match self.h.partial_cmp(&o.h) {
            Some(Ordering::Equal) => self.l.partial_cmp(&o.l),
            x => x,
        }
    }
}
impl From<f64> for Dd {
    fn from(x: f64) -> Dd {
        d(x)
    }
}
