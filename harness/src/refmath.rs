//! Special functions of the reference model, in double-double arithmetic.
//! Deliberately different algorithms from the `special` crate (continued
//! fractions, Stirling series with argument shift); validated against mpmath
//! by tools/validate_reference.py.
use crate::dd::*;

fn bern(k: usize) -> Dd {
    // B_{2k} for k = 1..=15 as exact fractions
    const B: [(f64, f64); 15] = [
        (1.0, 6.0),
        (-1.0, 30.0),
        (1.0, 42.0),
        (-1.0, 30.0),
        (5.0, 66.0),
        (-691.0, 2730.0),
        (7.0, 6.0),
        (-3617.0, 510.0),
        (43867.0, 798.0),
        (-174611.0, 330.0),
        (854513.0, 138.0),
        (-236364091.0, 2730.0),
        (8553103.0, 6.0),
        (-23749461029.0, 870.0),
        (8615841276005.0, 14322.0),
    ];
    let (a, b) = B[k - 1];
    q(a, b)
}

/// ln Gamma(x), x > 0.
pub fn ln_gamma(x: Dd) -> Dd {
    let mut x = x;
    let mut shift = ONE;
    let mut shift_ln = ZERO;
    // shift to x >= 40, multiplying up the product (flushed to logs to avoid overflow)
    while x.h < 40.0 {
        shift = shift * x;
        if shift.h > 1e200 || shift.h < 1e-200 {
            shift_ln = shift_ln + shift.ln();
            shift = ONE;
        }
        x = x + ONE;
    }
    let xi = x.recip();
    let x2 = xi * xi;
    let mut p = xi;
    let mut s = ZERO;
    for k in 1..=15 {
        let kk = 2.0 * k as f64;
        let t = bern(k) / d(kk * (kk - 1.0)) * p;
        s = s + t;
        if t.h.abs() < 1e-36 {
            break;
        }
        p = p * x2;
    }
    let half = d(0.5);
    (x - half) * x.ln() - x + half * (PI * d(2.0)).ln() + s - shift.ln() - shift_ln
}

/// digamma(x), x > 0.
pub fn digamma(x: Dd) -> Dd {
    let mut x = x;
    let mut s = ZERO;
    while x.h < 40.0 {
        s = s - x.recip();
        x = x + ONE;
    }
    let xi = x.recip();
    let x2 = xi * xi;
    let mut p = x2;
    let mut r = x.ln() - xi * d(0.5);
    for k in 1..=15 {
        let t = bern(k) / d(2.0 * k as f64) * p;
        r = r - t;
        if t.h.abs() < 1e-36 {
            break;
        }
        p = p * x2;
    }
    r + s
}

/// (1 - erfc(z)/2, erfc(z)/2) = standard normal lower/upper tail at z*sqrt(2), as (cdf, sf).
pub fn normal_tails(z: Dd) -> (Dd, Dd) {
    // z is the standardised argument x
    let neg = z.h < 0.0;
    let x = z.abs();
    let (lo, hi); // for |x|: lower, upper
    if x.h > 40.0 {
        hi = ZERO;
        lo = ONE;
    } else if x.h < 5.0 {
        // Phi(x) - 1/2 = phi(x) * sum x^(2n+1)/(2n+1)!!
        let x2 = x * x;
        let mut t = x;
        let mut s = x;
        let mut n = 1.0;
        while t.h != 0.0 && n < 2000.0 {
            n += 2.0;
            t = t * x2 / d(n);
            s = s + t;
            if t.h <= s.h * 1e-34 {
                break;
            }
        }
        let phi = (-(x2 * d(0.5))).exp() / (PI * d(2.0)).sqrt();
        let h = phi * s;
        lo = d(0.5) + h;
        hi = d(0.5) - h;
    } else {
        // Mills ratio by continued fraction, evaluated backwards: 1/(x+1/(x+2/(x+3/...)))
        let mut f = x;
        for k in (1..=200).rev() {
            f = x + d(k as f64) / f;
        }
        let phi = (-(x * x * d(0.5))).exp() / (PI * d(2.0)).sqrt();
        hi = phi / f;
        lo = ONE - hi;
    }
    if neg {
        (hi, lo)
    } else {
        (lo, hi)
    }
}

/// Regularised incomplete gamma: (P(k, x), Q(k, x)).
pub fn inc_gamma(k: Dd, x: Dd) -> (Dd, Dd) {
    if x.h <= 0.0 {
        return (ZERO, ONE);
    }
    if !x.h.is_finite() {
        return (ONE, ZERO);
    }
    let lp = k * x.ln() - x - ln_gamma(k);
    if x.h > k.h + 1.0 && lp.h < -800.0 {
        return (ONE, ZERO);
    }
    if x.h < k.h + 1.0 {
        let mut a = k;
        let mut t = k.recip();
        let mut s = t;
        for _ in 0..2_000_000 {
            a = a + ONE;
            t = t * x / a;
            s = s + t;
            if t.h <= s.h * 1e-31 {
                break;
            }
        }
        let p = s * lp.exp();
        (p, ONE - p)
    } else {
        // Lentz for Q
        let tiny = d(1e-200);
        let mut b = x + ONE - k;
        let mut cc = tiny.recip();
        let mut dd = b.recip();
        let mut h = dd;
        for i in 1..2_000_000 {
            let i = i as f64;
            let an = -(d(i) * (d(i) - k));
            b = b + d(2.0);
            dd = an * dd + b;
            if dd.h.abs() < 1e-200 {
                dd = tiny;
            }
            cc = b + an / cc;
            if cc.h.abs() < 1e-200 {
                cc = tiny;
            }
            dd = dd.recip();
            let del = dd * cc;
            h = h * del;
            if (del - ONE).f().abs() < 1e-29 {
                break;
            }
        }
        let qv = h * lp.exp();
        (ONE - qv, qv)
    }
}

/// ln B(a, b)
pub fn ln_beta(a: Dd, b: Dd) -> Dd {
    ln_gamma(a) + ln_gamma(b) - ln_gamma(a + b)
}

fn beta_cf(a: Dd, b: Dd, x: Dd) -> Dd {
    let tiny = 1e-200;
    let qab = a + b;
    let qap = a + ONE;
    let qam = a - ONE;
    let fix = |v: Dd| if v.h.abs() < tiny { d(tiny) } else { v };
    let mut cc = ONE;
    let mut dv = fix(ONE - qab * x / qap).recip();
    let mut h = dv;
    for m in 1..200_000 {
        let m = m as f64;
        let m2 = d(2.0 * m);
        let dm = d(m);
        let aa = dm * (b - dm) * x / ((qam + m2) * (a + m2));
        dv = fix(ONE + aa * dv).recip();
        cc = fix(ONE + aa / cc);
        h = h * dv * cc;
        let aa = -((a + dm) * (qab + dm) * x / ((a + m2) * (qap + m2)));
        dv = fix(ONE + aa * dv).recip();
        cc = fix(ONE + aa / cc);
        let del = dv * cc;
        h = h * del;
        if (del - ONE).f().abs() < 1e-29 {
            break;
        }
    }
    h
}

/// Regularised incomplete beta (I_x(a,b), 1 - I_x(a,b)); y must be 1 - x.
pub fn inc_beta(a: Dd, b: Dd, x: Dd, y: Dd, lnb: Dd) -> (Dd, Dd) {
    if x.h <= 0.0 {
        return (ZERO, ONE);
    }
    if y.h <= 0.0 {
        return (ONE, ZERO);
    }
    let lp = a * x.ln() + b * y.ln() - lnb;
    let pre = lp.exp();
    if x * (a + b + d(2.0)) < a + ONE {
        let p = pre * beta_cf(a, b, x) / a;
        (p, ONE - p)
    } else {
        let p = pre * beta_cf(b, a, y) / b;
        (ONE - p, p)
    }
}

/// ln n! and ln C(n, k) through ln_gamma.
pub fn ln_choose(n: u64, k: u64) -> Dd {
    let (n, k) = (n as f64, k as f64);
    ln_gamma(d(n) + ONE) - ln_gamma(d(k) + ONE) - ln_gamma(d(n) - d(k) + ONE)
}
