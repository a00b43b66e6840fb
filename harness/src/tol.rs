//! Accuracy contract: what "to floating-point accuracy" means per family.
//! The constants were calibrated by measuring the implementation (`--stats`) and adding
//! a margin of about one order of magnitude or more. Arguments carry a backward error of a few
//! ulps (of the argument, the location and their difference), so that an equivalent
//! formulation of the same formula stays inside.
use crate::dd::*;
use crate::dist::*;

/// Backward error allowed in an argument `x` of a continuous instance.
pub fn dx(r: &R, x: f64) -> f64 {
    if !x.is_finite() {
        return 0.0;
    }
    if let P::Lognormal { mu, .. } = r.p {
        return if x > 0.0 { 8.0 * EPS * x * (2.0 + x.ln().abs() + mu.abs()) } else { 0.0 };
    }
    let (loc, _) = r.loc_scale();
    let (lo, hi) = r.support();
    if lo == 0.0 && hi.is_infinite() {
        return 16.0 * EPS * x.abs() + 1e-323;
    }
    let mut m = x.abs() + loc.abs();
    if hi.is_finite() {
        m += hi.abs();
    }
    2.0 * EPS * m + 16.0 * EPS * (x - loc).abs()
}

/// Backward error allowed in an argument that is given: the differences of the argument and the
/// parameters, which are exact, are computed without a loss.
pub fn dx_in(r: &R, x: f64) -> f64 {
    if matches!(r.p, P::Lognormal { .. }) {
        return dx(r, x);
    }
    let (loc, _) = r.loc_scale();
    let (lo, hi) = r.support();
    if !x.is_finite() {
        0.0
    } else if lo.is_finite() && hi.is_finite() {
        2.0 * EPS * (hi - lo) + 16.0 * EPS * (x - lo).abs()
    } else {
        16.0 * EPS * (x - loc).abs()
    }
}

/// Error of the derived shapes of a PERT, which depend on the differences of its parameters only.
pub fn shape_err(r: &R) -> f64 {
    match r.p {
        P::Pert { .. } => 32.0 * EPS,
        _ => 0.0,
    }
}

/// Scale of the rounding errors of log-beta / log-gamma prefactors, in ulps.
fn special_ulps(r: &R) -> f64 {
    match r.p {
        P::Beta { alpha, beta, .. } => 64.0 + 4.0 * (alpha + beta) * (alpha + beta + 2.0).ln(),
        P::Pert { .. } => 128.0,
        P::Gamma { k, .. } => 64.0 + 4.0 * k * (k + 2.0).ln(),
        P::Binomial { n, .. } | P::BinomialQ { n, .. } => 64.0 + 4.0 * n as f64 * (n as f64 + 2.0).ln(),
        _ => 8.0,
    }
}

/// Tolerance of the distribution function: (absolute, relative to the lower tail).
pub fn cdf_tol(r: &R) -> (f64, f64) {
    match r.p {
        P::Exponential { .. } | P::Logistic { .. } | P::Laplace { .. } | P::Uniform { .. } | P::Triangular { .. } => {
            (0.0, 64.0 * EPS)
        }
        P::Bernoulli { .. } | P::BernoulliQ { .. } => (0.0, 8.0 * EPS),
        P::Categorical { ref p } => (4e-12_f64.min(8.0 * EPS * p.len() as f64) + cat_defect(r), 0.0),
        _ => (special_ulps(r) * EPS + 2.0 * shape_err(r), 64.0 * EPS),
    }
}

/// Tolerance of a probability `t` of the lower tail: where the family is evaluated by a product of
/// powers and a series, the error is relative to it.
pub fn cdf_abs(r: &R, t: f64) -> f64 {
    let abs = cdf_tol(r).0;
    match r.p {
        P::Beta { .. } | P::Pert { .. } | P::Gamma { .. } | P::Binomial { .. } | P::BinomialQ { .. } if t > 0.0 && t < 1e-3 => {
            // the series of the incomplete gamma function gives up below exp(-88)
            let floor = if matches!(r.p, P::Gamma { .. }) { 1e-36 } else { 0.0 };
            abs.min(floor + t * (4.0 * special_ulps(r) * EPS + 4.0 * shape_err(r) * (2.0 - t.ln()) + 128.0 * EPS * (2.0 - t.ln())))
        }
        _ => abs,
    }
}

/// How far the given probability vector is from summing to one exactly (the constructor admits 1e-12).
pub fn cat_defect(r: &R) -> f64 {
    match r.p {
        P::Categorical { ref p } => {
            let s = p.iter().fold(ZERO, |s, &x| s + d(x)) - ONE;
            2.0 * s.f().abs()
        }
        _ => 0.0,
    }
}

/// Accepted interval for F(x), continuous families.
pub fn cdf_range(r: &R, x: f64) -> (f64, f64) {
    cdf_near(r, x, dx_in(r, x))
}

/// The same where the argument is itself the result of a computation.
pub fn cdf_range_at(r: &R, x: f64) -> (f64, f64) {
    cdf_near(r, x, dx(r, x))
}

fn cdf_near(r: &R, x: f64, e: f64) -> (f64, f64) {
    let rel = cdf_tol(r).1;
    let (l, h) = if e == 0.0 {
        let t = r.cdf(x).0.f();
        (t, t)
    } else {
        (r.cdf_dd(d(x) - d(e)).0.f(), r.cdf_dd(d(x) + d(e)).0.f())
    };
    // probabilities below the normal range may underflow
    let tiny = |x: f64| if x > 0.0 { 4.0 * f64::MIN_POSITIVE } else { 0.0 };
    (l * (1.0 - rel) - cdf_abs(r, l) - tiny(l), h * (1.0 + rel) + cdf_abs(r, h) + tiny(h))
}

/// Sum of the magnitudes of the terms that make up the log-density.
fn pdf_mag(r: &R, x: f64) -> f64 {
    let lp = r.ln_pdf_dd(d(x)).f();
    let base = 8.0 + if lp.is_finite() { lp.abs() } else { 0.0 };
    let l = |u: f64| if u > 0.0 { u.ln().abs() } else { 0.0 };
    match r.p {
        P::Beta { a, b, .. } | P::Pert { a, c: b, .. } => {
            let (al, be) = r.shapes();
            let (u, v) = ((x - a) / (b - a), (b - x) / (b - a));
            base + (al.f() - 1.0).abs() * l(u) + (be.f() - 1.0).abs() * l(v) + special_ulps(r) / 8.0
                + shape_err(r) / EPS * (2.0 + l(u) + l(v))
        }
        P::Gamma { k, theta } => base + (k - 1.0).abs() * (l(x) + l(theta)) + x / theta + special_ulps(r),
        P::Lognormal { .. } => base + l(x),
        _ => base,
    }
}

/// Accepted interval for the density at x.
pub fn pdf_range(r: &R, x: f64) -> (f64, f64) {
    pdf_near(r, x, dx_in(r, x))
}

/// The same where the argument is itself the result of a computation.
pub fn pdf_range_at(r: &R, x: f64) -> (f64, f64) {
    pdf_near(r, x, dx(r, x))
}

fn pdf_near(r: &R, x: f64, e: f64) -> (f64, f64) {
    let (lo, hi) = r.support();
    if x.is_infinite() || x < lo || x > hi {
        return (0.0, 0.0);
    }
    let c = r.pdf(x).f();
    if x == lo || x == hi {
        // The convention at an excluded endpoint of the support is open.
        let open = matches!(r.p, P::Gamma { .. } | P::Lognormal { .. });
        let t = 64.0 * EPS * pdf_mag(r, x);
        return (if open { 0.0 } else { c * (1.0 - t) }, c * (1.0 + t));
    }
    let at = |y: Dd| {
        let y = if y < d(lo) { d(lo) } else if y > d(hi) { d(hi) } else { y };
        r.ln_pdf_dd(y).exp().f()
    };
    let (p, q) = (at(d(x) - d(e)), at(d(x) + d(e)));
    let (mut mn, mut mx) = (c.min(p).min(q), c.max(p).max(q));
    if let P::Triangular { c: m, .. } = r.p {
        if (x - m).abs() <= e {
            mx = mx.max(r.pdf(m).f());
        }
    }
    let t = (32.0 * EPS * pdf_mag(r, x)).min(0.5);
    mn *= 1.0 - t;
    mx *= 1.0 + t;
    // intermediate results may underflow gradually
    let tiny = match r.p {
        P::Lognormal { sigma, .. } => 1e-300 + 1e-305 / (x * sigma),
        _ => 1e-300 + 1e-305 / r.loc_scale().1,
    };
    (mn - tiny, mx + tiny)
}

/// Relative tolerance of a binomial mass.
pub fn mass_rel(r: &R, k: u64) -> f64 {
    match r.p {
        P::Binomial { n, .. } | P::BinomialQ { n, .. } => {
            let m = r.mass(k).f();
            let l = if m > 0.0 { m.ln().abs() } else { 800.0 };
            EPS * (64.0 + 8.0 * n as f64 + 8.0 * l)
        }
        P::Categorical { .. } => 8.0 * EPS + cat_defect(r),
        _ => 8.0 * EPS,
    }
}
