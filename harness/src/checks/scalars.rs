//! C04-C08: moments, entropy, median, modes of every parameter vector of the lattice.
use super::*;
use crate::dd::*;
use crate::dist::*;
use crate::lattice::*;
use crate::tol::*;

static MEAN: &str = "mean";
static VAR: &str = "variance";
static DEV: &str = "deviation";
static SKEW: &str = "skewness";
static KURT: &str = "kurtosis";
static ENT: &str = "entropy";
static MED: &str = "median";
static MODES: &str = "modes";

pub const REF: &str = "double-double reference model of the closed forms (validated against mpmath)";

fn bounds(what: &str) -> String {
    format!("every parameter vector of the scalar lattice (families x shapes x locations x scales): {}", what)
}

/// |got - t| <= tol, with equal infinities accepted; reports.
static SFE11_ENT: &str = "Binomial.entropy/stirling-error-table-entry-11";

/// Below the range of normal numbers digits are lost.
const FLOOR: f64 = 4.0 * f64::MIN_POSITIVE;

fn close(w: &W, i: &'static Inst, f: &'static &'static str, got: f64, t: f64, tol: f64) {
    w.state(1);
    w.trace(1);
    w.outcome(&format!("{} {}", i.p.family(), f), 1);
    if got == t {
        return;
    }
    let err = (got - t).abs();
    if t.is_finite() {
        w.stat(|| format!("{} {}", i.p.family(), f), err / tol.max(FLOOR), || format!("{} {:?} vs {:?}", i.key, got, t));
    }
    // a value at the edge of the range may round either way
    if t.abs() > 1e307 && got.is_infinite() && got.signum() == t.signum() || t.is_infinite() && got.abs() > 1e307 && got.signum() == t.signum() {
        return;
    }
    if !(err <= tol.max(FLOOR)) {
        w.fail(i, f, NOARG, format!("the value of the model is {:?}", t), got);
    }
}

/// Relative error of an interval width computed from its ends.
fn width_err(r: &R) -> f64 {
    match r.p {
        P::Beta { .. } | P::Pert { .. } | P::Triangular { .. } | P::Uniform { .. } => 2.0 * EPS,
        _ => 0.0,
    }
}

/// Relative accuracy of the lognormal's exponentials.
fn exp_amp(r: &R) -> f64 {
    match r.p {
        P::Lognormal { mu, sigma } => 2.0 * mu.abs() + 4.0 * sigma * sigma,
        _ => 0.0,
    }
}

/// One outcome is certain up to less than rounding, so that the mean is that outcome in any order of
/// summation, and the moments about it lose no digits.
fn cat_certain(r: &R) -> bool {
    match r.p {
        P::Categorical { ref p } => {
            let k = p.len() as f64;
            p.contains(&1.0) && p.iter().filter(|&&x| x != 1.0).sum::<f64>() * k < 1e-20
        }
        _ => false,
    }
}

fn cat_len(r: &R) -> f64 {
    match r.p {
        P::Categorical { ref p } => p.len() as f64,
        _ => 0.0,
    }
}

/// Scales the squares of which overflow or underflow.
fn extreme_scales() -> Vec<P> {
    let mut v = vec![];
    for s in [1e-300, 1e-200, 1e-170, 1e-155, 1e155, 1e170, 1e200, 1e300] {
        for m in [0.0, 1.0, -s] {
            v.push(P::Gaussian { mu: m, sigma: s });
            v.push(P::Laplace { mu: m, b: s });
        }
        v.push(P::Exponential { lambda: s });
    }
    v
}

pub fn c04(ctx: &'static Ctx) -> Outcome {
    let mut ps = scalar(ctx.tier.up());
    ps.extend(extreme_scales());
    let insts = ctx.instances(ps);
    ctx.run(chunked(insts, 64, |w, i| {
        let r = &i.r;
        let k = cat_len(r);
        if let Some(t) = r.mean() {
            if let Some(g) = w.call(i, &MEAN, NOARG, || i.d.mean().unwrap()) {
                let t = t.f();
                let (lo, hi) = r.support();
                let tol = match i.p {
                    P::Beta { a, b, .. } | P::Pert { a, c: b, .. } | P::Triangular { a, b, .. } | P::Uniform { a, b } => {
                        8.0 * EPS * (a.abs() + b.abs()) + shape_err(r) * (b - a)
                    }
                    P::Categorical { .. } => (8.0 + 2.0 * k) * EPS * t + cat_defect(r) * k,
                    P::Lognormal { .. } => t * EPS * (16.0 + 2.0 * exp_amp(r)),
                    _ => 16.0 * EPS * t.abs(),
                };
                close(w, i, &MEAN, g, t, tol);
                if !(g >= lo - tol && g <= hi + tol) {
                    w.fail(i, MEAN, NOARG, format!("outside the support [{:?}, {:?}]", lo, hi), g);
                }
            }
        }
        if let Some(t) = r.variance() {
            let t = t.f();
            let tol = match i.p {
                P::Categorical { .. } if cat_certain(r) => 64.0 * k * EPS * t,
                P::Categorical { .. } => (32.0 + 8.0 * k) * EPS * t + cat_defect(r) * k * k + 1e-30,
                P::Lognormal { .. } => t * EPS * (32.0 + 4.0 * exp_amp(r)),
                _ => t * (32.0 * EPS + 4.0 * width_err(r) + 4.0 * shape_err(r)),
            };
            let got = w.call(i, &VAR, NOARG, || i.d.variance().unwrap());
            if let Some(g) = got {
                close(w, i, &VAR, g, t, tol);
                if !(g > 0.0) && t > 1e-300 {
                    w.fail(i, VAR, NOARG, format!("not positive; the value of the model is {:?}", t), g);
                }
            }
            if let Some(g) = w.call(i, &DEV, NOARG, || i.d.deviation().unwrap()) {
                let s = t.sqrt();
                let st = if s > 0.0 { tol / s + 8.0 * EPS * s } else { 1e-15 };
                // the deviation may be finite where the variance overflows or underflows
                if t.is_infinite() || t < 1e-290 {
                    if let Some(v) = got {
                        let own = match i.p {
                            P::Gaussian { sigma, .. } => Some(sigma),
                            P::Laplace { b, .. } => Some(b * std::f64::consts::SQRT_2),
                            P::Exponential { lambda } => Some(1.0 / lambda),
                            _ => None,
                        };
                        // these have a closed form that neither overflows nor underflows
                        if let Some(s) = own {
                            close(w, i, &DEV, g, s, 16.0 * EPS * s);
                            return;
                        }
                        let exact = r.variance().unwrap().sqrt().f();
                        if g != v.sqrt() && !((g - exact).abs() <= 1e-9 * exact) && t > 0.0 {
                            if !(t.is_infinite() && g > 1e150) {
                                w.fail(i, DEV, NOARG, "not the square root of the variance".into(), g);
                            }
                        }
                    }
                } else {
                    close(w, i, &DEV, g, s, st);
                }
            }
        }
    }));
    (bounds("mean, variance and deviation against the model's moments"), true, vec![REF])
}

fn degenerate(i: &Inst) -> bool {
    match i.p {
        P::Categorical { .. } => i.r.variance().unwrap().f() <= 0.0,
        P::Binomial { n, .. } | P::BinomialQ { n, .. } => n == 0,
        _ => false,
    }
}

pub fn c05(ctx: &'static Ctx) -> Outcome {
    let insts = ctx.instances(scalar(ctx.tier.up()));
    ctx.run(chunked(insts, 64, |w, i| {
        let r = &i.r;
        if r.skewness().is_none() || degenerate(i) {
            return;
        }
        let k = cat_len(r);
        let (s, ku) = (r.skewness().unwrap().f(), r.kurtosis().unwrap().f());
        let sd = r.variance().unwrap().sqrt().f();
        let we = width_err(r);
        let (ts, tk) = match i.p {
            P::Bernoulli { .. } | P::BernoulliQ { .. } => {
                (16.0 * EPS * (s.abs() + 1.0 / sd), 16.0 * EPS * (ku.abs() + 6.0 + 1.0 / (sd * sd)))
            }
            P::Binomial { n, .. } | P::BinomialQ { n, .. } => {
                (16.0 * EPS * (s.abs() + 1.0 / sd), 16.0 * EPS * (ku.abs() + 6.0 / n as f64 + 1.0 / (sd * sd)))
            }
            P::Categorical { .. } if cat_certain(r) => (64.0 * k * EPS * s.abs(), 64.0 * k * EPS * (ku.abs() + 3.0)),
            P::Categorical { .. } => {
                let mu = r.mean().unwrap().f();
                let c = (32.0 + 8.0 * k) * EPS * (1.0 + (1.0 + mu.min(k - 1.0 - mu).max(1e-16)) / sd * 1.0) + cat_defect(r) * k / sd.min(1.0);
                (c * (s.abs() + 1.0), c * (ku.abs() + 3.0 + s.abs()) * 2.0)
            }
            P::Beta { alpha, beta, .. } => {
                let sum = alpha + beta;
                let prod = alpha * beta;
                let big = 6.0 * ((alpha - beta).powi(2) * (sum + 1.0) / prod + sum + 2.0) / ((sum + 2.0) * (sum + 3.0));
                (32.0 * EPS * s.abs(), 32.0 * EPS * big)
            }
            P::Pert { .. } => {
                let se = 4.0 * shape_err(r) + 32.0 * EPS;
                (se * (1.0 + s.abs()), se * 4.0)
            }
            P::Triangular { .. } => ((64.0 * EPS + 8.0 * we) * (1.0 + s.abs()), 4.0 * EPS),
            P::Lognormal { .. } => (s * EPS * (32.0 + 2.0 * exp_amp(r)), ku * EPS * (32.0 + 2.0 * exp_amp(r))),
            _ => (16.0 * EPS * s.abs(), 16.0 * EPS * ku.abs()),
        };
        if let Some(g) = w.call(i, &SKEW, NOARG, || i.d.skewness().unwrap()) {
            close(w, i, &SKEW, g, s, ts);
        }
        if let Some(g) = w.call(i, &KURT, NOARG, || i.d.kurtosis().unwrap()) {
            close(w, i, &KURT, g, ku, tk);
        }
    }));
    (bounds("skewness and excess kurtosis against the model's standardised central moments"), true, vec![REF])
}

pub fn c06(ctx: &'static Ctx) -> Outcome {
    let insts = ctx.instances(scalar(ctx.tier.up()));
    ctx.run(chunked(insts, 16, |w, i| {
        let r = &i.r;
        let g = match w.call(i, &ENT, NOARG, || i.d.entropy()) {
            Some(g) => g,
            None => return,
        };
        let t = r.entropy().f();
        let l = |x: f64| x.ln().abs();
        let tol = match i.p {
            P::Beta { alpha, beta, a, b } => {
                let s = alpha + beta;
                EPS * (64.0 + 8.0 * l(b - a) + 8.0 * (s + 2.0) * (2.0 + s.ln().abs()) + 8.0 / alpha + 8.0 / beta) + width_err(r)
                    + 1e-12 * (alpha - 1.0).abs().max((beta - 1.0).abs()).min(1.0)
            }
            P::Pert { a, c, .. } => EPS * (256.0 + 8.0 * l(c - a)) + width_err(r) + 8.0 * shape_err(r) + 1e-12,
            P::Gamma { k, theta } => EPS * (64.0 + 8.0 * (k + 2.0) * (2.0 + l(k)) + 8.0 * l(theta) + 8.0 / k) + 1e-12 * (k - 1.0).abs().min(1.0),
            P::Binomial { n, .. } | P::BinomialQ { n, .. } => {
                let v = r.variance().unwrap().f();
                if n > 10000 && v > 80.0 * (1.0 - 1e-9) {
                    0.4 / v
                } else {
                    EPS * (64.0 + 64.0 * n as f64)
                }
            }
            P::Categorical { ref p } => EPS * 16.0 * (p.len() as f64 + 4.0) * (1.0 + t) + 2.0 * cat_defect(r) * (1.0 + t),
            P::Bernoulli { .. } | P::BernoulliQ { .. } => 8.0 * EPS * t.max(1e-300),
            P::Triangular { a, b, .. } | P::Uniform { a, b } => 16.0 * EPS * (1.0 + l(b - a)) + width_err(r),
            P::Lognormal { mu, sigma } => 16.0 * EPS * (4.0 + mu.abs() + l(sigma)),
            P::Cauchy { gamma: x, .. } | P::Laplace { b: x, .. } | P::Logistic { s: x, .. } | P::Gaussian { sigma: x, .. } => {
                32.0 * EPS * (4.0 + l(x))
            }
            P::Exponential { lambda } => 16.0 * EPS * (2.0 + l(lambda)),
        };
        // BernoulliQ / tiny p: the complementary logarithm carries its own rounding
        let tol = if matches!(i.p, P::Bernoulli { .. } | P::BernoulliQ { .. }) { tol + 2.0 * EPS } else { tol };
        if let Some(u) = r.entropy_listed_defect(&|| t) {
            if !((g - t).abs() <= tol) && (g - u).abs() <= tol + (u - t).abs() * 1e-6 {
                w.state(1);
                w.trace(1);
                w.ctx.fail(SFE11_ENT.into(), format!("{} is {:?} instead of {:?}", i.key, g, t), "known-form".into());
                return;
            }
        }
        close(w, i, &ENT, g, t, tol);
        if !g.is_finite() {
            w.fail(i, ENT, NOARG, format!("not finite; the value of the model is {:?}", t), g);
        }
        if i.p.discrete() && g < -tol {
            w.fail(i, ENT, NOARG, "negative".into(), g);
        }
    }));
    (
        bounds("entropy against the model (sums of -p ln p for discrete families, closed forms with double-double special functions otherwise)"),
        true,
        vec![REF],
    )
}

pub fn c07(ctx: &'static Ctx) -> Outcome {
    let insts = ctx.instances(scalar(ctx.tier.up())).into_iter().filter(|i| i.d.median_offered()).collect();
    ctx.run(chunked(insts, 16, |w, i| {
        let m = match w.call(i, &MED, NOARG, || i.d.median().unwrap()) {
            Some(m) => m,
            None => return,
        };
        w.state(1);
        w.trace(1);
        w.outcome(i.p.family(), 1);
        let r = &i.r;
        let (lo, hi) = r.support();
        let (abs, rel) = cdf_tol(r);
        if !i.p.discrete() && !(m >= lo - dx(r, lo) && m <= hi + dx(r, hi)) {
            w.fail(i, MED, NOARG, format!("outside the support [{:?}, {:?}]", lo, hi), m);
            return;
        }
        if i.p.discrete() {
            let tol = abs + rel + 4.0 * EPS;
            let below = r.cdf(m).0.f(); // P(X <= m)
            let above = ONE - r.cdf_k(m.ceil() as i64 - 1).0; // P(X >= m)
            let above = above.f();
            w.stat(|| format!("{} deficit/tol", i.p.family()), (0.5 - below).max(0.5 - above).max(0.0) / tol, || i.key.clone());
            if !(below >= 0.5 - tol && above >= 0.5 - tol && m >= lo && m <= hi) {
                let key = tie_signature(i, m);
                let what = format!("P(X <= m) = {:?}, P(X >= m) = {:?}", below, above);
                match key {
                    Some(k) => w.ctx.fail(k, what, "known-form".into()),
                    None => w.fail(i, MED, NOARG, what, m),
                }
            }
            return;
        }
        if let (P::Lognormal { mu, .. }, true) = (&i.p, m.is_infinite()) {
            if d(*mu).exp().f().is_infinite() {
                return; // the median itself overflows
            }
        }
        let e = dx(r, m) + 5e-324;
        let f0 = r.cdf_dd(d(m) - d(e)).0.f();
        let f1 = r.cdf_dd(d(m) + d(e)).0.f();
        let mut tol = abs + rel + 1e-13;
        if let P::Beta { alpha, beta, a, b } = i.p {
            tol += 1e-11;
            if alpha > 1.0 && beta > 1.0 && alpha != beta {
                let k = a + (b - a) * (alpha - 1.0 / 3.0) / (alpha + beta - 2.0 / 3.0);
                tol += (r.cdf(k).0.f() - 0.5).abs();
            }
        }
        w.stat(|| format!("{} off/tol", i.p.family()), (0.5 - f1).max(f0 - 0.5).max(0.0) / tol, || format!("{} {:?}", i.key, m));
        if !(f1 >= 0.5 - tol && f0 <= 0.5 + tol) {
            w.fail(i, MED, NOARG, format!("the CDF there is {:?}", r.cdf(m).0.f()), m);
        }
    }));
    (bounds("P(X <= m) >= 1/2 and P(X >= m) >= 1/2 under the model, m the reported median"), true, vec![REF])
}

/// The one listed defect of the categorical median: an exact tie at one half after category
/// i >= 1 is reported as i - 1/2 instead of i + 1/2.
fn tie_signature(i: &Inst, m: f64) -> Option<String> {
    if let P::Categorical { ref p } = i.p {
        let mut s = 0.0;
        for (j, x) in p.iter().enumerate() {
            s += x;
            if s == 0.5 && j >= 1 && m == j as f64 - 0.5 && p[j] > 0.0 {
                return Some("Categorical.median/tie-after-category-i>=1/returned-i-1/2".into());
            }
            if s >= 0.5 {
                break;
            }
        }
    }
    None
}

pub fn c08(ctx: &'static Ctx) -> Outcome {
    let insts = ctx.instances(scalar(ctx.tier.up())).into_iter().filter(|i| !matches!(i.p, P::Uniform { .. })).collect();
    ctx.run(chunked(insts, 64, |w, i| {
        let m = match w.call(i, &MODES, NOARG, || i.d.modes().unwrap()) {
            Some(m) => m,
            None => return,
        };
        w.state(1);
        w.trace(1);
        w.outcome(i.p.family(), 1);
        let ok: Vec<Vec<(f64, f64)>>; // accepted alternatives, each a list of (value, tolerance)
        let ex = |v: &[f64]| v.iter().map(|&x| (x, 0.0)).collect::<Vec<_>>();
        match i.p {
            P::Bernoulli { .. } | P::BernoulliQ { .. } => {
                let df = (i.r.sp() - i.r.sq()).f();
                ok = if df == 0.0 {
                    vec![ex(&[0.0, 1.0])]
                } else if df.abs() <= 2.0 * EPS {
                    vec![ex(&[0.0, 1.0]), ex(&[if df > 0.0 { 1.0 } else { 0.0 }])]
                } else {
                    vec![ex(&[if df > 0.0 { 1.0 } else { 0.0 }])]
                };
            }
            P::Binomial { n, .. } | P::BinomialQ { n, .. } => {
                let nn = n as f64;
                let rr = i.r.sp() * d(nn + 1.0);
                let near = rr.f().round();
                let off = (rr - d(near)).f();
                let slack = 4.0 * EPS * (nn + 1.0);
                let mut v = vec![];
                if off.abs() <= slack && near >= 1.0 && near <= nn {
                    v.push(ex(&[near - 1.0, near]));
                    if off > 0.0 {
                        v.push(ex(&[near]));
                    } else if off < 0.0 {
                        v.push(ex(&[near - 1.0]));
                    }
                } else {
                    let mut f = rr.f().floor();
                    if off == 0.0 {
                        f = near;
                    }
                    v.push(ex(&[f.min(nn)]));
                }
                // both neighbours, as reported for an exact tie of the rounded product
                ok = v;
            }
            P::Categorical { ref p } => {
                let mx = p.iter().cloned().fold(0.0, f64::max);
                ok = vec![ex(&p.iter().enumerate().filter(|x| *x.1 == mx).map(|x| x.0 as f64).collect::<Vec<_>>())];
            }
            P::Beta { alpha, beta, a, b } => {
                ok = vec![if alpha == 1.0 && beta == 1.0 {
                    vec![]
                } else if alpha < 1.0 && beta < 1.0 {
                    ex(&[a, b])
                } else if alpha <= 1.0 && beta >= 1.0 {
                    ex(&[a])
                } else if alpha >= 1.0 && beta <= 1.0 {
                    ex(&[b])
                } else {
                    let t = d(a) + (d(b) - d(a)) * (d(alpha) - ONE) / (d(alpha) + d(beta) - d(2.0));
                    let c = 1.0 / (alpha + beta - 2.0);
                    vec![(t.f(), 8.0 * EPS * (a.abs() + b.abs()) + 8.0 * EPS * (b - a) * (1.0 + c))]
                }]
            }
            P::Gamma { k, theta } => {
                ok = if k < 1.0 { vec![vec![], ex(&[0.0])] } else { vec![vec![((k - 1.0) * theta, 8.0 * EPS * k * theta)]] }
            }
            P::Lognormal { mu, sigma } => {
                let t = (d(mu) - d(sigma).sq()).exp().f();
                ok = vec![vec![(t, t * EPS * (16.0 + 4.0 * (mu.abs() + sigma * sigma)) + 5e-324)]];
            }
            P::Exponential { .. } => ok = vec![ex(&[0.0])],
            P::Cauchy { x0: m, .. } | P::Gaussian { mu: m, .. } | P::Laplace { mu: m, .. } | P::Logistic { mu: m, .. } => {
                ok = vec![ex(&[m])]
            }
            P::Pert { b, .. } => ok = vec![ex(&[b])],
            P::Triangular { c, .. } => ok = vec![ex(&[c])],
            P::Uniform { .. } => unreachable!(),
        }
        let good = ok.iter().any(|e| e.len() == m.len() && e.iter().zip(&m).all(|(e, g)| *g == e.0 || (g - e.0).abs() <= e.1));
        if !good {
            w.ctx.fail(case_key(&i.key, MODES, NOARG), format!("the model has modes {:?}", ok), format!("{:?}", m));
        }
    }));
    (bounds("the exact list of modes against the maximisers of the model's density or mass"), true, vec![REF])
}
