//! C15: the cross product of extreme parameters, extreme arguments and all queries: every call
//! returns, without panic, something that is not NaN.
use super::*;
use crate::dist::*;
use crate::lattice::*;

static CDF: &str = "distribution";
static PDF: &str = "density";
static MASS: &str = "mass";
static INV: &str = "inverse";
static MEAN: &str = "mean";
static VAR: &str = "variance";
static DEV: &str = "deviation";
static SKEW: &str = "skewness";
static KURT: &str = "kurtosis";
static ENT: &str = "entropy";
static MED: &str = "median";
static MODES: &str = "modes";

fn args(i: &Inst, t: Tier) -> Vec<f64> {
    let mut v = vec![f64::NEG_INFINITY, f64::INFINITY, 0.0, -0.0, f64::MAX, -f64::MAX];
    let mags: &[f64] = match t {
        Tier::Quick => &[5e-324, f64::MIN_POSITIVE, 1e-200, 1e-160, 1e-20, 1e-8, 0.1, 0.5, 1.0, 2.0, 100.0, 1e6, 1e10, 1e20, 1e155, 1e300],
        _ => &[
            5e-324, 1e-323, 1e-310, f64::MIN_POSITIVE, 1e-300, 1e-250, 1e-200, 1e-160, 1e-155, 1e-100, 1e-50, 1e-20, 1e-16, 1e-12, 1e-8, 1e-4, 0.01, 0.1, 0.25, 0.5, 0.75, 0.9,
            1.0, 1.5, 2.0, 5.0, 10.0, 37.0, 100.0, 700.0, 710.0, 745.0, 750.0, 1e4, 1e6, 1e8, 1e10, 1e12, 1e16, 1e20, 1e50, 1e100, 1e154, 1e155, 1e200, 1e300,
        ],
    };
    let (l, s) = anchor(&i.p);
    for &m in mags {
        v.extend([m, -m]);
        for y in [l + s * m, l - s * m, l + m, l - m] {
            v.push(y);
        }
    }
    for e in ends(&i.p) {
        v.extend([e, up(e), dn(e)]);
    }
    v.retain(|x| !x.is_nan());
    tidy(v)
}

/// A small selection of arguments.
pub fn few_args(i: &Inst) -> Vec<f64> {
    let (l, s) = anchor(&i.p);
    let mut v = vec![f64::NEG_INFINITY, f64::INFINITY, 0.0, 1.0];
    for m in [-20.0, -3.0, -1.0, -0.1, 0.1, 0.3, 0.7, 1.0, 2.5, 8.0, 30.0] {
        v.push(l + s * m);
    }
    v.extend(ends(&i.p));
    v.retain(|x| !x.is_nan());
    tidy(v)
}

/// Location and scale.
fn anchor(p: &P) -> (f64, f64) {
    match *p {
        P::Beta { a, b, .. } => (a, b - a),
        P::Cauchy { x0, gamma } => (x0, gamma),
        P::Exponential { lambda } => (0.0, 1.0 / lambda),
        P::Gamma { k, theta } => (0.0, theta * k.max(1.0)),
        P::Gaussian { mu, sigma } => (mu, sigma),
        P::Laplace { mu, b } => (mu, b),
        P::Logistic { mu, s } => (mu, s),
        P::Lognormal { mu, sigma } => (0.0, (mu + sigma).exp()),
        P::Pert { a, c, .. } => (a, c - a),
        P::Triangular { a, b, .. } => (a, b - a),
        P::Uniform { a, b } => (a, b - a),
        P::Bernoulli { .. } | P::BernoulliQ { .. } => (0.0, 1.0),
        P::Binomial { n, p } => (n as f64 * p, 1.0 + (n as f64 * p * (1.0 - p)).sqrt()),
        P::BinomialQ { n, q } => (n as f64 * (1.0 - q), 1.0 + (n as f64 * q * (1.0 - q)).sqrt()),
        P::Categorical { ref p } => (0.0, p.len() as f64),
    }
}

fn ends(p: &P) -> Vec<f64> {
    match *p {
        P::Beta { a, b, .. } | P::Uniform { a, b } => vec![a, b, a / 2.0 + b / 2.0],
        P::Pert { a, b, c } => vec![a, b, c],
        P::Triangular { a, b, c } => vec![a, b, c],
        P::Cauchy { x0: l, gamma: s } | P::Gaussian { mu: l, sigma: s } | P::Laplace { mu: l, b: s } | P::Logistic { mu: l, s } => {
            vec![l, l + s, l - s, l + 8.0 * s, l - 40.0 * s]
        }
        P::Lognormal { mu, .. } => vec![mu.exp(), 1.0],
        P::Gamma { k, theta } => vec![k * theta, (k - 1.0) * theta, 0.0],
        P::Exponential { lambda } => vec![1.0 / lambda, 0.0],
        P::Binomial { n, .. } | P::BinomialQ { n, .. } => vec![0.0, n as f64, n as f64 / 2.0],
        P::Categorical { ref p } => vec![0.0, p.len() as f64 - 1.0, p.len() as f64],
        P::Bernoulli { .. } | P::BernoulliQ { .. } => vec![0.0, 1.0],
    }
}

fn probs(t: Tier) -> Vec<f64> {
    let mut v = vec![0.0, 5e-324, 1e-300, 1e-100, 1e-20, 1e-10, 1e-5, 0.01, 0.1, 0.25, dn(0.5), 0.5, up(0.5), 0.75, 0.9, 0.999, 1.0 - 1e-10, dn(1.0), 1.0];
    if t != Tier::Quick {
        v.extend([f64::MIN_POSITIVE, 1e-200, 1e-50, 1e-16, 1e-15, 1e-9, 1e-8, 1e-3, 0.05, 0.2, 0.28, 0.3, 0.35, 0.4, 0.45, 0.55, 0.6, 0.65, 0.7, 0.8, 0.95, 0.99, 1.0 - 1e-5, 1.0 - 1e-12, 1.0 - 1e-15]);
    }
    tidy(v)
}

fn counts(n: u64, mean: f64, sd: f64, t: Tier) -> Vec<u64> {
    let mut v = vec![0, 1, 2, n / 4, n / 2, n - n / 4, n.saturating_sub(2), n.saturating_sub(1), n];
    for s in [-40.0, -8.0, -1.0, 0.0, 1.0, 8.0, 40.0] {
        let x = mean + s * sd;
        if x >= 0.0 && x <= n as f64 {
            v.push((x as u64).min(n));
        }
    }
    if t != Tier::Quick {
        v.extend((0..64).map(|k| 1u64 << k));
        v.extend((0..64).map(|k| n.saturating_sub(1u64 << k)));
        v.extend(3..40);
    }
    v.retain(|k| *k <= n);
    v.sort();
    v.dedup();
    v
}

pub fn queries(w: &W, i: &'static Inst) {
    let t = w.ctx.tier;
    w.outcome(i.p.family(), 1);
    let nan = |func: &'static str, arg: f64, got: Option<f64>| {
        w.state(1);
        w.trans(1);
        w.trace(1);
        if let Some(g) = got {
            if g.is_nan() {
                w.fail(i, func, arg, "not a number".into(), g);
            }
        }
    };
    for x in args(i, t) {
        nan(CDF, x, w.call(i, &CDF, x, || i.d.cdf(x)));
        if !i.p.discrete() {
            nan(PDF, x, w.call(i, &PDF, x, || i.d.pdf(x)));
        }
    }
    if i.p.discrete() {
        let (n, m, s) = match i.p {
            P::Binomial { n, .. } | P::BinomialQ { n, .. } => (n as u64, anchor(&i.p).0, anchor(&i.p).1),
            P::Categorical { ref p } => (p.len() as u64 - 1, 0.0, 1.0),
            _ => (1, 0.0, 1.0),
        };
        for k in counts(n, m, s, t) {
            nan(MASS, k as f64, w.call(i, &MASS, k as f64, || i.d.mass(k as usize)));
        }
        if !matches!(i.p, P::Categorical { .. }) {
            for k in [n.saturating_add(1), n.saturating_add(100), 255, u64::MAX] {
                nan(MASS, k as f64, w.call(i, &MASS, k as f64, || i.d.mass(k as usize)));
            }
        }
    }
    if i.d.has_inverse() {
        for p in probs(t) {
            nan(INV, p, w.call(i, &INV, p, || i.d.inverse(p)));
        }
    }
    let one = |f: &'static &'static str, g: &dyn Fn() -> Option<f64>| {
        if let Some(Some(v)) = w.call(i, f, NOARG, || g()) {
            nan(*f, NOARG, Some(v));
        }
    };
    one(&MEAN, &|| i.d.mean());
    one(&VAR, &|| i.d.variance());
    one(&DEV, &|| i.d.deviation());
    // a distribution concentrated at one outcome has no standardised moments
    let degenerate = match i.p {
        P::Binomial { n, .. } | P::BinomialQ { n, .. } => n == 0,
        P::Categorical { ref p } => p.iter().any(|x| *x == 1.0),
        _ => false,
    };
    if !degenerate {
        one(&SKEW, &|| i.d.skewness());
        one(&KURT, &|| i.d.kurtosis());
    }
    one(&ENT, &|| Some(i.d.entropy()));
    one(&MED, &|| i.d.median());
    if let Some(Some(v)) = w.call(i, &MODES, NOARG, || i.d.modes()) {
        for x in v {
            nan(MODES, NOARG, Some(x));
        }
    }
}

/// The vectors of the domain whose magnitudes (and widths) are zero or within [1e-150, 1e150], with shapes
/// within [1e-6, 1e9] (of betas within [1e-3, 1e6], at most a factor of 1e4 apart) and at most 2^40 trials.
pub fn domain(t: Tier) -> Vec<P> {
    let mag = |x: f64| x == 0.0 || x.abs() >= 1e-150 && x.abs() <= 1e150;
    let sh = |x: f64| x >= 1e-6 && x <= 1e9;
    let ok = |p: &P| match *p {
        P::Beta { alpha, beta, a, b } => mag(a) && mag(b) && mag(b - a) && alpha.min(beta) >= 1e-3 && alpha.max(beta) <= 1e6 && alpha.max(beta) <= 1e4 * alpha.min(beta),
        P::Uniform { a, b } => mag(a) && mag(b) && mag(b - a),
        P::Triangular { a, b, c } => mag(a) && mag(b) && mag(c) && mag(b - a) && mag(b - c) && mag(c - a),
        P::Pert { a, b, c } => mag(a) && mag(b) && mag(c) && mag(c - a) && mag(b - a) && mag(c - b),
        P::Gamma { k, theta } => mag(theta) && sh(k),
        P::Binomial { n, .. } | P::BinomialQ { n, .. } => n <= 1 << 40,
        P::Cauchy { x0: l, gamma: s } | P::Gaussian { mu: l, sigma: s } | P::Laplace { mu: l, b: s } | P::Logistic { mu: l, s } | P::Lognormal { mu: l, sigma: s } => {
            mag(l) && mag(s)
        }
        P::Exponential { lambda } => mag(lambda),
        _ => true,
    };
    super::c14::domain(t).into_iter().filter(ok).collect()
}

pub fn run(ctx: &'static Ctx) -> Outcome {
    let insts = ctx.bare_instances(domain(ctx.tier));
    ctx.run(chunked(insts, 8, queries));
    (
        "every vector of the lattice of C14 within the domain of the property x every argument of a lattice of magnitudes (subnormal to largest, either sign, around location and scale, all ends and their neighbours), every count of a lattice of outcomes, every probability of a lattice (0 and 1, subnormal, neighbours of 1/2 and 1), every query; no answer NaN, no panic, no call beyond the watchdog's limit".into(),
        true,
        vec!["overflow checks and assertions are enabled; a call that does not return within the watchdog's limit is taken to loop".into()],
    )
}
