//! C03: the inverse is the quantile function for every probability of the lattice, in order.
use super::*;
use crate::dd::*;
use crate::dist::*;
use crate::lattice::*;
use crate::tol::*;

static F: &str = "inverse";

pub fn run(ctx: &'static Ctx) -> Outcome {
    let insts = ctx.instances(all(ctx.tier.up())).into_iter().filter(|i| i.d.has_inverse()).collect();
    ctx.run(per_inst(insts, |w, i| if i.p.discrete() { discrete(w, i) } else { continuous(w, i) }));
    (
        "every parameter vector of the lattice x every probability of the p-lattice (dyadic grid, approach to 0 and \
         1 in powers of two, +-ulps around regime switches, and for discrete families the library's own CDF values \
         +-ulps)"
            .into(),
        true,
        vec!["double-double reference model of the CDF (validated against mpmath)"],
    )
}

/// (absolute part relative to min(p, 1-p), tolerance on p itself)
fn p_tol(r: &R, p: f64) -> f64 {
    let m = p.min(1.0 - p);
    match r.p {
        P::Beta { .. } | P::Pert { .. } => cdf_abs(r, p) + 1e-12 * m + 4.0 * EPS * p + 1e-300,
        P::Exponential { .. } | P::Uniform { .. } | P::Gaussian { .. } | P::Lognormal { .. } => 1e-12 * p + 4.0 * EPS * p + 1e-300,
        P::Cauchy { .. } => 1e-12 * m + 4.0 * EPS,
        _ => 1e-12 * m + 4.0 * EPS * p,
    }
}

fn continuous(w: &W, i: &'static Inst) {
    let (lo, hi) = i.r.support();
    let v = ps(w.ctx.tier);
    w.outcome(i.p.family(), v.len() as u64);
    let mut prev: Option<(f64, f64)> = None;
    for &p in &v {
        w.state(1);
        let x = match w.call(i, &F, p, || i.d.inverse(p)) {
            Some(x) => x,
            None => continue,
        };
        w.trace(1);
        if x.is_nan() {
            w.fail(i, F, p, "not a number".into(), x);
            continue;
        }
        let e = dx(&i.r, x);
        if x < lo || x > hi {
            w.fail(i, F, p, format!("outside the support [{:?}, {:?}]", lo, hi), x);
            continue;
        }
        if (p == 0.0 && (x - lo).abs() > e) || (p == 1.0 && (x - hi).abs() > e) {
            w.fail(i, F, p, format!("not the end of the support [{:?}, {:?}]", lo, hi), x);
            continue;
        }
        if p == 0.0 && lo.is_infinite() && x != lo || p == 1.0 && hi.is_infinite() && x != hi {
            w.fail(i, F, p, format!("not the end of the support [{:?}, {:?}]", lo, hi), x);
            continue;
        }
        if x.is_finite() {
            let tol = p_tol(&i.r, p);
            let (f0, f1) = (i.r.cdf_dd(d(x) - d(e)), i.r.cdf_dd(d(x) + d(e)));
            // compare in the smaller tail
            let (below, above) = if p <= 0.5 {
                ((d(p) - f1.0).f(), (f0.0 - d(p)).f())
            } else {
                let c = ONE - d(p);
                ((f1.1 - c).f(), (c - f0.1).f())
            };
            let err = below.max(above).max(0.0);
            w.stat(|| format!("{} err/tol", i.p.family()), err / tol, || format!("{} -> {:?}", case_key(&i.key, F, p), x));
            if !(err <= tol) {
                w.fail(i, F, p, format!("distribution() at it is {:?}, not {:?}", i.r.cdf(x).0.f(), p), x);
            }
        } else if p > 1e-300 && p < 1.0 {
            // an infinite quantile of an inner probability: only if the true one overflows
            let t = i.r.cdf(if x > 0.0 { f64::MAX } else { f64::MIN });
            if (x > 0.0 && t.1.f() < 1.0 - p) || (x < 0.0 && t.0.f() < p) {
                w.fail(i, F, p, "infinite for an inner probability".into(), x);
            }
        }
        if let Some((pp, px)) = prev {
            w.trans(1);
            if x < px - 2.0 * dx(&i.r, px) {
                let drop = i.r.cdf(px).0.f() - i.r.cdf(x).0.f();
                w.stat(|| format!("{} mono", i.p.family()), drop / p_tol(&i.r, p), || case_key(&i.key, F, p));
                if !(drop <= p_tol(&i.r, p)) {
                    w.fail(i, F, p, format!("decreases: {:?} at {:?}", px, pp), x);
                }
            }
        }
        prev = Some((p, x));
    }
}

/// The listed defect of the binomial inverse for n >= 1000 and variance up to 80: Newton's method
/// stops at an outcome k below the quantile if p - F(k) is less than half the mass of k.
fn newton_rounding(i: &Inst, n: u64, p: f64, k: i64) -> bool {
    if !matches!(i.p, P::Binomial { .. } | P::BinomialQ { .. }) || n < 1000 || i.r.variance().unwrap().f() > 80.001 {
        return false;
    }
    let gap = (d(p) - i.r.cdf_k(k).0).f();
    let m = i.r.mass(k as u64).f();
    let (abs, rel) = cdf_tol(&i.r);
    gap < 0.5 * m * (1.0 + 1e-3) + abs + rel
}

/// Whether all the cumulative probabilities are exact in double precision.
fn exact(p: &P) -> bool {
    let dyadic = |x: f64| x * 1048576.0 == (x * 1048576.0).round();
    match p {
        P::Bernoulli { p } => dyadic(*p),
        P::BernoulliQ { q } => dyadic(*q),
        P::Categorical { p } => p.iter().all(|x| dyadic(*x)) && p.iter().sum::<f64>() == 1.0,
        _ => false,
    }
}

fn discrete(w: &W, i: &'static Inst) {
    let n = i.r.n();
    let (lo, hi) = i.r.support();
    let mut v = ps(w.ctx.tier);
    // the library's own jumps
    for &k in &ks_discrete(i, w.ctx.tier) {
        if let Some(f) = w.call(i, &F, k as f64, || i.d.cdf(k as f64)) {
            v.extend([f, up(f), dn(f)]);
        }
    }
    v.retain(|p| (0.0..=1.0).contains(p));
    let v = tidy(v);
    w.outcome(i.p.family(), v.len() as u64);
    let rel = cdf_tol(&i.r).1;
    let approx = matches!(i.p, P::Binomial { .. } | P::BinomialQ { .. })
        && n >= 1000
        && i.r.variance().unwrap().f() > 80.0 * (1.0 - 1e-9);
    let exact = exact(&i.p);
    let mut prev: Option<f64> = None;
    // cache of the reference CDF
    let mut cache: std::collections::HashMap<i64, (Dd, Dd)> = Default::default();
    let mut cdf = |k: i64| *cache.entry(k).or_insert_with(|| i.r.cdf_k(k));
    for &p in &v {
        w.state(1);
        let x = match w.call(i, &F, p, || i.d.inverse(p)) {
            Some(x) => x,
            None => continue,
        };
        w.trace(1);
        if !(x >= lo && x <= hi) {
            w.fail(i, F, p, format!("outside the support [{:?}, {:?}]", lo, hi), x);
            continue;
        }
        // With probabilities stored as f64, the CDF may reach one before the last outcome.
        let exhausted = p == 1.0
            && !matches!(i.p, P::Binomial { .. } | P::BinomialQ { .. })
            && i.r.cdf_k(x as i64).1.f() <= cdf_tol(&i.r).0.max(EPS);
        if (p == 0.0 && x != lo) || (p == 1.0 && x != hi && !exhausted) {
            w.fail(i, F, p, format!("not the end of the support [{:?}, {:?}]", lo, hi), x);
            continue;
        }
        if p == 0.0 || p == 1.0 {
            continue;
        }
        let k = x as i64;
        let t = i.r.mass(k as u64);
        if t.h == 0.0 && matches!(i.p, P::Categorical { .. }) {
            w.fail(i, F, p, "an outcome of zero mass".into(), x);
            continue;
        }
        let tol = if exact { 0.0 } else { cdf_abs(&i.r, p) + (rel + 8.0 * EPS) * p + 1e-300 };
        let s = approx as i64;
        let below = (d(p) - cdf(k + s).0).f();
        let above = (cdf(k - 1 - s).0 - d(p)).f();
        // with p beyond one half compare complements
        let (below, above) = if p > 0.5 {
            let c = ONE - d(p);
            ((cdf(k + s).1 - c).f(), (c - cdf(k - 1 - s).1).f())
        } else {
            (below, above)
        };
        // The approximation regime degrades in the far tails.
        let tol = if approx && (1e-9..=1.0 - 1e-9).contains(&p) { tol + 1e-12 } else { tol };
        let err = below.max(above).max(0.0);
        w.stat(|| format!("{}{} err/tol", i.p.family(), if approx { " approx" } else { "" }), err / tol, || format!("{} -> {:?}", case_key(&i.key, F, p), x));
        if !approx && below > tol && newton_rounding(i, n, p, k) {
            w.ctx.fail(
                "Binomial.inverse/newton-stops-within-half-a-mass-below-p".into(),
                format!("{} is {:?}, where the CDF is only {:?}", case_key(&i.key, F, p), x, cdf(k).0.f()),
                "known-form".into(),
            );
        } else if !(below <= tol) {
            w.fail(i, F, p, format!("the CDF there is only {:?}", cdf(k).0.f()), x);
        } else if !(above < tol) && (above > 0.0 || exact) {
            w.fail(i, F, p, format!("the CDF already is {:?} one outcome earlier", cdf(k - 1).0.f()), x);
        }
        if let Some(px) = prev {
            w.trans(1);
            if x < px {
                let drop = (cdf(px as i64 - 1).0 - cdf(k).0).f();
                if !(drop <= tol && px - x <= 1.0) {
                    w.fail(i, F, p, format!("decreases from {:?}", px), x);
                }
            }
        }
        prev = Some(x);
    }
}
