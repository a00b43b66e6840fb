//! C01: the distribution function against the textbook CDF on every lattice point, and its
//! order on every adjacent (hence every) pair of points.
use super::*;
use crate::dist::*;
use crate::lattice::*;
use crate::tol::*;

static F: &str = "distribution";

pub fn run(ctx: &'static Ctx) -> Outcome {
    let insts = ctx.instances(all(ctx.tier.up()));
    ctx.run(per_inst(insts, |w, i| if i.p.discrete() { discrete(w, i) } else { continuous(w, i) }));
    (
        "every parameter vector of the lattice x every argument of its argument lattice (support ends +-ulps, \
         dyadic approach to the ends, bulk grid, tails, infinities, points between integers)"
            .into(),
        true,
        vec!["double-double reference model of the textbook CDF (validated against mpmath)"],
    )
}

fn common(w: &W, i: &'static Inst, x: f64, g: f64) -> bool {
    let (lo, hi) = i.r.support();
    if !(0.0..=1.0).contains(&g) {
        w.fail(i, F, x, "not in [0, 1]".into(), g);
        return false;
    }
    if x < lo && g != 0.0 {
        w.fail(i, F, x, format!("positive left of the support [{:?}, {:?}]", lo, hi), g);
        return false;
    }
    if x >= hi && g != 1.0 {
        w.fail(i, F, x, format!("below one right of the support [{:?}, {:?}]", lo, hi), g);
        return false;
    }
    true
}

pub fn used(g: f64, l: f64, t: f64, h: f64) -> f64 {
    if g >= t {
        (g - t) / (h - t).max(1e-300)
    } else {
        (t - g) / (t - l).max(1e-300)
    }
}

pub fn excess(g: f64, l: f64, h: f64) -> f64 {
    if g < l {
        l - g
    } else if g > h {
        g - h
    } else {
        0.0
    }
}

fn continuous(w: &W, i: &'static Inst) {
    let xs = xs_continuous(i, w.ctx.tier);
    w.outcome(i.p.family(), xs.len() as u64);
    let (abs, rel) = cdf_tol(&i.r);
    let mut prev: Option<(f64, f64)> = None;
    for &x in &xs {
        let g = match w.call(i, &F, x, || i.d.cdf(x)) {
            Some(g) => g,
            None => continue,
        };
        w.state(1);
        w.trace(1);
        if !common(w, i, x, g) {
            continue;
        }
        let (l, h) = cdf_range(&i.r, x);
        let t = i.r.cdf(x).0.f();
        w.stat(|| format!("{} used", i.p.family()), used(g, l, t, h), || format!("{} {:?} vs {:?}", case_key(&i.key, F, x), g, t));
        if excess(g, l, h) > 0.0 {
            w.fail(i, F, x, format!("the textbook value is {:?}", t), g);
        }
        if let Some((px, pg)) = prev {
            w.trans(1);
            if g < pg {
                let one_minus = if matches!(i.p, P::Triangular { .. }) { 2.0 * EPS } else { 0.0 };
                // the errors of both, which may be of different expansions
                let both = if matches!(i.p, P::Beta { .. } | P::Pert { .. } | P::Gamma { .. }) { 6.0 } else { 1.0 };
                let tol = both * abs + rel * h + 2.0 * EPS * h + one_minus;
                w.stat(|| format!("{} mono", i.p.family()), (pg - g) / tol, || case_key(&i.key, F, x));
                if pg - g > tol {
                    w.fail(i, F, x, format!("decreases from {:?} at {:?}", pg, px), g);
                }
            }
        }
        prev = Some((x, g));
    }
}

fn discrete(w: &W, i: &'static Inst) {
    let n = i.r.n();
    let ks = ks_discrete(i, w.ctx.tier);
    w.outcome(i.p.family(), ks.len() as u64);
    let rel = cdf_tol(&i.r).1;
    let get = |x: f64| -> Option<f64> {
        w.state(1);
        w.trace(1);
        let g = w.call(i, &F, x, || i.d.cdf(x))?;
        if common(w, i, x, g) {
            Some(g)
        } else {
            None
        }
    };
    for x in [f64::NEG_INFINITY, f64::MIN, -1e10, -1.0, -0.5, -1e-300, -5e-324, dn(-1.0)] {
        get(x);
    }
    for x in [n as f64 + 0.5, n as f64 + 1.0, n as f64 + 1e3, 2.0 * n as f64 + 1.0, 1e19, 1e30, f64::MAX, f64::INFINITY] {
        get(x);
    }
    let mut prev: Option<f64> = None;
    let minus_zero = get(-0.0);
    for &k in &ks {
        let x = k as f64;
        let g = match get(x) {
            Some(g) => g,
            None => {
                prev = None;
                continue;
            }
        };
        if k == 0 && minus_zero.is_some() && minus_zero != Some(g) {
            w.fail(i, F, -0.0, format!("differs from the value {:?} at zero", g), minus_zero.unwrap());
        }
        let t = i.r.cdf_k(k as i64).0.f();
        let tol = cdf_abs(&i.r, t) + rel * t + 4.0 * f64::MIN_POSITIVE;
        w.stat(|| format!("{} used", i.p.family()), (g - t).abs() / tol, || format!("{} {:?} vs {:?}", case_key(&i.key, F, x), g, t));
        if (g - t).abs() > tol {
            w.fail(i, F, x, format!("the textbook value is {:?}", t), g);
        }
        // constant up to the next integer
        for y in [up(x), x + 0.25, x + 0.5, x + 0.75, dn(x + 1.0)] {
            if y.floor() == x && y < n as f64 + 1.0 {
                if let Some(h) = get(y) {
                    w.trans(1);
                    if h != g {
                        w.fail(i, F, y, format!("changes between integers: {:?} at {}", g, k), h);
                    }
                }
            }
        }
        if let Some(pg) = prev {
            w.trans(1);
            if pg - g > tol + 2.0 * EPS * t {
                w.fail(i, F, x, format!("decreases from {:?}", pg), g);
            }
        }
        prev = Some(g);
    }
}
