//! C02: density / mass against the textbook ones, and their sums against the library's own CDF.
use super::c01::{excess, used};
use super::*;
use crate::dist::*;
use crate::lattice::*;
use crate::tol::*;

static PDF: &str = "density";
static PMF: &str = "mass";
pub static SFE11: &str = "Binomial.mass/stirling-error-table-entry-11";
static INT: &str = "integral";

pub fn run(ctx: &'static Ctx) -> Outcome {
    let insts = ctx.instances(all(ctx.tier.up()));
    ctx.run(per_inst(insts, |w, i| if i.p.discrete() { discrete(w, i) } else { continuous(w, i) }));
    (
        "every parameter vector of the lattice x every argument of its argument lattice (or every outcome); \
         16-point Gauss-Legendre integrals of the density over every cell of a partition and partial sums of \
         masses over every prefix, both against increments of distribution()"
            .into(),
        true,
        vec!["double-double reference model of the textbook densities (validated against mpmath)"],
    )
}

fn continuous(w: &W, i: &'static Inst) {
    let xs = xs_continuous(i, w.ctx.tier);
    w.outcome(i.p.family(), xs.len() as u64);
    for &x in &xs {
        w.state(1);
        w.trace(1);
        let g = match w.call(i, &PDF, x, || i.d.pdf(x)) {
            Some(g) => g,
            None => continue,
        };
        let t = i.r.pdf(x).f();
        let (l, h) = pdf_range(&i.r, x);
        if !(g >= 0.0) {
            w.fail(i, PDF, x, format!("not a non-negative number; the textbook value is {:?}", t), g);
            continue;
        }
        w.stat(|| format!("{} used", i.p.family()), if t.is_infinite() || t < 1e-290 { 0.0 } else { used(g, l, t, h) }, || format!("{} {:?} vs {:?}", case_key(&i.key, PDF, x), g, t));
        if g != t && excess(g, l, h) > 0.0 {
            w.fail(i, PDF, x, format!("the textbook value is {:?}", t), g);
        }
    }
    // integrals
    let e = cells(i);
    let mut total = (0.0, 0.0);
    for c in e.windows(2) {
        let (a, b) = (c[0], c[1]);
        if !(b > a) {
            continue;
        }
        let (mut q, mut qr) = (0.0, crate::dd::ZERO);
        let mut ok = true;
        for k in 0..8 {
            for s in [-1.0, 1.0] {
                let x = 0.5 * (a + b) + s * 0.5 * (b - a) * GX[k];
                match w.call(i, &PDF, x, || i.d.pdf(x)) {
                    Some(v) => q += v * GW[k],
                    None => ok = false,
                }
                qr = qr + i.r.pdf(x) * crate::dd::d(GW[k]);
            }
        }
        let (fa, fb) = match (w.call(i, &PDF, a, || i.d.cdf(a)), w.call(i, &PDF, b, || i.d.cdf(b))) {
            (Some(a), Some(b)) if ok => (a, b),
            _ => continue,
        };
        w.state(1);
        w.trans(1);
        q *= 0.5 * (b - a);
        let qr = qr * crate::dd::d(0.5 * (b - a));
        let (ra, rb) = (i.r.cdf(a), i.r.cdf(b));
        let dr = if ra.0.h > 0.5 { ra.1 - rb.1 } else { rb.0 - ra.0 };
        // quadrature error, known from the reference model
        let qe = (qr - dr).f().abs();
        let pdf_err = {
            let m = 0.5 * (a + b);
            let (l, h) = pdf_range(&i.r, m);
            (h - l) / (h + l).max(1e-300)
        };
        let (al, ah) = cdf_range(&i.r, a);
        let (bl, bh) = cdf_range(&i.r, b);
        let tol = 1.5 * qe + (ah - al) + (bh - bl) + dr.f() * 8.0 * pdf_err.min(1.0) + 1e-13;
        let err = (q - (fb - fa)).abs();
        w.stat(|| format!("{} integral", i.p.family()), err / tol, || format!("{} {}..{} {:?} vs {:?}", i.key, a, b, q, fb - fa));
        if !(err <= tol) {
            w.fail(i, INT, a, format!("the density integrates over [{:?}, {:?}] to this, distribution() grows by {:?}", a, b, fb - fa), q);
        }
        total = (total.0 + q, total.1 + tol);
    }
    // the whole line: add what the reference leaves outside the partition
    let out = i.r.cdf(e[0]).0.f() + i.r.cdf(*e.last().unwrap()).1.f();
    if (total.0 + out - 1.0).abs() > total.1 + 1e-12 {
        w.fail(i, INT, NOARG, "the density does not integrate to one".into(), total.0 + out);
    }
}

/// Partition of the bulk on which the density is smooth.
fn cells(i: &Inst) -> Vec<f64> {
    let (lo, hi) = i.r.support();
    let (loc, sc) = i.r.loc_scale();
    let mut v = vec![];
    if lo.is_finite() && hi.is_finite() {
        let w = hi - lo;
        for k in 1..16 {
            v.push(lo + w * k as f64 / 16.0);
        }
        for k in 5..14 {
            v.push(lo + w * f64::powi(2.0, -k));
            v.push(hi - w * f64::powi(2.0, -k));
        }
        if let P::Triangular { c, .. } = i.p {
            v.push(c);
        }
        if matches!(i.p, P::Triangular { .. } | P::Uniform { .. }) {
            v.push(lo);
            v.push(hi);
        }
    } else if lo == 0.0 {
        let m = i.r.mean().unwrap().f();
        let sd = i.r.variance().unwrap().f().sqrt();
        if let P::Lognormal { mu, sigma } = i.p {
            for k in -32..=32 {
                v.push((mu + sigma * k as f64 / 4.0).exp());
            }
        } else {
            for k in -40..=16 {
                v.push(sc * f64::powf(2.0, k as f64 / 4.0));
            }
            for k in -16..=32 {
                v.push(m + sd * k as f64 / 2.0);
            }
        }
    } else {
        for k in -32..=32 {
            v.push(loc + sc * k as f64 / 4.0);
        }
        for k in 1..=20 {
            v.push(loc + sc * 8.0 * f64::powf(1.5, k as f64));
            v.push(loc - sc * 8.0 * f64::powf(1.5, k as f64));
        }
    }
    v.retain(|x| *x >= lo && *x <= hi && x.is_finite() && (*x > 0.0 || lo != 0.0 || hi.is_finite()));
    tidy(v)
}

fn discrete(w: &W, i: &'static Inst) {
    let n = i.r.n();
    let ks = ks_discrete(i, w.ctx.tier);
    w.outcome(i.p.family(), ks.len() as u64);
    let (abs, rel) = cdf_tol(&i.r);
    let full = ks.len() as u64 == n + 1;
    let mut sum = 0.0;
    let mut sumtol = 0.0;
    for &k in &ks {
        w.state(1);
        w.trace(1);
        let x = k as f64;
        let g = match w.call(i, &PMF, x, || i.d.mass(k as usize)) {
            Some(g) => g,
            None => {
                sum = f64::NAN;
                continue;
            }
        };
        let t = i.r.mass(k).f();
        if !(0.0..=1.0 + 1e-9).contains(&g) {
            w.fail(i, PMF, x, format!("not a probability; the textbook value is {:?}", t), g);
        }
        let mr = mass_rel(&i.r, k);
        w.stat(|| format!("{} used", i.p.family()), (g - t).abs() / (mr * t + 1e-300), || format!("{} {:?} vs {:?}", case_key(&i.key, PMF, x), g, t));
        let mut g = g;
        if !((g - t).abs() <= mr * t + 1e-300) {
            let known = i.r.mass_listed_defect(k).map(|v| v.f());
            match known {
                Some(v) if (g - v).abs() <= mr * v + 1e-300 => {
                    w.ctx.fail(SFE11.into(), format!("{} is {:?} instead of {:?}", case_key(&i.key, PMF, x), g, t), "known-form".into());
                    g += t - v;
                }
                _ => w.fail(i, PMF, x, format!("the textbook value is {:?}", t), g),
            }
        }
        sum += g;
        sumtol += mr * t + EPS * sum;
        // increments of the distribution function
        let before = if k == 0 { Some(0.0) } else { w.call(i, &PMF, x, || i.d.cdf(x - 1.0)) };
        if let (Some(a), Some(b)) = (before, w.call(i, &PMF, x, || i.d.cdf(x))) {
            w.trans(1);
            let tol = mr * t + 2.0 * (abs + rel * b) + 2.0 * EPS;
            w.stat(|| format!("{} step", i.p.family()), (b - a - g).abs() / tol, || case_key(&i.key, PMF, x));
            if !((b - a - g).abs() <= tol) {
                w.fail(i, INT, x, format!("mass {:?}, but distribution() grows by this", g), b - a);
            }
            if full {
                let tol = sumtol + abs + rel * b + 2.0 * EPS;
                if (sum - b).abs() > tol {
                    w.fail(i, INT, x, format!("masses up to here sum to {:?}, distribution() says", sum), b);
                }
            }
        }
    }
    if full && !((sum - 1.0).abs() <= sumtol + cat_defect(&i.r)) {
        w.fail(i, INT, NOARG, "the masses do not sum to one".into(), sum);
    }
    if !matches!(i.p, P::Categorical { .. }) {
        for k in [n + 1, n + 2, 2 * n + 3, 255, 256, 1 << 31, (1 << 31) + 1, (1 << 32) + n, u64::MAX >> 1, u64::MAX] {
            if k > n {
                w.state(1);
                w.trace(1);
                if let Some(g) = w.call(i, &PMF, k as f64, || i.d.mass(k as usize)) {
                    if g != 0.0 {
                        w.fail(i, PMF, k as f64, "not zero outside the support".into(), g);
                    }
                }
            }
        }
    }
}

const GX: [f64; 8] = [
    0.0950125098376374401853193354249581, 0.2816035507792589132304605014604961, 0.4580167776572273863424194429835776,
    0.6178762444026437484466717640487911, 0.7554044083550030338951011948474422, 0.8656312023878317438804678977123931,
    0.9445750230732325760779884155346083, 0.9894009349916499325961541734503326,
];
const GW: [f64; 8] = [
    0.1894506104550684962853967232082831, 0.1826034150449235888667636679692199, 0.1691565193950025381893120790303600,
    0.1495959888165767320815017305474786, 0.1246289712555338720524762821920164, 0.0951585116824927848099251076022462,
    0.0622535239386478928628438369943776, 0.0271524594117540948517805724560182,
];
