//! C12: every edge of the graph of definitional relations between distributions, on every query.
//!
//! X2 = s X1 + m for location-scale changes (s > 0), reflections (s < 0), and identities
//! (s = 1, m = 0); both sides are evaluated by the real code.
use super::*;
use crate::dd::*;
use crate::dist::*;
use crate::env::*;
use crate::lattice::*;
use crate::tol::*;

static CDF: &str = "distribution";
static PDF: &str = "density";
static MASS: &str = "mass";
static INV: &str = "inverse";
static SCAL: &str = "scalar";
static SAM: &str = "sample";

#[derive(Clone, Copy)]
struct Rel {
    name: &'static str,
    a: &'static Inst,
    b: &'static Inst,
    s: f64,
    m: f64,
    samples: bool,
}

fn bad(w: &W, r: &Rel, what: &str, arg: f64, got: f64, want: f64, tol: f64) {
    w.state(1);
    w.trans(1);
    w.trace(2);
    if got.to_bits() == want.to_bits() || got == want {
        return;
    }
    let err = (got - want).abs();
    let e = if tol > 0.0 { err / tol } else { f64::INFINITY };
    w.stat(|| format!("{} {} {}", r.name, r.b.p.family(), what), e, || format!("{} ~ {} {:?} {:?} vs {:?}", r.a.key, r.b.key, arg, got, want));
    if !(err <= tol) {
        w.ctx.fail(
            format!("{}:{}~{}.{}({:?})", r.name, r.a.key, r.b.key, what, arg),
            format!("the related distribution says {:?} (tolerance {:.1e})", want, tol),
            format!("{:?}", got),
        );
    }
}

fn map(r: &Rel, x: f64) -> f64 {
    if x.is_infinite() {
        x * r.s.signum()
    } else {
        (d(x) * d(r.s) + d(r.m)).f()
    }
}

fn mag(i: &Inst) -> f64 {
    let (loc, sc) = i.r.loc_scale();
    loc.abs() + sc.abs()
}

fn continuous(w: &W, r: &Rel) {
    let (a, b) = (r.a, r.b);
    w.outcome(&format!("{} {}", r.name, b.p.family()), 1);
    let xs = xs_continuous(a, Tier::Quick);
    let step = if w.ctx.thorough() { 1 } else { 7 };
    let keep = |k: usize| k % step == 0;
    let (lo, hi) = a.r.support();
    for (k, &x) in xs.iter().enumerate() {
        if !keep(k) && x != lo && x != hi {
            continue;
        }
        let y = map(r, x);
        if y.is_infinite() && x.is_finite() || x != 0.0 && x.abs() < 1e-300 || y != 0.0 && y.abs() < 1e-300 || (x == 0.0) != (y == 0.0) && r.m == 0.0 {
            continue; // the image over- or underflows
        }
        if let (Some(f), Some(g)) = (w.call(a, &CDF, x, || a.d.cdf(x)), w.call(b, &CDF, y, || b.d.cdf(y))) {
            let (l, h) = cdf_range_at(&b.r, y);
            let (l1, h1) = cdf_range_at(&a.r, x);
            let tol = (h - l) + (h1 - l1) + if r.s < 0.0 { 4.0 * EPS } else { 4.0 * EPS * f };
            bad(w, r, "distribution", y, g, if r.s < 0.0 { 1.0 - f } else { f }, tol);
        }
        // the density at an endpoint is a matter of convention only where it is unbounded
        if let (Some(f), Some(g)) = (w.call(a, &PDF, x, || a.d.pdf(x)), w.call(b, &PDF, y, || b.d.pdf(y))) {
            let (l, h) = pdf_range_at(&b.r, y);
            let (l1, h1) = pdf_range_at(&a.r, x);
            let tol = (h - l) + (h1 - l1) / r.s.abs();
            // at a finite end of the support the two sides are comparable only where the map is exact
            let exact = !x.is_finite() || (d(x) * d(r.s) + d(r.m) - d(y)).f() == 0.0;
            let near = [lo, hi].iter().any(|e| e.is_finite() && (x - e).abs() <= dx(&a.r, *e) + dx(&b.r, map(r, *e)) / r.s.abs());
            let open = (x == lo || x == hi) && (matches!(a.p, P::Gamma { .. }) || matches!(b.p, P::Gamma { .. }));
            let (lo2, hi2) = b.r.support();
            let side = if r.s < 0.0 { (y > hi2, y < lo2) } else { (y < lo2, y > hi2) };
            if tol.is_finite() && !(near && !exact) && !open && (x < lo, x > hi) == side {
                bad(w, r, "density", y, g, f / r.s.abs(), tol);
            }
        }
    }
    if a.d.has_inverse() && b.d.has_inverse() {
        let mut prev = 0;
        for (k, &p) in ps(Tier::Quick).iter().enumerate() {
            let q = if r.s < 0.0 { 1.0 - p } else { p };
            if r.s < 0.0 && 1.0 - q != p || (k - prev) % step != 0 && p != 0.0 && p != 1.0 && p != 0.5 {
                continue;
            }
            prev = k;
            if let (Some(x), Some(y)) = (w.call(a, &INV, q, || a.d.inverse(q)), w.call(b, &INV, p, || b.d.inverse(p))) {
                let want = map(r, x);
                // error in p of either side, expressed in the argument
                let tp = 8.0 * EPS * (p.min(1.0 - p) + if p > 0.5 || r.s < 0.0 { 1.0 } else { 0.0 }) + cdf_tol(&b.r).0;
                let dens = if want.is_finite() { b.r.pdf(want).f() } else { 0.0 };
                let mut tol = dx(&b.r, want) + r.s.abs() * dx(&a.r, x) + 64.0 * EPS * (mag(b) + r.m.abs());
                if dens > 0.0 {
                    tol += 4.0 * tp / dens;
                }
                if dens == 0.0 || dens.is_infinite() {
                    tol += 1e-9 * mag(b);
                }
                // where the density vanishes (the ends), compare in p
                if want.is_finite() && y.is_finite() && !((y - want).abs() <= tol) {
                    let (f0, f1) = (b.r.cdf(want), b.r.cdf(y));
                    let gap = if p > 0.5 { (f0.1 - f1.1).f().abs() } else { (f0.0 - f1.0).f().abs() };
                    if gap <= 4.0 * tp {
                        continue;
                    }
                }
                bad(w, r, "inverse", p, y, want, tol);
            }
        }
    }
    scalars(w, r);
    if r.samples {
        for benign in [Benign::Mild, Benign::Reject, Benign::Weyl(3)] {
            for pos in 0..(if w.ctx.thorough() { 64 } else { 12 }) {
                let (mut s, mut t) = (Script::at(benign, pos), Script::at(benign, pos));
                if let (Some(x), Some(y)) = (w.call(a, &SAM, pos as f64, || a.d.sample(&mut s)), w.call(b, &SAM, pos as f64, || b.d.sample(&mut t))) {
                    let want = map(r, x);
                    let tol = 64.0 * EPS * (want.abs() + mag(b) + r.m.abs());
                    bad(w, r, "sample", pos as f64, y, want, tol);
                }
            }
        }
    }
}

fn scalars(w: &W, r: &Rel) {
    let (a, b) = (r.a, r.b);
    let both = |f: fn(&D) -> Option<f64>| -> Option<(f64, f64)> {
        let x = w.call(a, &SCAL, NOARG, || f(&a.d))?;
        let y = w.call(b, &SCAL, NOARG, || f(&b.d))?;
        Some((x?, y?))
    };
    let s = r.s;
    // uncertainty of the widths and shapes derived from the parameters
    let we = |i: &Inst| match i.p {
        P::Beta { a, b, .. } | P::Pert { a, c: b, .. } | P::Triangular { a, b, .. } | P::Uniform { a, b } => EPS * (a.abs() + b.abs()) / (b - a),
        _ => 0.0,
    } + shape_err(&i.r);
    let rel = 64.0 * EPS + 8.0 * (we(a) + we(b));
    let amp = match b.p {
        P::Lognormal { mu, sigma } => 4.0 + 4.0 * sigma * sigma + 2.0 * mu.abs(),
        _ => 1.0,
    };
    let sd = b.r.variance().map_or(0.0, |v| v.sqrt().f());
    if let Some((x, y)) = both(|d| d.mean()) {
        bad(w, r, "mean", NOARG, y, map(r, x), rel * (mag(b) + r.m.abs()) + rel * amp * y.abs());
    }
    if let Some((x, y)) = both(|d| d.variance()) {
        bad(w, r, "variance", NOARG, y, s * s * x, rel * amp * y.abs());
    }
    if let Some((x, y)) = both(|d| d.deviation()) {
        bad(w, r, "deviation", NOARG, y, s.abs() * x, rel * amp * y.abs());
    }
    let spread = match b.p {
        P::Categorical { ref p } => {
            let k = p.len() as f64;
            1.0 + (k + 4.0) / sd.max(1e-300)
        }
        _ if b.p.discrete() => 1.0 + 1.0 / sd.max(1e-300),
        _ => 1.0,
    };
    if let Some((x, y)) = both(|d| d.skewness()) {
        bad(w, r, "skewness", NOARG, y, s.signum() * x, rel * amp * (y.abs() + spread));
    }
    if let Some((x, y)) = both(|d| d.kurtosis()) {
        bad(w, r, "kurtosis", NOARG, y, x, rel * amp * (y.abs() + spread * spread + 3.0));
    }
    if let Some((x, y)) = both(|d| Some(d.entropy())) {
        let scale = match b.p {
            P::Beta { alpha, beta, .. } => (alpha + beta) * (2.0 + (alpha + beta).ln().abs()) + 1.0 / alpha + 1.0 / beta,
            P::Gamma { k, .. } => k * (2.0 + k.ln().abs()) + 1.0 / k,
            P::Binomial { n, .. } | P::BinomialQ { n, .. } => 16.0 * n as f64,
            P::Pert { .. } => 32.0,
            _ => 1.0,
        };
        let l = if b.p.discrete() { 0.0 } else { s.abs().ln() };
        bad(w, r, "entropy", NOARG, y, x + l, rel * (1.0 + y.abs() + l.abs() + scale + mag(b).ln().abs()) + 1e-14);
    }
    // an exact tie at one half leaves the categorical median open (and see the known finding of C07)
    let tie = |i: &Inst| match i.p {
        P::Categorical { .. } => (0..=i.r.n()).any(|k| (i.r.cdf_k(k as i64).0.f() - 0.5).abs() <= 64.0 * EPS),
        P::Binomial { n, .. } | P::BinomialQ { n, .. } => {
            let m = i.r.mean().unwrap().f().round() as i64;
            let (abs, rel) = cdf_tol(&i.r);
            (m - 2..=m + 2).any(|k| k >= 0 && k <= n as i64 && (i.r.cdf_k(k).0.f() - 0.5).abs() <= abs + rel + 64.0 * EPS)
        }
        _ => false,
    };
    if let (false, Some((x, y))) = (tie(a) || tie(b), both(|d| d.median())) {
        let mut tol = rel * (mag(b) + r.m.abs()) + rel * amp * y.abs();
        if matches!(a.p, P::Beta { .. } | P::Pert { .. }) || matches!(b.p, P::Beta { .. } | P::Pert { .. }) {
            tol += 1e-9 * b.r.loc_scale().1;
        }
        if r.name == "same" && matches!(b.p, P::Pert { .. }) {
            // the beta median may be the closed-form approximation (see C07)
            if let P::Beta { alpha, beta, a: l, b: h } = a.p {
                let k = l + (h - l) * (alpha - 1.0 / 3.0) / (alpha + beta - 2.0 / 3.0);
                tol += 1.5 * (b.r.cdf(k).0.f() - 0.5).abs() / b.r.pdf(k).f();
            }
        }
        bad(w, r, "median", NOARG, y, map(r, x), tol);
    }
    let mo = |i: &'static Inst| w.call(i, &SCAL, NOARG, || i.d.modes()).flatten();
    // two outcomes that tie up to rounding of the parameters leave the binomial modes open (see C08)
    let open = |i: &Inst| match i.p {
        P::Binomial { n, p } | P::BinomialQ { n, q: p } => {
            let m = d(n as f64 + 1.0) * d(p);
            let gap = (m - d(m.f().round())).f().abs();
            gap != 0.0 && gap <= 8.0 * EPS * (n as f64 + 1.0)
        }
        _ => false,
    };
    if let (false, Some(x), Some(y)) = (open(a) || open(b), mo(a), mo(b)) {
        let mut want: Vec<f64> = x.iter().map(|&x| map(r, x)).collect();
        want.sort_by(|a, b| a.total_cmp(b));
        bad(w, r, "modes.len", NOARG, y.len() as f64, want.len() as f64, 0.0);
        for (u, v) in y.iter().zip(&want) {
            bad(w, r, "modes", NOARG, *u, *v, rel * (mag(b) + r.m.abs()) + rel * amp * u.abs());
        }
    }
}

/// Identity or reflection (k -> n - k) of discrete distributions.
fn discrete(w: &W, r: &Rel) {
    let (a, b) = (r.a, r.b);
    w.outcome(&format!("{} {}", r.name, b.p.family()), 1);
    let n = a.r.n();
    let refl = r.s < 0.0;
    let (abs1, rel1) = cdf_tol(&a.r);
    let (abs2, rel2) = cdf_tol(&b.r);
    for k in ks_discrete(a, Tier::Quick) {
        let j = if refl { n - k } else { k };
        if let (Some(x), Some(y)) = (w.call(a, &MASS, j as f64, || a.d.mass(j as usize)), w.call(b, &MASS, k as f64, || b.d.mass(k as usize))) {
            let tol = (mass_rel(&a.r, j) + mass_rel(&b.r, k)) * y + 1e-300;
            bad(w, r, "mass", k as f64, y, x, tol);
        }
        if refl && k == n {
            continue;
        }
        let (u, v) = (if refl { (n - k) as f64 - 1.0 } else { k as f64 }, k as f64);
        for dlt in [0.0, 0.5] {
            let (u, v) = if refl { (u, v) } else { (u + dlt, v + dlt) };
            if let (Some(x), Some(y)) = (w.call(a, &CDF, u, || a.d.cdf(u)), w.call(b, &CDF, v, || b.d.cdf(v))) {
                let x = if refl { 1.0 - x } else { x };
                bad(w, r, "distribution", v, y, x, abs1 + abs2 + (rel1 + rel2) * y + 4.0 * EPS);
            }
        }
    }
    if !refl && n == 1 {
        for p in ps(Tier::Quick) {
            if let (Some(x), Some(y)) = (w.call(a, &INV, p, || a.d.inverse(p)), w.call(b, &INV, p, || b.d.inverse(p))) {
                // at the jump itself either side may be one rounding away
                let jump = b.r.cdf_k(0).0.f();
                if (p - jump).abs() <= 4.0 * EPS || p == 1.0 && 1.0 - jump < 1e-11 {
                    continue;
                }
                bad(w, r, "inverse", p, y, x, 0.0);
            }
        }
    }
    scalars(w, r);
}

fn shifted(p: &P, s: f64, m: f64) -> Option<P> {
    let exact = |x: f64| -> Option<f64> {
        let y = x * s + m;
        if (d(x) * d(s) + d(m) - d(y)).f() == 0.0 {
            Some(y)
        } else {
            None
        }
    };
    let ord = |x: Option<f64>, y: Option<f64>| if s > 0.0 { (x, y) } else { (y, x) };
    Some(match *p {
        P::Gaussian { mu, sigma } => P::Gaussian { mu: exact(mu)?, sigma: sigma * s.abs() },
        P::Laplace { mu, b } => P::Laplace { mu: exact(mu)?, b: b * s.abs() },
        P::Logistic { mu, s: t } => P::Logistic { mu: exact(mu)?, s: t * s.abs() },
        P::Cauchy { x0, gamma } => P::Cauchy { x0: exact(x0)?, gamma: gamma * s.abs() },
        P::Exponential { lambda } if m == 0.0 && s > 0.0 => P::Exponential { lambda: lambda / s },
        P::Gamma { k, theta } if m == 0.0 && s > 0.0 => P::Gamma { k, theta: theta * s },
        P::Beta { alpha, beta, a, b } => {
            let (x, y) = ord(exact(a), exact(b));
            if s > 0.0 {
                P::Beta { alpha, beta, a: x?, b: y? }
            } else {
                P::Beta { alpha: beta, beta: alpha, a: x?, b: y? }
            }
        }
        P::Pert { a, b, c } => {
            let (x, y) = ord(exact(a), exact(c));
            P::Pert { a: x?, b: exact(b)?, c: y? }
        }
        P::Triangular { a, b, c } => {
            let (x, y) = ord(exact(a), exact(b));
            P::Triangular { a: x?, b: y?, c: exact(c)? }
        }
        P::Uniform { a, b } => {
            let (x, y) = ord(exact(a), exact(b));
            P::Uniform { a: x?, b: y? }
        }
        _ => return None,
    })
}

/// The lognormal is the exponential of a Gaussian.
fn exponential_of(w: &W, l: &'static Inst, g: &'static Inst) {
    let r = Rel { name: "exp", a: g, b: l, s: 1.0, m: 0.0, samples: false };
    w.outcome("exp Lognormal", 1);
    for x in xs_continuous(l, Tier::Quick) {
        if !(x > 0.0) || x.is_infinite() {
            continue;
        }
        let y = x.ln();
        if let (Some(f), Some(h)) = (w.call(g, &CDF, y, || g.d.cdf(y)), w.call(l, &CDF, x, || l.d.cdf(x))) {
            let (u, v) = cdf_range_at(&l.r, x);
            bad(w, &r, "distribution", x, h, f, 2.0 * (v - u) + 4.0 * EPS * f);
        }
        if let (Some(f), Some(h)) = (w.call(g, &PDF, y, || g.d.pdf(y)), w.call(l, &PDF, x, || l.d.pdf(x))) {
            let (u, v) = pdf_range_at(&l.r, x);
            if f > 1e-290 {
                bad(w, &r, "density", x, h, f / x, 2.0 * (v - u));
            }
        }
    }
    for p in ps(Tier::Quick) {
        if let (Some(y), Some(x)) = (w.call(g, &INV, p, || g.d.inverse(p)), w.call(l, &INV, p, || l.d.inverse(p))) {
            let want = y.exp();
            bad(w, &r, "inverse", p, x, want, 16.0 * EPS * want * (2.0 + y.abs() + mag(g)));
        }
    }
    if let (Some(y), Some(x)) = (w.call(g, &SCAL, NOARG, || g.d.median().unwrap()), w.call(l, &SCAL, NOARG, || l.d.median().unwrap())) {
        bad(w, &r, "median", NOARG, x, y.exp(), 16.0 * EPS * x * (2.0 + y.abs()));
    }
    if let (Some(y), Some(x), P::Gaussian { mu, .. }) = (w.call(g, &SCAL, NOARG, || g.d.entropy()), w.call(l, &SCAL, NOARG, || l.d.entropy()), &g.p) {
        bad(w, &r, "entropy", NOARG, x, y + mu, 16.0 * EPS * (4.0 + y.abs() + mu.abs()));
    }
}

pub fn run(ctx: &'static Ctx) -> Outcome {
    let t = ctx.tier;
    let th = ctx.thorough();
    let mut jobs: Vec<Job> = vec![];
    let mut rels: Vec<Rel> = vec![];
    let one = |p: P| ctx.instances(vec![p]).pop();
    let mut add = |name: &'static str, a: P, b: P, s: f64, m: f64, samples: bool| {
        if let (Some(a), Some(b)) = (one(a), one(b)) {
            rels.push(Rel { name, a, b, s, m, samples });
        }
    };
    // location, scale, reflection
    let base: Vec<P> = {
        let mut v = vec![];
        for mu in [0.0, 1.0, -3.75] {
            for s in [1.0, 0.5, 7.5] {
                v.push(P::Gaussian { mu, sigma: s });
                v.push(P::Laplace { mu, b: s });
                v.push(P::Logistic { mu, s });
                v.push(P::Cauchy { x0: mu, gamma: s });
            }
        }
        v.extend(exponential(t).into_iter().take(4));
        let sh: &[f64] = if th { &[0.1, 0.5, 0.9, 1.0, 1.5, 2.0, 3.0, 7.0, 20.0, 100.0] } else { &[0.5, 1.0, 1.5, 3.0, 20.0] };
        for &k in sh {
            v.push(P::Gamma { k, theta: 1.0 });
            v.push(P::Gamma { k, theta: 2.5 });
            for &b in sh {
                v.push(P::Beta { alpha: k, beta: b, a: 0.0, b: 1.0 });
                v.push(P::Beta { alpha: k, beta: b, a: -1.0, b: 2.0 });
            }
        }
        for (a, b) in [(0.0, 1.0), (-1.0, 2.0), (-7.5, -5.0)] {
            v.push(P::Uniform { a, b });
            for f in [0.0, 0.0625, 0.25, 0.5, 0.625, 0.875, 1.0] {
                let c = a + (b - a) * f;
                v.push(P::Triangular { a, b, c });
                if f > 0.0 && f < 1.0 {
                    v.push(P::Pert { a, b: c, c: b });
                }
            }
        }
        v
    };
    let maps: &[(f64, f64)] = if th {
        &[(2.0, 0.0), (0.5, 0.0), (1.0, 1.0), (1.0, -5.0), (4.0, 3.0), (1024.0, 0.0), (3.0, 0.0), (0.25, 1000.0), (1.0 / 1048576.0, 0.0), (1e6, 0.0), (7.0, -0.5)]
    } else {
        &[(2.0, 0.0), (1.0, 1.0), (4.0, -5.0), (3.0, 0.0)]
    };
    for p in &base {
        for &(s, m) in maps {
            if let Some(q) = shifted(p, s, m) {
                // sampling beta-like families is not a definitional map of words
                add(if m == 0.0 { "scale" } else { "shift" }, p.clone(), q, s, m, true);
            }
        }
        let centre = match *p {
            P::Gaussian { mu, .. } | P::Laplace { mu, .. } | P::Logistic { mu, .. } => Some(2.0 * mu),
            P::Cauchy { x0, .. } => Some(2.0 * x0),
            _ => None,
        };
        if let Some(m) = centre {
            add("reflect", p.clone(), p.clone(), -1.0, m, false);
        }
        if let Some(q) = shifted(p, -1.0, 0.0) {
            add("reflect", p.clone(), q, -1.0, 0.0, false);
        }
        if let P::Beta { a, b, .. } | P::Pert { a, c: b, .. } | P::Triangular { a, b, .. } | P::Uniform { a, b } = *p {
            if let Some(q) = shifted(p, -1.0, a + b) {
                add("reflect", p.clone(), q, -1.0, a + b, false);
            }
        }
    }
    // same objects
    for (a, b) in [(0.0, 1.0), (-1.0, 2.0), (3.0, 4.0), (100.0, 1100.0), (-7.5, -5.0)] {
        add("same", P::Uniform { a, b }, P::Beta { alpha: 1.0, beta: 1.0, a, b }, 1.0, 0.0, false);
        add("same", P::Triangular { a, b, c: a }, P::Beta { alpha: 1.0, beta: 2.0, a, b }, 1.0, 0.0, false);
        add("same", P::Triangular { a, b, c: b }, P::Beta { alpha: 2.0, beta: 1.0, a, b }, 1.0, 0.0, false);
    }
    for p in pert(t) {
        if let (P::Pert { a, b, c }, Some(i)) = (&p, one(p.clone())) {
            if let D::Pert(x) = &i.d {
                let _ = b;
                add("same", P::Beta { alpha: x.alpha(), beta: x.beta(), a: *a, b: *c }, p.clone(), 1.0, 0.0, false);
            }
        }
    }
    for theta in [1.0, 0.5, 0.1, 3.0, 1e-8, 1e8] {
        add("same", P::Exponential { lambda: 1.0 / theta }, P::Gamma { k: 1.0, theta }, 1.0, 0.0, false);
    }
    let mut disc: Vec<Rel> = vec![];
    let mut add = |name: &'static str, a: P, b: P, s: f64| {
        if let (Some(a), Some(b)) = (one(a), one(b)) {
            let m = if s < 0.0 { a.r.n() as f64 } else { 0.0 };
            disc.push(Rel { name, a, b, s, m, samples: false });
        }
    };
    let m = if th { 256 } else { 64 };
    let mut probs: Vec<f64> = (1..m).map(|k| k as f64 / m as f64).collect();
    probs.extend([2f64.powi(-20), 1.0 - 2f64.powi(-20), 2f64.powi(-40), 1.0 - 2f64.powi(-40), 2f64.powi(-53)]);
    for &p in &probs {
        let q = 1.0 - p;
        add("same", P::Bernoulli { p }, P::Binomial { n: 1, p }, 1.0);
        add("same", P::Bernoulli { p }, P::Categorical { p: vec![q, p] }, 1.0);
        add("failure", P::Bernoulli { p }, P::BernoulliQ { q }, 1.0);
        add("reflect", P::Bernoulli { p }, P::Bernoulli { p: q }, -1.0);
    }
    let ns: &[usize] = if th { &[0, 1, 2, 3, 5, 10, 20, 40, 80, 200, 500, 999, 1000, 1500, 5000] } else { &[0, 1, 2, 5, 10, 40, 200, 1000, 5000] };
    for &n in ns {
        for &p in probs.iter().step_by(if th { 5 } else { 4 }).chain([0.5, 0.25].iter()) {
            let q = 1.0 - p;
            add("failure", P::Binomial { n, p }, P::BinomialQ { n, q }, 1.0);
            if n > 0 {
                add("reflect", P::Binomial { n, p }, P::Binomial { n, p: q }, -1.0);
            }
        }
    }
    // failure probabilities the complement of which cannot be represented: the failures of one are
    // the successes of the other
    let tiny: &[f64] = if th { &[0.3, 0.1, 1.0 / 3.0, 0.7, 0.01, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8, 1e-10, 1e-12, 1e-16, 1e-20, 1e-50, 1e-100, 1e-300] } else { &[0.3, 0.1, 1e-3, 1e-5, 1e-8, 1e-12, 1e-20, 1e-100, 1e-300] };
    for &q in tiny {
        add("failure-reflect", P::Bernoulli { p: q }, P::BernoulliQ { q }, -1.0);
        add("failure-reflect", P::BernoulliQ { q }, P::Bernoulli { p: q }, -1.0);
        for &n in ns.iter().chain(&[100_000, (1 << 31) + 1, (1 << 36) + 7]) {
            if n > 0 && n as f64 * q < 2000.0 {
                add("failure-reflect", P::Binomial { n, p: q }, P::BinomialQ { n, q }, -1.0);
            }
        }
        for n in [1, 2, 7] {
            if n as f64 * q > 1e-280 {
                add("failure-reflect", P::BinomialQ { n, q }, P::Binomial { n, p: q }, -1.0);
            }
        }
    }
    for p in categorical(Tier::Quick) {
        if let P::Categorical { p: v } = &p {
            if v.iter().filter(|x| **x > 0.0).count() < 2 {
                continue;
            }
            let mut q = v.clone();
            q.reverse();
            add("reflect", p.clone(), P::Categorical { p: q }, -1.0);
        }
    }
    for c in rels.chunks(4) {
        let c = c.to_vec();
        jobs.push(Box::new(move |w: &W| c.iter().for_each(|r| continuous(w, r))));
    }
    for c in disc.chunks(16) {
        let c = c.to_vec();
        jobs.push(Box::new(move |w: &W| c.iter().for_each(|r| discrete(w, r))));
    }
    for p in lognormal(t) {
        if let P::Lognormal { mu, sigma } = p {
            if let (Some(l), Some(g)) = (one(p), one(P::Gaussian { mu, sigma })) {
                jobs.push(Box::new(move |w: &W| exponential_of(w, l, g)));
            }
        }
    }
    ctx.run(jobs);
    (
        "every listed relation (shift, scale, reflection, failure probability, special case, exponential) x parameter vectors x \
         all queries over the argument lattice; samples of location-scale families compared word by word"
            .into(),
        true,
        vec!["both sides are evaluated by the real code; tolerances are those of the reference comparison"],
    )
}
