//! C14: constructors accept their whole domain; accessors, copies and defaults.
use super::*;
use crate::dd::*;
use crate::dist::*;
use crate::lattice::*;
use probability::distribution as pd;

static F: &str = "parameters";

fn pos(t: Tier) -> Vec<f64> {
    let mut v = vec![
        5e-324, f64::MIN_POSITIVE, 1e-300, 1e-150, 1e-100, 1e-20, 1e-12, 1e-10, 1e-6, 1e-3, 0.1, 1.0 / 3.0, dn(0.5), 0.5, up(0.5), 0.7, dn(1.0), 1.0, up(1.0), 1.5, 2.0,
        std::f64::consts::E, 10.0, 1e3, 1e5, 1e6, 1e9, 1e10, 1e100, 1e150, 1e154, 1e300, f64::MAX,
    ];
    if t == Tier::Deep {
        v.extend([1e-310, 1e-250, 1e-180, 1e-75, 1e-30, 1e-16, 1e-15, 1e-9, 1e-8, 0.05, 0.2, 0.28, 0.4, 0.49, 0.51, 0.75, 0.8, 0.99, 0.999, 1.01, 1.1, 2.5, 3.5, 6.0, 7.0, 8.0, 20.0, 30.0, 50.0, 170.0, 171.0, 1e12, 1e18, 1e30, 1e75, 1e180, 1e250, 1e308]);
    }
    if t != Tier::Quick {
        v.extend([1e-200, 1e-154, 1e-140, 1e-50, 1e-5, 0.01, 0.25, 0.3, 0.6, 0.9, 1.25, 3.0, 4.0, 5.0, 7.25, 100.0, 1e4, 1e7, 1e8, 1e15, 1e16, 1e50, 1e200, 1e307]);
    }
    v.sort_by(|a, b| a.total_cmp(b));
    v
}
fn locs(t: Tier) -> Vec<f64> {
    let mut v: Vec<f64> = pos(t).iter().flat_map(|x| [*x, -*x]).collect();
    v.extend([0.0, -0.0]);
    v.sort_by(|a, b| a.total_cmp(b));
    v
}
fn few(t: Tier) -> Vec<f64> {
    let mut v = vec![-f64::MAX, -1e300, -1e10, -10.0, up(-1.0), -1.0, -1.0 / 3.0, -1e-10, -5e-324, -0.0, 0.0, 5e-324, 1e-300, 1e-10, 0.1, 0.5, dn(1.0), 1.0, up(1.0), 2.0, 1e5, 1e16, 1e16 + 2.0, 1e154, 1e300, f64::MAX];
    if t != Tier::Quick {
        v = locs(if t == Tier::Deep { Tier::Thorough } else { Tier::Quick });
    }
    v.sort_by(|a, b| a.total_cmp(b));
    v
}

/// Every parameter vector of the lattice that satisfies the family's precondition.
pub fn domain(t: Tier) -> Vec<P> {
    let (po, lo, fe) = (pos(t), locs(t), few(t));
    let mut v = vec![];
    for &p in po.iter().filter(|p| **p < 1.0).chain([0.28, 0.29, 0.9, 0.99].iter()) {
        v.push(P::Bernoulli { p });
        v.push(P::BernoulliQ { q: p });
        for n in [0, 1, 2, 3, 10, 12, 63, 64, 65, 999, 1000, 10_000, 10_001, 1_000_000, 1 << 31, 1 << 32, 1 << 40, 1 << 53, (1 << 53) + 1, usize::MAX / 2, usize::MAX - 1, usize::MAX] {
            v.push(P::Binomial { n, p });
            v.push(P::BinomialQ { n, q: p });
        }
    }
    for &x in &lo {
        for &s in &po {
            v.push(P::Gaussian { mu: x, sigma: s });
            v.push(P::Laplace { mu: x, b: s });
            v.push(P::Logistic { mu: x, s });
            v.push(P::Lognormal { mu: x, sigma: s });
            v.push(P::Cauchy { x0: x, gamma: s });
        }
        for &y in &lo {
            if x < y {
                v.push(P::Uniform { a: x, b: y });
            }
        }
    }
    for &k in &po {
        v.push(P::Exponential { lambda: k });
        for &theta in &po {
            v.push(P::Gamma { k, theta });
        }
    }
    for &a in &fe {
        for &b in &fe {
            for &c in &fe {
                if a < b && a <= c && c <= b {
                    v.push(P::Triangular { a, b, c });
                }
                if a < b && b < c && (c - a).is_finite() {
                    v.push(P::Pert { a, b, c });
                }
            }
        }
    }
    for (l, h) in [(1e16, 2.0), (-1e16, 2.0), (1e15, 1.0), (1e12, 0.001), (-1e5, 1e-11), (1e300, 1e285), (0.0, 1e-323)] {
        for (i, j) in [(1.0, 2.0), (1.0, 3.0), (2.0, 3.0), (1.0, 4.0), (3.0, 4.0), (2.0, 4.0)] {
            let (a, b, c) = (l, l + i * h, l + j * h);
            if a < b && b < c {
                v.push(P::Pert { a, b, c });
                v.push(P::Triangular { a, b: c, c: b });
            }
        }
    }
    for &alpha in &po {
        for &beta in &po {
            for (a, b) in [(0.0, 1.0), (-1.0, 2.0), (1.0, up(1.0)), (-f64::MAX, f64::MAX), (0.0, 5e-324), (-1e300, 1e-300), (1e16, 1e16 + 2.0)] {
                v.push(P::Beta { alpha, beta, a, b });
            }
        }
    }
    v.extend(categorical(t));
    // sums that are one only up to the documented 1e-12
    for e in [9e-13, -9e-13, 1e-15, -1e-15] {
        v.push(P::Categorical { p: vec![0.5, 0.5 + e] });
        v.push(P::Categorical { p: vec![0.25 + e, 0.0, 0.75] });
        v.push(P::Categorical { p: vec![0.0, 0.3 + e, 0.7, 0.0] });
    }
    for k in [1000usize, 4096, 10_000] {
        v.push(P::Categorical { p: vec![1.0 / k as f64; k] });
    }
    v
}

/// (name, reported, given, exact?)
fn accessors(d_: &D, p: &P) -> Vec<(&'static str, f64, f64, f64)> {
    let mut v = vec![];
    let mut e = |n, got: f64, want: f64| v.push((n, got, want, 0.0));
    match (d_, p) {
        (D::Bernoulli(x), &P::Bernoulli { p }) => {
            e("p", x.p(), p);
            v.push(("q", x.q(), (ONE - d(p)).f(), 2.0 * EPS));
        }
        (D::Bernoulli(x), &P::BernoulliQ { q }) => {
            e("q", x.q(), q);
            v.push(("p", x.p(), (ONE - d(q)).f(), 2.0 * EPS));
        }
        (D::Binomial(x), &P::Binomial { n, p }) => {
            e("n", f64::from_bits(x.n() as u64), f64::from_bits(n as u64));
            e("p", x.p(), p);
            v.push(("q", x.q(), (ONE - d(p)).f(), 2.0 * EPS));
        }
        (D::Binomial(x), &P::BinomialQ { n, q }) => {
            e("n", f64::from_bits(x.n() as u64), f64::from_bits(n as u64));
            e("q", x.q(), q);
            v.push(("p", x.p(), (ONE - d(q)).f(), 2.0 * EPS));
        }
        (D::Beta(x), &P::Beta { alpha, beta, a, b }) => {
            e("alpha", x.alpha(), alpha);
            e("beta", x.beta(), beta);
            e("a", x.a(), a);
            e("b", x.b(), b);
        }
        (D::Categorical(x), P::Categorical { p }) => {
            e("k", x.k() as f64, p.len() as f64);
            e("p.len", x.p().len() as f64, p.len() as f64);
            for (g, w) in x.p().iter().zip(p) {
                e("p[i]", *g, *w);
            }
        }
        (D::Cauchy(x), &P::Cauchy { x0, gamma }) => {
            e("x_0", x.x_0(), x0);
            e("gamma", x.gamma(), gamma);
        }
        (D::Exponential(x), &P::Exponential { lambda }) => e("lambda", x.lambda(), lambda),
        (D::Gamma(x), &P::Gamma { k, theta }) => {
            e("k", x.k(), k);
            e("theta", x.theta(), theta);
        }
        (D::Gaussian(x), &P::Gaussian { mu, sigma }) => {
            e("mu", x.mu(), mu);
            e("sigma", x.sigma(), sigma);
        }
        (D::Laplace(x), &P::Laplace { mu, b }) => {
            e("mu", x.mu(), mu);
            e("b", x.b(), b);
        }
        (D::Logistic(x), &P::Logistic { mu, s }) => {
            e("mu", x.mu(), mu);
            e("s", x.s(), s);
        }
        (D::Lognormal(x), &P::Lognormal { mu, sigma }) => {
            e("mu", x.mu(), mu);
            e("sigma", x.sigma(), sigma);
        }
        (D::Pert(x), &P::Pert { a, b, c }) => {
            e("a", x.a(), a);
            e("b", x.b(), b);
            e("c", x.c(), c);
            // the derived shapes lie in (1, 5) and add up to six
            if (c - a).is_finite() && c - a > 1e-290 {
                // scaled, so that the reference does not overflow
                let h = if c - a > 1e200 { 2f64.powi(-300) } else { 1.0 };
                let (a, b, c) = (a * h, b * h, c * h);
                let w = d(c) - d(a);
                let al = ONE + d(4.0) * (d(b) - d(a)) / w;
                let be = ONE + d(4.0) * (d(c) - d(b)) / w;
                let err = 32.0 * EPS;
                v.push(("alpha", x.alpha(), al.f(), err));
                v.push(("beta", x.beta(), be.f(), err));
            }
        }
        (D::Triangular(x), &P::Triangular { a, b, c }) => {
            e("a", x.a(), a);
            e("b", x.b(), b);
            e("c", x.c(), c);
        }
        (D::Uniform(x), &P::Uniform { a, b }) => {
            e("a", x.a(), a);
            e("b", x.b(), b);
        }
        _ => v.push(("family", 0.0, 1.0, 0.0)),
    }
    v
}

fn verify(w: &W, i: &'static Inst, d: &D, how: &str) {
    for (n, got, want, tol) in accessors(d, &i.p) {
        w.state(1);
        let ok = if tol == 0.0 { got.to_bits() == want.to_bits() } else { (got - want).abs() <= tol };
        if !ok {
            w.ctx.fail(format!("{}.{}{}", i.key, n, how), format!("the parameter is {:?} (tolerance {:.1e})", want, tol), format!("{:?}", got));
        }
    }
}

/// A different distribution of the same family, the target of `clone_from`.
fn other(d: &D) -> D {
    match d {
        D::Bernoulli(_) => D::Bernoulli(pd::Bernoulli::new(0.123)),
        D::Beta(_) => D::Beta(pd::Beta::new(3.25, 1.25, -7.0, 9.0)),
        D::Binomial(_) => D::Binomial(pd::Binomial::new(17, 0.123)),
        D::Categorical(_) => D::Categorical(pd::Categorical::new(&[0.5, 0.125, 0.375])),
        D::Cauchy(_) => D::Cauchy(pd::Cauchy::new(5.25, 0.5)),
        D::Exponential(_) => D::Exponential(pd::Exponential::new(6.5)),
        D::Gamma(_) => D::Gamma(pd::Gamma::new(3.25, 0.75)),
        D::Gaussian(_) => D::Gaussian(pd::Gaussian::new(3.25, 0.75)),
        D::Laplace(_) => D::Laplace(pd::Laplace::new(3.25, 0.75)),
        D::Logistic(_) => D::Logistic(pd::Logistic::new(3.25, 0.75)),
        D::Lognormal(_) => D::Lognormal(pd::Lognormal::new(3.25, 0.75)),
        D::Pert(_) => D::Pert(pd::Pert::new(-3.0, 1.0, 4.0)),
        D::Triangular(_) => D::Triangular(pd::Triangular::new(-3.0, 4.0, 1.0)),
        D::Uniform(_) => D::Uniform(pd::Uniform::new(-3.0, 4.0)),
    }
}

const OPS: [&str; 7] = ["copy", "clone", "clone_from", "box", "vec", "thread", "rebuild"];

fn op(d: &D, p: &P, k: usize) -> D {
    match k {
        0 => d.copied(),
        1 => d.clone(),
        2 => {
            let mut o = other(d);
            macro_rules! m { ($($v:ident)*) => { match (&mut o, d) { $((D::$v(x), D::$v(y)) => x.clone_from(y),)* _ => unreachable!() } } }
            m!(Bernoulli Beta Binomial Categorical Cauchy Exponential Gamma Gaussian Laplace Logistic Lognormal Pert Triangular Uniform);
            o
        }
        3 => *Box::new(d.clone()).clone(),
        4 => vec![other(d), d.clone(), other(d)].iter().cloned().nth(1).unwrap(),
        5 => {
            let c = d.clone();
            std::thread::spawn(move || c.copied()).join().unwrap()
        }
        _ => p.build(),
    }
}

/// Answers to a battery of queries, as bits.
fn battery(d: &D, p: &P) -> Vec<u64> {
    let mut v = vec![];
    for x in [-1.0, 0.0, 0.25, 0.5, 1.0, 2.0, 3.5, 10.0] {
        v.push(d.cdf(x));
        if !p.discrete() {
            v.push(d.pdf(x));
        }
    }
    if p.discrete() {
        v.push(d.mass(0));
    }
    if d.has_inverse() {
        for x in [0.0, 0.2, 0.5, 0.875, 1.0] {
            v.push(d.inverse(x));
        }
    }
    v.push(d.entropy());
    for x in [d.mean(), d.variance(), d.deviation(), d.skewness(), d.kurtosis(), d.median()] {
        v.extend(x);
    }
    v.extend(d.modes().into_iter().flatten());
    for k in 0..3 {
        v.push(d.sample(&mut crate::env::Script::at(crate::env::Benign::Weyl(k), 0)));
    }
    v.into_iter().map(|x| x.to_bits()).collect()
}

pub fn run(ctx: &'static Ctx) -> Outcome {
    let t = ctx.tier;
    let th = ctx.thorough();
    let mut jobs: Vec<Job> = vec![];
    // the whole domain; all objects stay alive, and are verified again after all were built
    let all = ctx.bare_instances(domain(t.up()));
    for c in all.chunks(256) {
        let c = c.to_vec();
        jobs.push(Box::new(move |w: &W| {
            for &i in &c {
                w.outcome(&format!("{} constructed", i.p.family()), 1);
                w.trans(1);
                w.trace(1);
                let mut seen = vec![i.d.clone()];
                verify(w, i, &i.d, "");
                for k in 0..OPS.len() {
                    if k == 5 {
                        continue;
                    }
                    w.trans(1);
                    if let Some(o) = w.guard(i, &F, || format!("{}/{}", i.key, OPS[k]), || op(&i.d, &i.p, k)) {
                        verify(w, i, &o, &format!("/{}", OPS[k]));
                        seen.push(o);
                    }
                }
            }
        }));
    }
    // histories of copies: every sequence up to a depth; parameters and all queries unchanged
    let insts = ctx.instances(super::c14_history(t));
    let depth = if th { 4 } else { 3 };
    for c in insts.chunks(2) {
        let c = c.to_vec();
        jobs.push(Box::new(move |w: &W| {
            for &i in &c {
                w.outcome(&format!("{} histories", i.p.family()), 1);
                let first = match w.guard(i, &F, || format!("{}.battery", i.key), || battery(&i.d, &i.p)) {
                    Some(b) => b,
                    None => continue,
                };
                let nops = OPS.len();
                for len in 1..=depth {
                    for c in 0..nops.pow(len as u32) {
                        let mut seq = vec![];
                        let mut c = c;
                        for _ in 0..len {
                            seq.push(c % nops);
                            c /= nops;
                        }
                        // threads are expensive: at most once per history, and last
                        if seq[..len - 1].contains(&5) {
                            continue;
                        }
                        w.trans(len as u64);
                        w.trace(1);
                        let name = || seq.iter().map(|k| format!("/{}", OPS[*k])).collect::<String>();
                        let r = w.guard(i, &F, || format!("{}{}", i.key, name()), || {
                            let mut cur = i.d.clone();
                            for &k in &seq {
                                cur = op(&cur, &i.p, k);
                            }
                            let b = battery(&cur, &i.p);
                            (cur, b)
                        });
                        if let Some((o, b)) = r {
                            verify(w, i, &o, &name());
                            w.state(1);
                            if b != first {
                                let k = b.iter().zip(&first).position(|(x, y)| x != y).unwrap_or(0);
                                w.ctx.fail(
                                    format!("{}{}.battery[{}]", i.key, name(), k),
                                    format!("the original answers {:?}", first.get(k).map(|x| f64::from_bits(*x))),
                                    format!("{:?}", b.get(k).map(|x| f64::from_bits(*x))),
                                );
                            }
                        }
                    }
                }
            }
        }));
    }
    // defaults
    let std_: Vec<(P, fn() -> D)> = vec![
        (P::Gaussian { mu: 0.0, sigma: 1.0 }, || D::Gaussian(Default::default())),
        (P::Logistic { mu: 0.0, s: 1.0 }, || D::Logistic(Default::default())),
        (P::Lognormal { mu: 0.0, sigma: 1.0 }, || D::Lognormal(Default::default())),
        (P::Uniform { a: 0.0, b: 1.0 }, || D::Uniform(Default::default())),
    ];
    for (p, f) in std_ {
        if let Some(i) = ctx.instances(vec![p]).pop() {
            jobs.push(Box::new(move |w: &W| {
                w.outcome("defaults", 1);
                w.trans(1);
                w.trace(1);
                if let Some((d, b)) = w.guard(i, &F, || format!("{}/default", i.p.family()), || {
                    let d = f();
                    let b = battery(&d, &i.p);
                    (d, b)
                }) {
                    verify(w, i, &d, "/default");
                    if b != battery(&i.d, &i.p) {
                        w.ctx.fail(format!("{}/default.battery", i.p.family()), format!("the default differs from {}", i.key), "differs".into());
                    }
                }
            }));
        }
    }
    ctx.run(jobs);
    (
        "constructors on a lattice over the whole domain (subnormal to largest values, ties, adjacent values, boundary sums), every accessor; \
         all sequences of copy, clone, clone_from, box, vector, thread, rebuild up to depth three (four), with all queries compared bit by bit; \
         all defaults"
            .into(),
        true,
        vec!["'valid' is what the constructors' own preconditions admit, parameters finite"],
    )
}
