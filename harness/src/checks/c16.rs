//! C16: constructors, inverses and inference reject what their documentation excludes.
//!
//! Every vector over an alphabet of special values is given to every constructor; the model is
//! the documented precondition. Excluded vectors have to be rejected with a panic (the harness
//! is compiled with debug assertions), finite admitted ones have to be accepted.
use super::*;
use crate::dist::*;
use probability::distribution as pd;

static F: &str = "new";

/// Some(true): admitted; Some(false): excluded; None: the documentation leaves it open.
type Verdict = Option<bool>;

fn alphabet(t: Tier) -> Vec<f64> {
    let mut v = vec![
        f64::NAN, f64::NEG_INFINITY, -f64::MAX, -1e300, -2.0, -up(1.0), -1.0, -0.5, -1e-9, -f64::MIN_POSITIVE, -5e-324, -0.0, 0.0, 5e-324, f64::MIN_POSITIVE, 1e-300, 1e-9,
        0.25, 0.5, dn(1.0), 1.0, up(1.0), 1.0 + 1e-9, 1.5, 2.0, 10.0, 1e16, 1e300, f64::MAX, f64::INFINITY,
    ];
    if t == Tier::Deep {
        v.extend([-1e100, -10.5, -3.0, -0.75, -0.25, -1e-6, -1e-12, -1e-16, 1e-16, 1e-12, 1e-6, 0.01, 0.2, 0.3, 0.6, 0.75, 0.999, 1.0 + 1e-12, 1.25, 2.5, 5.0, 100.0, 1e6, 1e12, 1e200]);
    }
    if t != Tier::Quick {
        v.extend([-f64::NAN, -1e16, -10.0, -1.0 - 1e-6, dn(0.5), up(0.5), -1e-3, -1e-100, 1e-100, 1e-3, 0.1, 1.0 / 3.0, 0.9, 3.0, 1e9, 1e100, 1e308]);
    }
    v
}
fn up(x: f64) -> f64 {
    f64::from_bits(x.to_bits() + 1)
}
fn dn(x: f64) -> f64 {
    f64::from_bits(x.to_bits() - 1)
}

/// Three-valued conjunction.
fn all(v: &[Verdict]) -> Verdict {
    if v.iter().any(|x| *x == Some(false)) {
        Some(false)
    } else if v.iter().all(|x| *x == Some(true)) {
        Some(true)
    } else {
        None
    }
}
fn any_real(x: f64) -> Verdict {
    if x.is_finite() {
        Some(true)
    } else {
        None
    }
}
fn positive(x: f64) -> Verdict {
    if x.is_infinite() && x > 0.0 {
        None
    } else {
        Some(x > 0.0)
    }
}
fn less(x: f64, y: f64) -> Verdict {
    if !(x < y) {
        Some(false)
    } else if x.is_finite() && y.is_finite() && (y - x).is_finite() {
        Some(true)
    } else {
        None
    }
}
/// The ends of the range of a binomial's probability are admitted by its documentation and
/// excluded by its assertion.
fn binomial(p: f64) -> Verdict {
    if p == 0.0 || p == 1.0 {
        None
    } else {
        Some(p > 0.0 && p < 1.0)
    }
}
fn vector(p: &[f64]) -> Verdict {
    if p.iter().any(|x| !(*x >= 0.0 && *x <= 1.0)) {
        return Some(false);
    }
    let s: f64 = p.iter().sum();
    // the documentation asks for an exact one; rounding has to be tolerated
    if (s - 1.0).abs() < 1e-14 {
        Some(true)
    } else if (s - 1.0).abs() > 1e-6 {
        Some(false)
    } else {
        None
    }
}

fn admitted(p: &P) -> Verdict {
    match *p {
        P::Bernoulli { p } => Some(p > 0.0 && p < 1.0),
        P::BernoulliQ { q } => Some(q > 0.0 && q < 1.0),
        P::Beta { alpha, beta, a, b } => all(&[positive(alpha), positive(beta), less(a, b)]),
        P::Binomial { p, .. } => binomial(p),
        P::BinomialQ { q, .. } => binomial(q),
        P::Categorical { ref p } => vector(p),
        P::Cauchy { x0, gamma } => all(&[any_real(x0), positive(gamma)]),
        P::Exponential { lambda } => positive(lambda),
        P::Gamma { k, theta } => all(&[positive(k), positive(theta)]),
        P::Gaussian { mu, sigma } => all(&[any_real(mu), positive(sigma)]),
        P::Laplace { mu, b } => all(&[any_real(mu), positive(b)]),
        P::Logistic { mu, s } => all(&[any_real(mu), positive(s)]),
        P::Lognormal { mu, sigma } => all(&[any_real(mu), positive(sigma)]),
        // strictly between the ends; the open case is a width that is not representable
        P::Pert { a, b, c } => all(&[less(a, b), less(b, c), if (c - a).is_finite() { Some(true) } else { None }]),
        P::Triangular { a, b, c } => all(&[less(a, b), if a <= c && c <= b { Some(true) } else { Some(false) }]),
        P::Uniform { a, b } => less(a, b),
    }
}

fn vectors(t: Tier) -> Vec<P> {
    let z = alphabet(t);
    let mut v = vec![];
    let ns = [0usize, 1, 2, 10, 999, 1000, 10_001, 1 << 32, usize::MAX];
    for &x in &z {
        v.push(P::Bernoulli { p: x });
        v.push(P::BernoulliQ { q: x });
        v.push(P::Exponential { lambda: x });
        for n in ns {
            v.push(P::Binomial { n, p: x });
            v.push(P::BinomialQ { n, q: x });
        }
        for &y in &z {
            v.push(P::Cauchy { x0: x, gamma: y });
            v.push(P::Gamma { k: x, theta: y });
            v.push(P::Gaussian { mu: x, sigma: y });
            v.push(P::Laplace { mu: x, b: y });
            v.push(P::Logistic { mu: x, s: y });
            v.push(P::Lognormal { mu: x, sigma: y });
            v.push(P::Uniform { a: x, b: y });
            for &u in &z {
                v.push(P::Pert { a: x, b: y, c: u });
                v.push(P::Triangular { a: x, b: y, c: u });
            }
        }
    }
    // beta: all four parameters over a smaller alphabet
    let s: Vec<f64> = if t != Tier::Quick {
        z.iter().cloned().step_by(if t == Tier::Deep { 3 } else { 2 }).chain([0.0, -0.0, f64::NAN, 1.0]).collect()
    } else {
        vec![f64::NAN, f64::NEG_INFINITY, -f64::MAX, -1.0, -5e-324, -0.0, 0.0, 5e-324, 0.5, 1.0, up(1.0), 2.0, 1e300]
    };
    for &alpha in &s {
        for &beta in &s {
            for &a in &s {
                for &b in &s {
                    v.push(P::Beta { alpha, beta, a, b });
                }
            }
        }
    }
    // categorical: all vectors of up to three (four) entries, and long ones with one entry changed
    let e: Vec<f64> = vec![f64::NAN, f64::NEG_INFINITY, -1.0, -0.5, -1e-9, -5e-324, -0.0, 0.0, 5e-324, 1e-3, 0.25, 0.5, 0.75, 1.0, up(1.0), 1.5, 2.0, f64::INFINITY];
    let depth = match t {
        Tier::Quick => 3,
        Tier::Thorough => 4,
        Tier::Deep => 5,
    };
    for len in 0..=depth {
        for mut c in 0..e.len().pow(len as u32) {
            let mut p = vec![];
            for _ in 0..len {
                p.push(e[c % e.len()]);
                c /= e.len();
            }
            v.push(P::Categorical { p });
        }
    }
    for k in [8usize, 16, 64, 1024] {
        for at in [0, 1, k / 2, k - 2, k - 1] {
            for &x in &e {
                let mut p = vec![1.0 / k as f64; k];
                p[at] = x;
                v.push(P::Categorical { p: p.clone() });
                // the same with the sum restored by its neighbour
                let nb = if at + 1 < k { at + 1 } else { at - 1 };
                p[nb] += 1.0 / k as f64 - x;
                v.push(P::Categorical { p });
            }
        }
    }
    v
}

fn chunk(w: &W, i: &'static Inst, ps: &[P]) {
    for p in ps {
        let m = admitted(p);
        w.state(1);
        w.trans(1);
        w.trace(1);
        let out = w.guard(i, &F, || "".into(), || std::panic::catch_unwind(|| p.build()).is_ok());
        let ok = match out {
            Some(x) => x,
            None => continue,
        };
        let name = match m {
            Some(true) => "admitted",
            Some(false) => "excluded",
            None => "open",
        };
        w.outcome(&format!("{} {}", p.family(), name), 1);
        if m == Some(false) && ok {
            w.ctx.fail(format!("{}.new", p.key()), "the documented precondition excludes these parameters".into(), "accepted".into());
        }
        if m == Some(true) && !ok {
            w.ctx.fail(format!("{}.new", p.key()), "the documented precondition admits these parameters".into(), "rejected".into());
        }
    }
}

/// Probabilities outside [0, 1].
fn inverses(w: &W, i: &'static Inst) {
    for p in alphabet(w.ctx.tier.up()) {
        let inside = (0.0..=1.0).contains(&p);
        w.state(1);
        w.trans(1);
        w.trace(1);
        w.outcome(if inside { "inverse of a probability" } else { "inverse of no probability" }, 1);
        let r = w.guard(i, &F, || "".into(), || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.d.inverse(p))));
        match r {
            Some(Ok(x)) if !inside => w.ctx.fail(format!("{}.inverse({:?})", i.key, p), "the argument is not a probability".into(), format!("{:?}", x)),
            Some(Err(_)) if inside => w.ctx.fail(format!("{}.inverse({:?})", i.key, p), "the argument is a probability".into(), "panic".into()),
            _ => {}
        }
    }
}

/// Observations that determine no Gaussian.
fn inference(w: &W, i: &'static Inst) {
    let mut seqs: Vec<Vec<f64>> = vec![vec![]];
    for x in [0.0, -0.0, 1.0, -2.5, 1e300, 5e-324, 0.1] {
        seqs.push(vec![x]);
    }
    // repeated values, the sum of which is exact
    for x in [0.0, 1.0, -2.5, 1024.0, 0.25] {
        for n in 2..=16 {
            seqs.push(vec![x; n]);
        }
    }
    for bad in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        for n in 1..=4usize {
            for at in 0..n {
                let mut s: Vec<f64> = (0..n).map(|k| k as f64).collect();
                s[at] = bad;
                seqs.push(s);
            }
        }
    }
    for s in seqs {
        w.state(1);
        w.trans(s.len() as u64);
        w.trace(1);
        w.outcome("observations that determine no Gaussian", 1);
        let r = w.guard(i, &F, || "".into(), || std::panic::catch_unwind(|| s.iter().cloned().collect::<pd::Gaussian>()));
        if let Some(Ok(g)) = r {
            w.ctx.fail(format!("Gaussian.from_iter({:?})", s), "these observations determine no Gaussian".into(), format!("{:?}", (g.mu(), g.sigma())));
        }
    }
}

pub fn run(ctx: &'static Ctx) -> Outcome {
    let mut jobs: Vec<Job> = vec![];
    let dummy = match ctx.bare_instances(vec![P::Gaussian { mu: 0.0, sigma: 1.0 }]).pop() {
        Some(i) => i,
        None => return ("nothing: not even the standard Gaussian could be built".into(), false, vec![]),
    };
    for c in vectors(ctx.tier.up()).chunks(512) {
        let c = c.to_vec();
        jobs.push(Box::new(move |w: &W| chunk(w, dummy, &c)));
    }
    for i in ctx.bare_instances(super::c14_history(Tier::Thorough)) {
        if i.d.has_inverse() {
            jobs.push(Box::new(move |w: &W| inverses(w, i)));
        }
    }
    jobs.push(Box::new(move |w: &W| inference(w, dummy)));
    ctx.run(jobs);
    (
        "every vector over an alphabet of special values (NaN, infinities, zeros, subnormal, adjacent to one, largest) for every constructor, all \
         probability vectors over such an alphabet up to length three (four) and long ones with one entry changed; every special value as an argument of \
         every inverse; observation sequences without deviation"
            .into(),
        true,
        vec![
            "assertions are enabled (the documented preconditions are checked in debug builds only)",
            "infinite locations and scales, widths beyond the largest number, and binomials with probability zero or one are left open",
        ],
    )
}
