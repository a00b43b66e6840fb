use crate::engine::*;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod scalars;

pub type Outcome = (String, bool, Vec<&'static str>);

pub fn run(ctx: &'static Ctx) -> Option<Outcome> {
    Some(match ctx.prop.as_str() {
        "C01" => c01::run(ctx),
        "C02" => c02::run(ctx),
        "C03" => c03::run(ctx),
        "C04" => scalars::c04(ctx),
        "C05" => scalars::c05(ctx),
        "C06" => scalars::c06(ctx),
        "C07" => scalars::c07(ctx),
        "C08" => scalars::c08(ctx),
        "C09" => c09::run(ctx),
        "C10" => c10::run(ctx),
        "C11" => c11::run(ctx),
        "C12" => c12::run(ctx),
        "C13" => c13::run(ctx),
        "C14" => c14::run(ctx),
        "C15" => c15::run(ctx),
        "C16" => c16::run(ctx),
        "C17" => c17::run(ctx),
        "C18" => c18::run(ctx),
        "C19" => c19::run(ctx),
        _ => return None,
    })
}

/// Values of the reference model for tools/validate_reference.py: key, query, argument, high and
/// low part.
pub fn dump_ref(t: Tier) {
    use crate::dd::Dd;
    use crate::dist::{P, R};
    let step = if t == Tier::Quick { 37 } else { 7 };
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    use std::io::Write;
    let mut put = |key: &str, q: &str, x: f64, v: Dd| {
        let _ = writeln!(out, "{}\t{}\t{:?}\t{:?}\t{:?}", key, q, x, v.h, v.l);
    };
    let mut count: std::collections::BTreeMap<&str, usize> = Default::default();
    for p in crate::lattice::scalar(Tier::Quick) {
        let c = count.entry(match &p { P::Bernoulli { .. } | P::BernoulliQ { .. } => "Bernoulli", _ => p.family() }).or_insert(0);
        *c += 1;
        let many = p.family() == "Categorical" || p.family() == "Beta" || p.family() == "Binomial";
        if *c % (if many { step * 5 } else { step }) != 1 {
            continue;
        }
        let key = p.key();
        let i: &'static Inst = Box::leak(Box::new(Inst { d: p.build(), r: R::new(&p), key: key.clone(), p }));
        let n = f64::NAN;
        let r = &i.r;
        for (q, v) in [("mean", r.mean()), ("variance", r.variance()), ("skewness", r.skewness()), ("kurtosis", r.kurtosis())] {
            if let Some(v) = v {
                put(&key, q, n, v);
            }
        }
        put(&key, "entropy", n, r.entropy());
        if i.p.discrete() {
            let ks = crate::lattice::ks_discrete(i, Tier::Quick);
            let s = (ks.len() / 12).max(1);
            for k in ks.into_iter().step_by(s) {
                put(&key, "mass", k as f64, r.mass(k));
                let (a, b) = r.cdf_k(k as i64);
                put(&key, "lower", k as f64, a);
                put(&key, "upper", k as f64, b);
            }
        } else {
            let xs = crate::lattice::xs_continuous(i, Tier::Quick);
            let s = (xs.len() / 24).max(1);
            for x in xs.into_iter().step_by(s) {
                let (lo, hi) = r.support();
                if !x.is_finite() || x.abs() > 1e200 || x <= lo || x >= hi {
                    continue;
                }
                put(&key, "density", x, r.pdf(x));
                let (a, b) = r.cdf(x);
                put(&key, "lower", x, a);
                put(&key, "upper", x, b);
            }
        }
    }
}

/// One job per chunk of instances, interleaved so that expensive ones spread out.
pub fn per_inst(insts: Vec<&'static Inst>, f: fn(&W, &'static Inst)) -> Vec<Job> {
    insts.into_iter().map(|i| Box::new(move |w: &W| f(w, i)) as Job).collect()
}

/// One job per `n` instances.
pub fn chunked(insts: Vec<&'static Inst>, n: usize, f: fn(&W, &'static Inst)) -> Vec<Job> {
    insts
        .chunks(n)
        .map(|c| {
            let c = c.to_vec();
            Box::new(move |w: &W| {
                for &i in &c {
                    f(w, i)
                }
            }) as Job
        })
        .collect()
}

/// Ordinary instances whose copies are followed through histories.
pub fn c14_history(t: Tier) -> Vec<crate::dist::P> {
    use crate::dist::P;
    let mut v = vec![
        P::Bernoulli { p: 0.25 },
        P::BernoulliQ { q: 0.1 },
        P::Beta { alpha: 2.0, beta: 3.0, a: -1.0, b: 2.0 },
        P::Beta { alpha: 0.5, beta: 0.5, a: 0.0, b: 1.0 },
        P::Binomial { n: 12, p: 0.25 },
        P::BinomialQ { n: 5, q: 0.1 },
        P::Binomial { n: 2000, p: 0.5 },
        P::Categorical { p: vec![0.25, 0.0, 0.5, 0.25] },
        P::Categorical { p: vec![1.0] },
        P::Cauchy { x0: 1.0, gamma: 2.0 },
        P::Exponential { lambda: 2.5 },
        P::Gamma { k: 0.5, theta: 2.0 },
        P::Gamma { k: 7.0, theta: 0.1 },
        P::Gaussian { mu: -1.0, sigma: 2.0 },
        P::Laplace { mu: 1.0, b: 0.5 },
        P::Logistic { mu: 1.0, s: 0.5 },
        P::Lognormal { mu: 0.5, sigma: 0.25 },
        P::Pert { a: -1.0, b: 0.0, c: 3.0 },
        P::Triangular { a: -1.0, b: 3.0, c: 0.5 },
        P::Uniform { a: -1.0, b: 3.0 },
    ];
    if t == Tier::Thorough {
        v.extend([
            P::Triangular { a: 0.0, b: 1.0, c: 0.0 },
            P::Gamma { k: 1.0, theta: 1.0 },
            P::Categorical { p: vec![0.1; 10] },
            P::Binomial { n: 0, p: 0.5 },
            P::Beta { alpha: 1.0, beta: 1.0, a: 0.0, b: 1.0 },
            P::Exponential { lambda: 1.0 },
        ]);
    }
    v
}
