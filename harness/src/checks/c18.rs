//! C18: the answer to a question does not depend on what was built or asked before.
//!
//! Actions are: build a distribution and ask it one question. What an action answers when it is
//! the first thing a program does is found out in a process of its own. Every ordered pair of
//! actions, and every triple over a part of them, is then executed in single-threaded processes
//! (so that hidden state, if there is any, evolves the same way in every run); the last action
//! has to answer, bit by bit, as it did on its own, asked of a new object or of one built before.
use super::*;
use crate::dist::*;
use crate::env::*;

static F: &str = "question";

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Q {
    Build,
    Cdf(f64),
    Density(f64),
    Mass(usize),
    Inverse(f64),
    Entropy,
    Mean,
    Variance,
    Deviation,
    Skewness,
    Kurtosis,
    Median,
    Modes,
    Sample(u64),
    /// the same, each from a stream of its own
    Draw(u64),
}

struct Action {
    p: P,
    key: String,
    q: Q,
    /// among those that triples are made of
    few: bool,
}

struct Fnv(u64);
impl std::fmt::Write for Fnv {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100_0000_01B3);
        }
        Ok(())
    }
}

pub fn ask(p: &P, d: &D, q: Q) -> u64 {
    let one = |x: Option<f64>| x.map_or(0, |x| x.to_bits());
    match q {
        Q::Build => {
            let d = p.build();
            // all that the object holds
            let mut h = Fnv(0xCBF2_9CE4_8422_2325);
            let _ = std::fmt::Write::write_fmt(&mut h, format_args!("{:?}", d));
            h.0
        }
        Q::Cdf(x) => d.cdf(x).to_bits(),
        Q::Density(x) => d.pdf(x).to_bits(),
        Q::Mass(k) => d.mass(k).to_bits(),
        Q::Inverse(p) => d.inverse(p).to_bits(),
        Q::Entropy => d.entropy().to_bits(),
        Q::Mean => one(d.mean()),
        Q::Variance => one(d.variance()),
        Q::Deviation => one(d.deviation()),
        Q::Skewness => one(d.skewness()),
        Q::Kurtosis => one(d.kurtosis()),
        Q::Median => one(d.median()),
        Q::Modes => {
            let v = d.modes().unwrap_or_default();
            v.iter().fold(v.len() as u64, |a, x| a.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17) ^ x.to_bits())
        }
        Q::Draw(k) => {
            let mut s = Script::at(Benign::Weyl(k.wrapping_mul(0x1234_5677)), 0);
            let v = d.sample(&mut s).to_bits();
            v ^ (s.pos as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)
        }
        Q::Sample(k) => {
            let word = Benign::Weyl(k).word(7);
            let mut s = match k {
                0..=99 => Script::at(Benign::Weyl(k), 0),
                // the numbers read are such that many a rejection is about to happen
                _ => {
                    const U: [f64; 4] = [0.9, 0.99, 0.999, 0.999_999];
                    Script::new(std::slice::from_ref(&word), Benign::Split(U[k as usize % 4].to_bits()))
                }
            };
            let v = d.sample(&mut s).to_bits();
            v ^ (s.pos as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)
        }
    }
}

impl Action {
    fn name(&self) -> String {
        format!("{}.{:?}", self.key, self.q).replace(' ', "")
    }
    /// Builds the distribution and asks.
    #[inline]
    fn run(&self) -> u64 {
        let d = self.p.build();
        ask(&self.p, &d, self.q)
    }
}

/// Distributions of one family share parameters, so that a memory keyed by some of them is seen.
pub fn cast(t: bool) -> Vec<P> {
    let mut v = vec![];
    for p in [0.25, 0.5] {
        v.push(P::Bernoulli { p });
        v.push(P::Binomial { n: 10, p });
        v.push(P::Binomial { n: 40, p });
        v.push(P::Binomial { n: 1500, p });
    }
    v.push(P::BernoulliQ { q: 0.25 });
    v.push(P::BinomialQ { n: 10, q: 0.25 });
    v.push(P::Binomial { n: 2000, p: 0.004 });
    v.push(P::Binomial { n: 20_000, p: 0.25 });
    // np, npq, the sum, the product, the difference, the leading digits of parameters recur
    v.push(P::Binomial { n: 20, p: 0.5 });
    v.push(P::Binomial { n: 10, p: 0.75 });
    v.push(P::Binomial { n: 10, p: 0.25 + 1e-9 });
    v.push(P::Gamma { k: 3.0 + 1e-9, theta: 1.0 });
    v.push(P::Gamma { k: 0.5 + 1e-12, theta: 1.0 });
    v.push(P::Gaussian { mu: 0.0, sigma: 1.0 + 1e-9 });
    v.push(P::Beta { alpha: 2.0 + 1e-9, beta: 3.0, a: 0.0, b: 1.0 });
    for (a, b) in [(2.0, 3.0), (3.0, 2.0), (2.0, 2.0), (0.5, 0.5), (1.0, 1.0), (1.0, 4.0), (1.0, 6.0)] {
        v.push(P::Beta { alpha: a, beta: b, a: 0.0, b: 1.0 });
        v.push(P::Beta { alpha: a, beta: b, a: -1.0, b: 2.0 });
    }
    v.push(P::Categorical { p: vec![0.25, 0.25, 0.5] });
    v.push(P::Categorical { p: vec![0.5, 0.25, 0.25] });
    v.push(P::Categorical { p: vec![0.25, 0.5, 0.25, 0.0] });
    v.push(P::Categorical { p: vec![0.125; 8] });
    for mu in [0.0, 1.0] {
        for s in [1.0, 2.0] {
            v.push(P::Gaussian { mu, sigma: s });
            v.push(P::Laplace { mu, b: s });
            v.push(P::Logistic { mu, s });
            v.push(P::Lognormal { mu, sigma: s });
            v.push(P::Cauchy { x0: mu, gamma: s });
        }
    }
    for l in [0.5, 1.0, 2.0] {
        v.push(P::Exponential { lambda: l });
        for k in [0.5, 1.0, 3.0] {
            v.push(P::Gamma { k, theta: l });
        }
    }
    for c in [0.25, 0.5, 1.0] {
        v.push(P::Pert { a: -1.0, b: c, c: 2.0 });
        v.push(P::Triangular { a: -1.0, b: 2.0, c });
    }
    for b in [1.0, 2.0] {
        v.push(P::Uniform { a: 0.0, b });
        v.push(P::Uniform { a: -1.0, b });
    }
    if t {
        v.extend(super::c14_history(Tier::Thorough));
        for p in [0.1, 0.9] {
            v.push(P::Bernoulli { p });
            v.push(P::Binomial { n: 10, p });
            v.push(P::Binomial { n: 1500, p });
        }
        for x in [-2.0, 3.0] {
            v.push(P::Gaussian { mu: x, sigma: 0.5 });
            v.push(P::Cauchy { x0: x, gamma: 0.5 });
            v.push(P::Lognormal { mu: x, sigma: 0.5 });
        }
    }
    v
}

/// What is asked of a distribution, and whether triples are made of it.
pub fn questions(p: &P) -> Vec<(Q, bool)> {
    let mut v = vec![];
    let mut put = |q, few: bool| v.push((q, few));
    put(Q::Build, true);
    for (x, few) in [(-0.5, false), (0.25, true), (0.25 + 1e-9, false), (1.0, true), (3.0, false)] {
        put(Q::Cdf(x), few);
        if !p.discrete() {
            put(Q::Density(x), few);
        }
    }
    if p.discrete() {
        put(Q::Mass(0), true);
        if !matches!(&p, P::Categorical { p } if p.len() < 2) {
            put(Q::Mass(1), true);
        }
        if let P::Binomial { .. } | P::BinomialQ { .. } = p {
            put(Q::Mass(7), true);
            put(Q::Cdf(5.0), true);
        }
    }
    if !matches!(p, P::Gamma { .. }) {
        for (x, few) in [(0.0, false), (0.1, true), (0.1 + 1e-9, false), (0.625, true), (1.0, false)] {
            put(Q::Inverse(x), few);
        }
    }
    put(Q::Sample(0), true);
    put(Q::Sample(1), true);
    put(Q::Sample(2), false);
    put(Q::Sample(101), false);
    // the sum over all the outcomes is slow, and asked of small distributions only
    if !matches!(p, P::Binomial { n: 1001..=10_000, .. }) {
        put(Q::Entropy, true);
    }
    for q in [Q::Mean, Q::Variance, Q::Deviation, Q::Skewness, Q::Kurtosis, Q::Median, Q::Modes] {
        put(q, true);
    }
    v
}

fn actions(th: bool) -> Vec<Action> {
    let mut v = vec![];
    let mut seen: Vec<(&'static str, usize)> = vec![];
    for p in cast(true) {
        let family = p.family();
        let n = match seen.iter_mut().find(|s| s.0 == family) {
            Some(s) => {
                s.1 += 1;
                s.1
            }
            None => {
                seen.push((family, 0));
                0
            }
        };
        let key = p.key();
        // one (three) of each family
        let chosen = n < if th { 3 } else { 1 };
        let mut put = |q, few: bool| v.push(Action { p: p.clone(), key: key.clone(), q, few: chosen && (few || th) });
        for (q, few) in questions(&p) {
            put(q, few);
        }
    }
    v
}

/// In a process of its own: the answer to one question.
pub fn alone(tier: Tier, n: usize) -> String {
    let v = actions(tier == Tier::Thorough);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v[n].run())) {
        Ok(x) => format!("{:x}", x),
        Err(_) => "panic".into(),
    }
}

/// The answers of all the actions, each the first of its process.
fn answers(th: bool, n: usize) -> Vec<Option<u64>> {
    let exe = std::env::current_exe().expect("the executable has a path");
    let next = std::sync::atomic::AtomicUsize::new(0);
    let found = std::sync::Mutex::new(vec![None; n]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= n {
                    return;
                }
                let o = std::process::Command::new(&exe)
                    .args(["C18", if th { "thorough" } else { "quick" }])
                    .env_remove("VMC_SHARD")
                    .env("VMC_ALONE", k.to_string())
                    .output();
                if let Ok(o) = o {
                    let x = u64::from_str_radix(String::from_utf8_lossy(&o.stdout).trim(), 16).ok();
                    found.lock().unwrap()[k] = x;
                }
            });
        }
    });
    found.into_inner().unwrap()
}

fn compare(w: &W, path: &[&Action], last: &'static Inst, want: u64) -> bool {
    let mut got = (0, 0);
    let name = || path.iter().map(|a| a.name()).collect::<Vec<_>>().join("+");
    let b = path[path.len() - 1];
    let r = w.guard(last, &F, name, || {
        for a in &path[..path.len() - 1] {
            a.run();
        }
        // the object built before everything else first, as building may change what comes after
        got.0 = ask(&b.p, &last.d, b.q);
        for a in &path[..path.len() - 1] {
            a.run();
        }
        got.1 = b.run();
        got
    });
    w.trans(2 * path.len() as u64);
    w.trace(2);
    let (old, new) = match r {
        Some(g) => g,
        None => return false,
    };
    for (g, what) in [(old, "asked of an object built before"), (new, "asked of a new object")] {
        if g != want {
            w.ctx.fail(
                name(),
                format!("{}: as the first question of a program, the last one answers {:?} (bits {:#x})", what, f64::from_bits(want), want),
                format!("{:?}", f64::from_bits(g)),
            );
            return false;
        }
    }
    true
}

/// A distribution, distributions whose parameters are close to its own or are its own in other
/// places, and questions.
struct Group {
    ps: Vec<P>,
    qs: Vec<Q>,
}

/// Everything that differs a little.
fn neighbours(p: &P) -> Vec<P> {
    let near = |x: f64| {
        vec![
            x.next_up(),
            x * (1.0 + 1e-13),
            x * (1.0 + 1e-9),
            x * (1.0 + 1e-6),
            x * (1.0 + 1e-4),
            x + 1.0,
            -x,
            1.0 - x,
            1.0 / x,
            2.0 * x,
            x as f32 as f64,
            f64::from_bits(x.to_bits() ^ 1 << 40),
        ]
    };
    fn each<const N: usize>(x: [f64; N], near: &dyn Fn(f64) -> Vec<f64>, f: &dyn Fn([f64; N]) -> P) -> Vec<P> {
        let mut v = vec![];
        for k in 0..N {
            for y in near(x[k]) {
                let mut z = x;
                z[k] = y;
                v.push(f(z));
            }
            for l in 0..k {
                let mut z = x;
                z.swap(k, l);
                v.push(f(z));
                // the sum and the product stay
                let mut z = x;
                (z[k], z[l]) = (x[k] + 0.25, x[l] - 0.25);
                v.push(f(z));
                (z[k], z[l]) = (x[k] * 2.0, x[l] / 2.0);
                v.push(f(z));
                // all move
                v.push(f(x.map(|x| x + 1.0)));
                v.push(f(x.map(|x| x * 2.0)));
            }
        }
        v
    }
    let trials = |n: usize| vec![n + 1, n + 256, n + (1 << 16), n + (1 << 32), 2 * n, n / 2];
    match *p {
        P::Bernoulli { p } => each([p], &near, &|[p]| P::Bernoulli { p }),
        P::BernoulliQ { q } => each([q], &near, &|[q]| P::BernoulliQ { q }),
        P::Beta { alpha, beta, a, b } => each([alpha, beta, a, b], &near, &|[alpha, beta, a, b]| P::Beta { alpha, beta, a, b }),
        P::Binomial { n, p } => {
            let mut v = each([p], &near, &|[p]| P::Binomial { n, p });
            v.extend(trials(n).into_iter().map(|n| P::Binomial { n, p }));
            // the mean stays
            v.push(P::Binomial { n: 2 * n, p: 0.5 * p });
            v.push(P::BinomialQ { n, q: p });
            v
        }
        P::BinomialQ { n, q } => {
            let mut v = each([q], &near, &|[q]| P::BinomialQ { n, q });
            v.extend(trials(n).into_iter().map(|n| P::BinomialQ { n, q }));
            v.push(P::Binomial { n, p: q });
            v
        }
        P::Categorical { ref p } => {
            let mut v = vec![];
            for k in 1..p.len().min(6) {
                let mut q = p.clone();
                q.swap(k, k - 1);
                v.push(P::Categorical { p: q });
                for d in [1e-14, 1e-10, 1e-6, 1e-3] {
                    let mut q = p.clone();
                    q[k] += d;
                    q[k - 1] -= d;
                    v.push(P::Categorical { p: q });
                }
            }
            let mut q = p.clone();
            q.push(0.0);
            v.push(P::Categorical { p: q.clone() });
            q.rotate_right(1);
            v.push(P::Categorical { p: q });
            v
        }
        P::Cauchy { x0, gamma } => each([x0, gamma], &near, &|[x0, gamma]| P::Cauchy { x0, gamma }),
        P::Exponential { lambda } => each([lambda], &near, &|[lambda]| P::Exponential { lambda }),
        P::Gamma { k, theta } => each([k, theta], &near, &|[k, theta]| P::Gamma { k, theta }),
        P::Gaussian { mu, sigma } => each([mu, sigma], &near, &|[mu, sigma]| P::Gaussian { mu, sigma }),
        P::Laplace { mu, b } => each([mu, b], &near, &|[mu, b]| P::Laplace { mu, b }),
        P::Logistic { mu, s } => each([mu, s], &near, &|[mu, s]| P::Logistic { mu, s }),
        P::Lognormal { mu, sigma } => each([mu, sigma], &near, &|[mu, sigma]| P::Lognormal { mu, sigma }),
        P::Pert { a, b, c } => each([a, b, c], &near, &|[a, b, c]| P::Pert { a, b, c }),
        P::Triangular { a, b, c } => each([a, b, c], &near, &|[a, b, c]| P::Triangular { a, b, c }),
        P::Uniform { a, b } => each([a, b], &near, &|[a, b]| P::Uniform { a, b }),
    }
}

fn groups(th: bool) -> Vec<Group> {
    let mut families: std::collections::BTreeMap<&'static str, Vec<P>> = Default::default();
    for p in crate::lattice::all(Tier::Quick) {
        match p {
            P::Categorical { ref p } if p.len() < 2 || p.len() > 40 => {}
            // their entropy takes long
            P::Binomial { n, .. } | P::BinomialQ { n, .. } if n > 100_000 => {}
            _ => families.entry(p.family()).or_default().push(p),
        }
    }
    let limit = if th { 8000 } else { 600 };
    let mut bases = cast(true);
    for v in families.values() {
        let step = v.len().div_ceil(limit);
        bases.extend(v.iter().step_by(step).cloned());
    }
    let mut seen = std::collections::HashSet::new();
    bases.retain(|p| seen.insert(p.key()));
    let mut v = vec![];
    for p in bases {
        let (loc, scale) = R::bare(&p).loc_scale();
        let mut qs: Vec<Q> = questions(&p).into_iter().map(|q| q.0).collect();
        if !p.discrete() {
            for x in [0.3, 0.3 + 1e-12, 0.3 + 1e-9, 0.3 + 1e-6, 0.3 + 1e-4, -0.3, 0.7, 1.2, 2.2, -0.7] {
                qs.push(Q::Cdf(loc + scale * x));
                qs.push(Q::Density(loc + scale * x));
            }
        }
        if qs.contains(&Q::Inverse(0.1)) {
            for x in [0.1f64.next_up(), 0.1 + 1e-12, 0.1 + 1e-6, 0.1 + 1e-4, 0.9] {
                qs.push(Q::Inverse(x));
            }
        }
        // only what can be built
        let mut ps = vec![p.clone()];
        ps.extend(neighbours(&p).into_iter().filter(valid));
        let mut seen = std::collections::HashSet::new();
        ps.retain(|p| seen.insert(format!("{:?}", p)));
        v.push(Group { ps, qs });
    }
    // many draws, so that what rarely happens in a draw does
    for p in cast(true) {
        v.push(Group { ps: vec![p], qs: (0..if th { 100_000 } else { 6_000 }).map(Q::Draw).collect() });
    }
    v
}

/// Clearly within the domain of the constructor.
fn valid(p: &P) -> bool {
    let unit = |p: f64| 1e-300 < p && p < 1.0;
    let good = |x: f64| x.is_finite() && 1e-150 < x && x < 1e150;
    match *p {
        P::Bernoulli { p } => unit(p),
        P::BernoulliQ { q } => unit(q),
        P::Beta { alpha, beta, a, b } => 1e-3 < alpha && alpha < 1e5 && 1e-3 < beta && beta < 1e5 && a < b && good(b - a),
        P::Binomial { p, .. } => unit(p),
        P::BinomialQ { q, .. } => unit(q),
        P::Categorical { ref p } => p.iter().all(|&p| (0.0..=1.0).contains(&p)) && (p.iter().sum::<f64>() - 1.0).abs() < 1e-13,
        P::Cauchy { gamma, .. } => good(gamma),
        P::Exponential { lambda } => good(lambda),
        P::Gamma { k, theta } => 1e-3 < k && k < 1e6 && good(theta),
        P::Gaussian { sigma, .. } => good(sigma),
        P::Laplace { b, .. } => good(b),
        P::Logistic { s, .. } => good(s),
        P::Lognormal { sigma, .. } => good(sigma),
        P::Pert { a, b, c } => a < b && b < c && good(b - a) && good(c - b),
        P::Triangular { a, b, c } => a < b && a <= c && c <= b && good(b - a),
        P::Uniform { a, b } => a < b && good(b - a),
    }
}

/// The orders in which the questions are asked.
const ORDERS: usize = 4;

/// In a process of its own: all the answers of a part of the groups, the questions being asked
/// in one of the orders.
pub fn ordered(tier: Tier, spec: &str) {
    let f: Vec<&str> = spec.splitn(4, ':').collect();
    let (order, part, parts): (usize, usize, usize) = (f[0].parse().unwrap(), f[1].parse().unwrap(), f[2].parse().unwrap());
    let all = groups(tier == Tier::Thorough);
    let gs: Vec<&Group> = all.iter().skip(part).step_by(parts).collect();
    let mut starts = vec![];
    let mut n = 0;
    for g in &gs {
        starts.push(n);
        n += g.ps.len() * g.qs.len();
    }
    let mut out = vec![0u64; n];
    let mut ask = |g: usize, p: usize, q: usize| {
        let group = gs[g];
        out[starts[g] + p * group.qs.len() + q] = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let d = group.ps[p].build();
            self::ask(&group.ps[p], &d, group.qs[q])
        }))
        .unwrap_or(0xDEAD_DEAD_DEAD_DEAD);
    };
    match order {
        // the same question of distributions that are alike
        0 => (0..gs.len()).for_each(|g| (0..gs[g].qs.len()).for_each(|q| (0..gs[g].ps.len()).for_each(|p| ask(g, p, q)))),
        1 => (0..gs.len()).rev().for_each(|g| (0..gs[g].qs.len()).rev().for_each(|q| (0..gs[g].ps.len()).rev().for_each(|p| ask(g, p, q)))),
        // all the questions of one distribution
        2 => (0..gs.len()).for_each(|g| (0..gs[g].ps.len()).for_each(|p| (0..gs[g].qs.len()).for_each(|q| ask(g, p, q)))),
        // one question of one distribution of each group in turn
        _ => {
            let (ps, qs) = (gs.iter().map(|g| g.ps.len()).max().unwrap_or(0), gs.iter().map(|g| g.qs.len()).max().unwrap_or(0));
            for p in (0..ps).rev() {
                for q in 0..qs {
                    for g in (0..gs.len()).rev() {
                        if p < gs[g].ps.len() && q < gs[g].qs.len() {
                            ask(g, p, q);
                        }
                    }
                }
            }
        }
    }
    let bytes: Vec<u8> = out.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(f[3], bytes).expect("the answers can be written");
}

/// Asks the same questions in several orders, each in processes of its own.
fn orders(ctx: &'static Ctx) {
    let th = ctx.thorough();
    let exe = std::env::current_exe().expect("the executable has a path");
    let parts = 8;
    let work: Vec<(usize, usize)> = (0..ORDERS).flat_map(|o| (0..parts).map(move |k| (o, k))).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let found = std::sync::Mutex::new(vec![vec![vec![]; ORDERS]; parts]);
    let limit = std::time::Duration::from_secs(if th { 1200 } else { 200 });
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let n = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if n >= work.len() {
                    return;
                }
                let (o, k) = work[n];
                let path = format!("{}/harness/target/c18-order-{}-{}-{}", root(), std::process::id(), o, k);
                let child = std::process::Command::new(&exe)
                    .args(["C18", if th { "thorough" } else { "quick" }])
                    .env_remove("VMC_SHARD")
                    .env("VMC_ORDER", format!("{}:{}:{}:{}", o, k, parts, path))
                    .stderr(std::process::Stdio::null())
                    .spawn();
                if let Ok(mut child) = child {
                    let start = std::time::Instant::now();
                    while let Ok(None) = child.try_wait() {
                        if start.elapsed() > limit {
                            let _ = child.kill();
                        }
                        std::thread::sleep(std::time::Duration::from_millis(20));
                    }
                }
                let bytes = std::fs::read(&path).unwrap_or_default();
                let _ = std::fs::remove_file(&path);
                found.lock().unwrap()[k][o] = bytes.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
            });
        }
    });
    let found = found.into_inner().unwrap();
    let all = groups(th);
    let mut count = 0;
    for (part, answers) in found.iter().enumerate() {
        let mut n = 0;
        for g in all.iter().skip(part).step_by(parts) {
            for p in &g.ps {
                for q in &g.qs {
                    let a: Vec<Option<u64>> = answers.iter().map(|v| v.get(n).copied()).collect();
                    n += 1;
                    count += ORDERS as u64;
                    if a.iter().any(|x| *x != a[0]) || a[0].is_none() {
                        let show: Vec<String> = a.iter().map(|x| x.map_or("none".into(), |x| format!("{:?}", f64::from_bits(x)))).collect();
                        ctx.fail(
                            format!("{}.{:?}(order)", p.key(), q).replace(' ', ""),
                            "the answer is not the same when the same questions, of this and of similar distributions, are asked in other orders".into(),
                            show.join(" "),
                        );
                    }
                }
            }
        }
    }
    ctx.states.fetch_add(count / ORDERS as u64, std::sync::atomic::Ordering::Relaxed);
    ctx.transitions.fetch_add(count, std::sync::atomic::Ordering::Relaxed);
    ctx.evals.fetch_add(count, std::sync::atomic::Ordering::Relaxed);
    *ctx.outcomes.lock().unwrap().entry("answers compared between orders".into()).or_insert(0) += count;
}

/// Where the processes that explore find the answers.
const ANSWERS: &str = "VMC_ANSWERS";

pub fn run(ctx: &'static Ctx) -> Outcome {
    let th = ctx.thorough();
    let acts: &'static Vec<Action> = Box::leak(Box::new(actions(th)));
    if ctx.shard.is_none() {
        let want = answers(th, acts.len());
        let path = format!("{}/harness/target/c18-answers-{}", root(), std::process::id());
        let text: Vec<String> = want.iter().map(|x| x.map_or("panic".into(), |x| format!("{:x}", x))).collect();
        std::fs::write(&path, text.join("\n")).expect("the answers can be written");
        std::env::set_var(ANSWERS, &path);
        for (a, x) in acts.iter().zip(&want) {
            if x.is_none() {
                ctx.fail(a.name(), "no answer when asked on its own".into(), "panic".into());
            }
        }
        ctx.run_shards(8);
        orders(ctx);
        let _ = std::fs::remove_file(&path);
    } else {
        let text = std::fs::read_to_string(std::env::var(ANSWERS).unwrap_or_default()).expect("the answers can be read");
        let want: Vec<Option<u64>> = text.lines().map(|x| u64::from_str_radix(x, 16).ok()).collect();
        ctx.run(vec![Box::new(move |w: &W| {
            let mut built: std::collections::HashMap<&'static str, &'static Inst> = Default::default();
            for a in acts.iter() {
                if !built.contains_key(a.key.as_str()) {
                    match crate::engine::build_bare(a.p.clone()) {
                        Ok(i) => built.insert(&a.key, i),
                        Err(m) => {
                            w.ctx.fail(format!("{}.new", a.key), format!("constructor panicked: {}", m), "panic".into());
                            return;
                        }
                    };
                }
            }
            for (n, b) in acts.iter().enumerate() {
                let x = match want.get(n) {
                    Some(Some(x)) if ctx.mine(n) => *x,
                    _ => continue,
                };
                let last = built[b.key.as_str()];
                w.outcome(&format!("{} asked last, after every other action", b.p.family()), 1);
                w.state(1);
                for a in acts.iter() {
                    if !compare(w, &[a, b], last, x) {
                        break;
                    }
                }
            }
            let few: Vec<usize> = (0..acts.len()).filter(|k| acts[*k].few).collect();
            for &n in &few {
                let c = &acts[n];
                let x = match want.get(n) {
                    Some(Some(x)) if ctx.mine(n) => *x,
                    _ => continue,
                };
                let last = built[c.key.as_str()];
                w.outcome(&format!("{} asked last, after every other pair", c.p.family()), 1);
                w.state(1);
                'a: for &a in &few {
                    for &b in &few {
                        if !compare(w, &[&acts[a], &acts[b], c], last, x) {
                            break 'a;
                        }
                    }
                }
            }
        })]);
    }
    (
        "every ordered pair of actions (building a distribution and asking a question, or drawing a sample), and every triple over a part of them, on a cast \
         of distributions that share parameters within families, in single-threaded processes; answers compared bit by bit with those given \
         in processes of their own; in addition, questions asked of many distributions and of distributions whose parameters are close to theirs, share \
         their sum, product or bits, or are exchanged, in four orders, in processes of their own; answers compared bit by bit"
            .into(),
        true,
        vec!["hidden state, if any, lives in the process: it is looked for by histories of one thread"],
    )
}
