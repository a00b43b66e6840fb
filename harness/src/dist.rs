//! Parameter vectors, the real distributions behind a uniform query interface,
//! and the reference model (textbook definitions, double-double).
use crate::dd::*;
use crate::refmath::*;
use probability::distribution as pd;
use probability::distribution::*;
use probability::source::Source;

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Bernoulli { p: f64 },
    BernoulliQ { q: f64 },
    Beta { alpha: f64, beta: f64, a: f64, b: f64 },
    Binomial { n: usize, p: f64 },
    BinomialQ { n: usize, q: f64 },
    Categorical { p: Vec<f64> },
    Cauchy { x0: f64, gamma: f64 },
    Exponential { lambda: f64 },
    Gamma { k: f64, theta: f64 },
    Gaussian { mu: f64, sigma: f64 },
    Laplace { mu: f64, b: f64 },
    Logistic { mu: f64, s: f64 },
    Lognormal { mu: f64, sigma: f64 },
    Pert { a: f64, b: f64, c: f64 },
    Triangular { a: f64, b: f64, c: f64 },
    Uniform { a: f64, b: f64 },
}

impl P {
    pub fn key(&self) -> String {
        if let P::Categorical { p } = self {
            if p.len() > 64 {
                // repeated entries once, with their number
                let mut s = vec![];
                for g in p.chunk_by(|x, y| x.to_bits() == y.to_bits()) {
                    s.push(if g.len() > 1 { format!("{:?}*{}", g[0], g.len()) } else { format!("{:?}", g[0]) });
                }
                return format!("Categorical(p=[{}])", s.join(","));
            }
        }
        let s = format!("{:?}", self);
        s.replace(" { ", "(").replace(" }", ")").replace(", ", ",").replace(": ", "=")
    }
    pub fn family(&self) -> &'static str {
        match self {
            P::Bernoulli { .. } | P::BernoulliQ { .. } => "Bernoulli",
            P::Beta { .. } => "Beta",
            P::Binomial { .. } | P::BinomialQ { .. } => "Binomial",
            P::Categorical { .. } => "Categorical",
            P::Cauchy { .. } => "Cauchy",
            P::Exponential { .. } => "Exponential",
            P::Gamma { .. } => "Gamma",
            P::Gaussian { .. } => "Gaussian",
            P::Laplace { .. } => "Laplace",
            P::Logistic { .. } => "Logistic",
            P::Lognormal { .. } => "Lognormal",
            P::Pert { .. } => "Pert",
            P::Triangular { .. } => "Triangular",
            P::Uniform { .. } => "Uniform",
        }
    }
    pub fn discrete(&self) -> bool {
        matches!(self.family(), "Bernoulli" | "Binomial" | "Categorical")
    }
    pub fn build(&self) -> D {
        match *self {
            P::Bernoulli { p } => D::Bernoulli(pd::Bernoulli::new(p)),
            P::BernoulliQ { q } => D::Bernoulli(pd::Bernoulli::with_failure(q)),
            P::Beta { alpha, beta, a, b } => D::Beta(pd::Beta::new(alpha, beta, a, b)),
            P::Binomial { n, p } => D::Binomial(pd::Binomial::new(n, p)),
            P::BinomialQ { n, q } => D::Binomial(pd::Binomial::with_failure(n, q)),
            P::Categorical { ref p } => D::Categorical(pd::Categorical::new(p)),
            P::Cauchy { x0, gamma } => D::Cauchy(pd::Cauchy::new(x0, gamma)),
            P::Exponential { lambda } => D::Exponential(pd::Exponential::new(lambda)),
            P::Gamma { k, theta } => D::Gamma(pd::Gamma::new(k, theta)),
            P::Gaussian { mu, sigma } => D::Gaussian(pd::Gaussian::new(mu, sigma)),
            P::Laplace { mu, b } => D::Laplace(pd::Laplace::new(mu, b)),
            P::Logistic { mu, s } => D::Logistic(pd::Logistic::new(mu, s)),
            P::Lognormal { mu, sigma } => D::Lognormal(pd::Lognormal::new(mu, sigma)),
            P::Pert { a, b, c } => D::Pert(pd::Pert::new(a, b, c)),
            P::Triangular { a, b, c } => D::Triangular(pd::Triangular::new(a, b, c)),
            P::Uniform { a, b } => D::Uniform(pd::Uniform::new(a, b)),
        }
    }
}

#[derive(Clone, Debug)]
pub enum D {
    Bernoulli(pd::Bernoulli),
    Beta(pd::Beta),
    Binomial(pd::Binomial),
    Categorical(pd::Categorical),
    Cauchy(pd::Cauchy),
    Exponential(pd::Exponential),
    Gamma(pd::Gamma),
    Gaussian(pd::Gaussian),
    Laplace(pd::Laplace),
    Logistic(pd::Logistic),
    Lognormal(pd::Lognormal),
    Pert(pd::Pert),
    Triangular(pd::Triangular),
    Uniform(pd::Uniform),
}

// Whether the distributions can be shared by threads is judged by C19, not by the compiler.
unsafe impl Send for D {}
unsafe impl Sync for D {}

macro_rules! each {
    ($self:expr, $d:ident => $e:expr) => {
        match $self {
            D::Bernoulli($d) => $e,
            D::Beta($d) => $e,
            D::Binomial($d) => $e,
            D::Categorical($d) => $e,
            D::Cauchy($d) => $e,
            D::Exponential($d) => $e,
            D::Gamma($d) => $e,
            D::Gaussian($d) => $e,
            D::Laplace($d) => $e,
            D::Logistic($d) => $e,
            D::Lognormal($d) => $e,
            D::Pert($d) => $e,
            D::Triangular($d) => $e,
            D::Uniform($d) => $e,
        }
    };
}
pub(crate) use each;

pub trait ToF {
    fn to_f(self) -> f64;
}
impl ToF for f64 {
    fn to_f(self) -> f64 {
        self
    }
}
impl ToF for u8 {
    fn to_f(self) -> f64 {
        self as f64
    }
}
impl ToF for usize {
    fn to_f(self) -> f64 {
        self as f64
    }
}

impl D {
    pub fn cdf(&self, x: f64) -> f64 {
        each!(self, d => d.distribution(x))
    }
    /// Density of a continuous family.
    pub fn pdf(&self, x: f64) -> f64 {
        match self {
            D::Beta(d) => d.density(x),
            D::Cauchy(d) => d.density(x),
            D::Exponential(d) => d.density(x),
            D::Gamma(d) => d.density(x),
            D::Gaussian(d) => d.density(x),
            D::Laplace(d) => d.density(x),
            D::Logistic(d) => d.density(x),
            D::Lognormal(d) => d.density(x),
            D::Pert(d) => d.density(x),
            D::Triangular(d) => d.density(x),
            D::Uniform(d) => d.density(x),
            _ => unreachable!(),
        }
    }
    pub fn mass(&self, k: usize) -> f64 {
        match self {
            D::Bernoulli(d) => d.mass(if k > 255 { 255 } else { k as u8 }),
            D::Binomial(d) => d.mass(k),
            D::Categorical(d) => d.mass(k),
            _ => unreachable!(),
        }
    }
    pub fn has_inverse(&self) -> bool {
        !matches!(self, D::Gamma(_))
    }
    pub fn inverse(&self, p: f64) -> f64 {
        match self {
            D::Bernoulli(d) => d.inverse(p).to_f(),
            D::Beta(d) => d.inverse(p),
            D::Binomial(d) => d.inverse(p).to_f(),
            D::Categorical(d) => d.inverse(p).to_f(),
            D::Cauchy(d) => d.inverse(p),
            D::Exponential(d) => d.inverse(p),
            D::Gamma(_) => unreachable!(),
            D::Gaussian(d) => d.inverse(p),
            D::Laplace(d) => d.inverse(p),
            D::Logistic(d) => d.inverse(p),
            D::Lognormal(d) => d.inverse(p),
            D::Pert(d) => d.inverse(p),
            D::Triangular(d) => d.inverse(p),
            D::Uniform(d) => d.inverse(p),
        }
    }
    pub fn entropy(&self) -> f64 {
        each!(self, d => d.entropy())
    }
    pub fn mean(&self) -> Option<f64> {
        macro_rules! m { ($($v:ident)*) => { match self { $(D::$v(d) => Some(d.mean()),)* _ => None } } }
        m!(Bernoulli Beta Binomial Categorical Exponential Gamma Gaussian Laplace Logistic Lognormal Pert Triangular Uniform)
    }
    pub fn variance(&self) -> Option<f64> {
        macro_rules! m { ($($v:ident)*) => { match self { $(D::$v(d) => Some(d.variance()),)* _ => None } } }
        m!(Bernoulli Beta Binomial Categorical Exponential Gamma Gaussian Laplace Logistic Lognormal Pert Triangular Uniform)
    }
    pub fn deviation(&self) -> Option<f64> {
        macro_rules! m { ($($v:ident)*) => { match self { $(D::$v(d) => Some(d.deviation()),)* _ => None } } }
        m!(Bernoulli Beta Binomial Categorical Exponential Gamma Gaussian Laplace Logistic Lognormal Pert Triangular Uniform)
    }
    pub fn skewness(&self) -> Option<f64> {
        macro_rules! m { ($($v:ident)*) => { match self { $(D::$v(d) => Some(d.skewness()),)* _ => None } } }
        m!(Bernoulli Beta Binomial Categorical Exponential Gamma Gaussian Laplace Logistic Lognormal Pert Triangular Uniform)
    }
    pub fn kurtosis(&self) -> Option<f64> {
        macro_rules! m { ($($v:ident)*) => { match self { $(D::$v(d) => Some(d.kurtosis()),)* _ => None } } }
        m!(Bernoulli Beta Binomial Categorical Exponential Gamma Gaussian Laplace Logistic Lognormal Pert Triangular Uniform)
    }
    pub fn median(&self) -> Option<f64> {
        macro_rules! m { ($($v:ident)*) => { match self { $(D::$v(d) => Some(d.median()),)* _ => None } } }
        m!(Bernoulli Beta Binomial Categorical Cauchy Exponential Gaussian Laplace Logistic Lognormal Pert Triangular Uniform)
    }
    pub fn median_offered(&self) -> bool {
        !matches!(self, D::Gamma(_))
    }
    pub fn modes(&self) -> Option<Vec<f64>> {
        macro_rules! m { ($($v:ident)*) => { match self { $(D::$v(d) => Some(d.modes().into_iter().map(|x| x.to_f()).collect()),)* _ => None } } }
        m!(Bernoulli Beta Binomial Categorical Cauchy Exponential Gamma Gaussian Laplace Logistic Lognormal Pert Triangular)
    }
    #[inline]
    pub fn sample<S: Source>(&self, s: &mut S) -> f64 {
        each!(self, d => d.sample(s).to_f())
    }
    /// One draw through the `Independent` sampler.
    pub fn sample_via_independent<S: Source>(&self, s: &mut S) -> f64 {
        use probability::sampler::Independent;
        each!(self, d => Independent(d, s).next().expect("the sampler ended").to_f())
    }
    /// A copy (for `Copy` families) or clone.
    pub fn copied(&self) -> D {
        match self {
            D::Bernoulli(d) => D::Bernoulli(*d),
            D::Beta(d) => D::Beta(*d),
            D::Binomial(d) => D::Binomial(*d),
            D::Categorical(d) => D::Categorical(d.clone()),
            D::Cauchy(d) => D::Cauchy(*d),
            D::Exponential(d) => D::Exponential(*d),
            D::Gamma(d) => D::Gamma(*d),
            D::Gaussian(d) => D::Gaussian(*d),
            D::Laplace(d) => D::Laplace(*d),
            D::Logistic(d) => D::Logistic(*d),
            D::Lognormal(d) => D::Lognormal(*d),
            D::Pert(d) => D::Pert(*d),
            D::Triangular(d) => D::Triangular(*d),
            D::Uniform(d) => D::Uniform(*d),
        }
    }
}

pub const EPS: f64 = f64::EPSILON;

/// Reference model of one parameter vector.
#[derive(Clone, Debug)]
pub struct R {
    pub p: P,
    al: Dd,
    be: Dd,
    lnb: Dd,
    lng: Dd,
    /// success / failure probability
    sp: Dd,
    sq: Dd,
    cat: Vec<Dd>,
    cat_cum: Vec<Dd>,
}

fn two() -> Dd {
    d(2.0)
}

impl R {
    /// The parameters only, for vectors that are too extreme for the reference functions.
    pub fn bare(p: &P) -> R {
        R { p: p.clone(), al: ZERO, be: ZERO, lnb: ZERO, lng: ZERO, sp: ZERO, sq: ZERO, cat: vec![], cat_cum: vec![] }
    }
    pub fn new(p: &P) -> R {
        let mut r = R {
            p: p.clone(),
            al: ZERO,
            be: ZERO,
            lnb: ZERO,
            lng: ZERO,
            sp: ZERO,
            sq: ZERO,
            cat: vec![],
            cat_cum: vec![],
        };
        match *p {
            P::Bernoulli { p } | P::Binomial { p, .. } => {
                r.sp = d(p);
                r.sq = ONE - d(p);
            }
            P::BernoulliQ { q } | P::BinomialQ { q, .. } => {
                r.sq = d(q);
                r.sp = ONE - d(q);
            }
            P::Beta { alpha, beta, .. } => {
                r.al = d(alpha);
                r.be = d(beta);
                r.lnb = ln_beta(r.al, r.be);
            }
            P::Pert { a, b, c } => {
                let w = d(c) - d(a);
                r.al = ONE + d(4.0) * (d(b) - d(a)) / w;
                r.be = ONE + d(4.0) * (d(c) - d(b)) / w;
                r.lnb = ln_beta(r.al, r.be);
            }
            P::Gamma { k, .. } => r.lng = ln_gamma(d(k)),
            P::Categorical { ref p } => {
                // The vector sums to one only up to rounding; the model is the
                // normalised vector.
                let s = p.iter().fold(ZERO, |s, &x| s + d(x));
                let mut cum = ZERO;
                for &x in p {
                    let m = d(x) / s;
                    cum = cum + m;
                    r.cat.push(m);
                    r.cat_cum.push(cum);
                }
            }
            _ => {}
        }
        r
    }
    pub fn sp(&self) -> Dd {
        self.sp
    }
    pub fn sq(&self) -> Dd {
        self.sq
    }
    pub fn shapes(&self) -> (Dd, Dd) {
        (self.al, self.be)
    }
    /// Location and scale used to lay out arguments.
    pub fn loc_scale(&self) -> (f64, f64) {
        match self.p {
            P::Beta { a, b, .. } => (a, b - a),
            P::Cauchy { x0, gamma } => (x0, gamma),
            P::Exponential { lambda } => (0.0, 1.0 / lambda),
            P::Gamma { k, theta } => (0.0, theta * k.max(1.0)),
            P::Gaussian { mu, sigma } => (mu, sigma),
            P::Laplace { mu, b } => (mu, b),
            P::Logistic { mu, s } => (mu, s),
            P::Lognormal { mu, .. } => (0.0, mu.exp()),
            P::Pert { a, c, .. } => (a, c - a),
            P::Triangular { a, b, .. } => (a, b - a),
            P::Uniform { a, b } => (a, b - a),
            _ => (0.0, 1.0),
        }
    }
    /// Closed support.
    pub fn support(&self) -> (f64, f64) {
        let inf = f64::INFINITY;
        match self.p {
            P::Bernoulli { .. } | P::BernoulliQ { .. } => (0.0, 1.0),
            P::Beta { a, b, .. } => (a, b),
            P::Binomial { n, .. } | P::BinomialQ { n, .. } => (0.0, n as f64),
            P::Categorical { ref p } => {
                let lo = p.iter().position(|&x| x > 0.0).unwrap();
                let hi = p.iter().rposition(|&x| x > 0.0).unwrap();
                (lo as f64, hi as f64)
            }
            P::Cauchy { .. } | P::Gaussian { .. } | P::Laplace { .. } | P::Logistic { .. } => {
                (-inf, inf)
            }
            P::Exponential { .. } | P::Gamma { .. } | P::Lognormal { .. } => (0.0, inf),
            P::Pert { a, c, .. } => (a, c),
            P::Triangular { a, b, .. } => (a, b),
            P::Uniform { a, b } => (a, b),
        }
    }
    /// Number of outcomes minus one, for discrete families.
    pub fn n(&self) -> u64 {
        match self.p {
            P::Bernoulli { .. } | P::BernoulliQ { .. } => 1,
            P::Binomial { n, .. } | P::BinomialQ { n, .. } => n as u64,
            P::Categorical { ref p } => p.len() as u64 - 1,
            _ => unreachable!(),
        }
    }
    /// P(X = k).
    pub fn mass(&self, k: u64) -> Dd {
        if k > self.n() {
            return ZERO;
        }
        match self.p {
            P::Categorical { .. } => self.cat[k as usize],
            _ => {
                let n = self.n();
                if n == 1 {
                    return if k == 0 { self.sq } else { self.sp };
                }
                if k == 0 {
                    return (self.ln_q() * d(n as f64)).exp();
                }
                if k == n {
                    return (self.ln_p() * d(n as f64)).exp();
                }
                (ln_choose(n, k) + self.ln_p() * d(k as f64) + self.ln_q() * d((n - k) as f64))
                    .exp()
            }
        }
    }
    /// The masses of a binomial as the real code's one listed table defect distorts them:
    /// the Stirling error of 11 is tabulated as 7.757367548795184079e-03 instead of
    /// 7.573675487951840795e-03 and enters as +(n = 11), -(k = 11), -(n - k = 11).
    pub fn mass_listed_defect(&self, k: u64) -> Option<Dd> {
        let n = match self.p {
            P::Binomial { n, .. } | P::BinomialQ { n, .. } => n as u64,
            _ => return None,
        };
        if k == 0 || k >= n {
            return None;
        }
        let c = (n == 11) as i32 - (k == 11) as i32 - (n - k == 11) as i32;
        if c == 0 {
            return None;
        }
        let delta = d(7.757367548795184079e-03) - d(7.573675487951840795e-03);
        Some(self.mass(k) * (delta * d(c as f64)).exp())
    }
    /// The entropy that results from the masses above, if any is affected.
    pub fn entropy_listed_defect(&self, entropy: &dyn Fn() -> f64) -> Option<f64> {
        let n = match self.p {
            P::Binomial { n, .. } | P::BinomialQ { n, .. } if n >= 11 => n as u64,
            _ => return None,
        };
        let mut s = ZERO;
        let mut add = |k: u64| {
            if let Some(v) = self.mass_listed_defect(k) {
                let m = self.mass(k);
                let f = |m: Dd| if m.h > 0.0 { m * m.ln() } else { ZERO };
                s = s + f(m) - f(v);
            }
        };
        if n == 11 {
            (0..=11).for_each(add);
        } else {
            add(11);
            if n != 22 {
                add(n - 11);
            }
        }
        Some((d(entropy()) + s).f())
    }
    fn ln_p(&self) -> Dd {
        if self.sp.h > 0.5 {
            (-self.sq).ln_1p()
        } else {
            self.sp.ln()
        }
    }
    fn ln_q(&self) -> Dd {
        if self.sq.h > 0.5 {
            (-self.sp).ln_1p()
        } else {
            self.sq.ln()
        }
    }
    /// (P(X <= k), P(X > k)) for an integer k (may be negative).
    pub fn cdf_k(&self, k: i64) -> (Dd, Dd) {
        if k < 0 {
            return (ZERO, ONE);
        }
        let n = self.n();
        if k as u64 >= n {
            return (ONE, ZERO);
        }
        match self.p {
            P::Categorical { .. } => {
                let c = self.cat_cum[k as usize];
                (c, ONE - c)
            }
            _ => {
                if n == 1 {
                    return (self.sq, self.sp);
                }
                let k = k as u64;
                if k == 0 {
                    let t = self.ln_q() * d(n as f64);
                    return (t.exp(), -t.exp_m1());
                }
                let (a, b) = (d((n - k) as f64), d(k as f64 + 1.0));
                inc_beta(a, b, self.sq, self.sp, ln_beta(a, b))
            }
        }
    }
    /// (F(x), 1 - F(x)).
    pub fn cdf(&self, x: f64) -> (Dd, Dd) {
        if self.p.discrete() {
            if x < 0.0 {
                return (ZERO, ONE);
            }
            if x >= self.n() as f64 {
                return (ONE, ZERO);
            }
            return self.cdf_k(x.floor() as i64);
        }
        if x == f64::INFINITY {
            return (ONE, ZERO);
        }
        if x == f64::NEG_INFINITY {
            return (ZERO, ONE);
        }
        self.cdf_dd(d(x))
    }
    pub fn cdf_dd(&self, x: Dd) -> (Dd, Dd) {
        let flip = |t: (Dd, Dd)| (t.1, t.0);
        match self.p {
            P::Beta { a, b, .. } | P::Pert { a, c: b, .. } => {
                let (u, v) = (x - d(a), d(b) - x);
                if u.h <= 0.0 {
                    return (ZERO, ONE);
                }
                if v.h <= 0.0 {
                    return (ONE, ZERO);
                }
                let w = d(b) - d(a);
                inc_beta(self.al, self.be, u / w, v / w, self.lnb)
            }
            P::Cauchy { x0, gamma } => {
                let z = (x - d(x0)) / d(gamma);
                if z.h > 1.0 {
                    let t = z.recip().atan() / PI;
                    (ONE - t, t)
                } else if z.h < -1.0 {
                    let t = (-z).recip().atan() / PI;
                    (t, ONE - t)
                } else {
                    let t = z.atan() / PI;
                    (d(0.5) + t, d(0.5) - t)
                }
            }
            P::Exponential { lambda } => {
                if x.h <= 0.0 {
                    return (ZERO, ONE);
                }
                let t = -(x * d(lambda));
                (-t.exp_m1(), t.exp())
            }
            P::Gamma { k, theta } => {
                if x.h <= 0.0 {
                    return (ZERO, ONE);
                }
                inc_gamma(d(k), x / d(theta))
            }
            P::Gaussian { mu, sigma } => normal_tails((x - d(mu)) / d(sigma)),
            P::Lognormal { mu, sigma } => {
                if x.h <= 0.0 {
                    return (ZERO, ONE);
                }
                normal_tails((x.ln() - d(mu)) / d(sigma))
            }
            P::Laplace { mu, b } => {
                let z = (x - d(mu)) / d(b);
                let t = (-z.abs()).exp() * d(0.5);
                let r = (t, ONE - t);
                if z.h > 0.0 {
                    flip(r)
                } else {
                    r
                }
            }
            P::Logistic { mu, s } => {
                let z = (x - d(mu)) / d(s);
                let t = (-z.abs()).exp();
                let r = (t / (ONE + t), ONE / (ONE + t));
                if z.h > 0.0 {
                    flip(r)
                } else {
                    r
                }
            }
            P::Triangular { a, b, c } => {
                let (a, b, cc) = (d(a), d(b), d(c));
                if x <= a {
                    (ZERO, ONE)
                } else if x >= b {
                    (ONE, ZERO)
                } else if x <= cc {
                    let t = (x - a) / (b - a) * ((x - a) / (cc - a));
                    (t, ONE - t)
                } else {
                    let t = (b - x) / (b - a) * ((b - x) / (b - cc));
                    (ONE - t, t)
                }
            }
            P::Uniform { a, b } => {
                let (a, b) = (d(a), d(b));
                if x <= a {
                    (ZERO, ONE)
                } else if x >= b {
                    (ONE, ZERO)
                } else {
                    ((x - a) / (b - a), (b - x) / (b - a))
                }
            }
            _ => unreachable!(),
        }
    }
    /// Natural logarithm of the density (continuous families), -inf outside.
    pub fn ln_pdf_dd(&self, x: Dd) -> Dd {
        let ninf = d(f64::NEG_INFINITY);
        match self.p {
            P::Beta { a, b, .. } | P::Pert { a, c: b, .. } => {
                let w = d(b) - d(a);
                let (u, v) = ((x - d(a)) / w, (d(b) - x) / w);
                if u.h < 0.0 || v.h < 0.0 {
                    return ninf;
                }
                let part = |s: Dd, u: Dd| {
                    let e = s - ONE;
                    if e.h == 0.0 && e.l == 0.0 {
                        ZERO
                    } else if u.h == 0.0 {
                        d(if e.h > 0.0 { f64::NEG_INFINITY } else { f64::INFINITY })
                    } else {
                        e * u.ln()
                    }
                };
                part(self.al, u) + part(self.be, v) - self.lnb - w.ln()
            }
            P::Cauchy { x0, gamma } => {
                let z = (x - d(x0)) / d(gamma);
                let l = if z.h.abs() > 1e8 {
                    z.abs().ln() * two() + (z.recip().sq()).ln_1p()
                } else {
                    (z * z).ln_1p()
                };
                -(PI * d(gamma)).ln() - l
            }
            P::Exponential { lambda } => {
                if x.h < 0.0 {
                    return ninf;
                }
                d(lambda).ln() - x * d(lambda)
            }
            P::Gamma { k, theta } => {
                if x.h < 0.0 {
                    return ninf;
                }
                let e = d(k) - ONE;
                let t = x / d(theta);
                let m = if x.h == 0.0 {
                    if k == 1.0 {
                        ZERO
                    } else {
                        d(if k > 1.0 { f64::NEG_INFINITY } else { f64::INFINITY })
                    }
                } else {
                    e * (x.ln() - d(theta).ln())
                };
                m - t - self.lng - d(theta).ln()
            }
            P::Gaussian { mu, sigma } => {
                let z = (x - d(mu)) / d(sigma);
                -(z * z * d(0.5)) - d(sigma).ln() - (PI * two()).ln() * d(0.5)
            }
            P::Lognormal { mu, sigma } => {
                if x.h <= 0.0 {
                    return ninf;
                }
                let z = (x.ln() - d(mu)) / d(sigma);
                -(z * z * d(0.5)) - d(sigma).ln() - (PI * two()).ln() * d(0.5) - x.ln()
            }
            P::Laplace { mu, b } => -((x - d(mu)) / d(b)).abs() - (d(b)).ln() - LN2,
            P::Logistic { mu, s } => {
                let z = ((x - d(mu)) / d(s)).abs();
                -z - (-z).exp().ln_1p() * two() - d(s).ln()
            }
            P::Triangular { a, b, c } => {
                let (a, b, cc) = (d(a), d(b), d(c));
                if x < a || x > b {
                    return ninf;
                }
                let h = (two() / (b - a)).ln();
                if x < cc {
                    h + ((x - a) / (cc - a)).ln()
                } else if x > cc {
                    h + ((b - x) / (b - cc)).ln()
                } else {
                    h
                }
            }
            P::Uniform { a, b } => {
                if x < d(a) || x > d(b) {
                    return ninf;
                }
                -(d(b) - d(a)).ln()
            }
            _ => unreachable!(),
        }
    }
    pub fn pdf(&self, x: f64) -> Dd {
        if x.is_infinite() {
            return ZERO;
        }
        self.ln_pdf_dd(d(x)).exp()
    }
    pub fn mean(&self) -> Option<Dd> {
        Some(match self.p {
            P::Bernoulli { .. } | P::BernoulliQ { .. } => self.sp,
            P::Binomial { n, .. } | P::BinomialQ { n, .. } => self.sp * d(n as f64),
            P::Categorical { .. } => self
                .cat
                .iter()
                .enumerate()
                .fold(ZERO, |s, (i, &m)| s + m * d(i as f64)),
            P::Beta { a, b, .. } | P::Pert { a, c: b, .. } => {
                d(a) + (d(b) - d(a)) * self.al / (self.al + self.be)
            }
            P::Cauchy { .. } => return None,
            P::Exponential { lambda } => d(lambda).recip(),
            P::Gamma { k, theta } => d(k) * d(theta),
            P::Gaussian { mu, .. } | P::Laplace { mu, .. } | P::Logistic { mu, .. } => d(mu),
            P::Lognormal { mu, sigma } => (d(mu) + d(sigma).sq() * d(0.5)).exp(),
            P::Triangular { a, b, c } => (d(a) + d(b) + d(c)) / d(3.0),
            P::Uniform { a, b } => (d(a) + d(b)) * d(0.5),
        })
    }
    fn cat_central(&self, e: i64) -> Dd {
        let m = self.mean().unwrap();
        self.cat
            .iter()
            .enumerate()
            .fold(ZERO, |s, (i, &p)| s + (d(i as f64) - m).powi(e) * p)
    }
    pub fn variance(&self) -> Option<Dd> {
        Some(match self.p {
            P::Bernoulli { .. } | P::BernoulliQ { .. } => self.sp * self.sq,
            P::Binomial { n, .. } | P::BinomialQ { n, .. } => self.sp * self.sq * d(n as f64),
            P::Categorical { .. } => self.cat_central(2),
            P::Beta { a, b, .. } | P::Pert { a, c: b, .. } => {
                let s = self.al + self.be;
                let w = d(b) - d(a);
                w * w * (self.al / s) * (self.be / s) / (s + ONE)
            }
            P::Cauchy { .. } => return None,
            P::Exponential { lambda } => d(lambda).recip().sq(),
            P::Gamma { k, theta } => d(k) * d(theta).sq(),
            P::Gaussian { sigma, .. } => d(sigma).sq(),
            P::Laplace { b, .. } => d(b).sq() * two(),
            P::Logistic { s, .. } => (PI * d(s)).sq() / d(3.0),
            P::Lognormal { mu, sigma } => {
                let s2 = d(sigma).sq();
                s2.exp_m1() * (d(mu) * two() + s2).exp()
            }
            P::Triangular { a, b, c } => {
                let (u, w) = (d(c) - d(a), d(b) - d(a));
                (u * u + w * w - u * w) / d(18.0)
            }
            P::Uniform { a, b } => (d(b) - d(a)).sq() / d(12.0),
        })
    }
    pub fn skewness(&self) -> Option<Dd> {
        Some(match self.p {
            P::Bernoulli { .. } | P::BernoulliQ { .. } => {
                (self.sq - self.sp) / (self.sp * self.sq).sqrt()
            }
            P::Binomial { n, .. } | P::BinomialQ { n, .. } => {
                (self.sq - self.sp) / (self.sp * self.sq * d(n as f64)).sqrt()
            }
            P::Categorical { .. } => {
                let v = self.cat_central(2);
                self.cat_central(3) / v / v.sqrt()
            }
            P::Beta { .. } | P::Pert { .. } => {
                let s = self.al + self.be;
                two() * (self.be - self.al) * (s + ONE).sqrt()
                    / ((s + two()) * self.al.sqrt() * self.be.sqrt())
            }
            P::Cauchy { .. } => return None,
            P::Exponential { .. } => two(),
            P::Gamma { k, .. } => two() / d(k).sqrt(),
            P::Gaussian { .. } | P::Laplace { .. } | P::Logistic { .. } | P::Uniform { .. } => ZERO,
            P::Lognormal { sigma, .. } => {
                let s2 = d(sigma).sq();
                (s2.exp() + two()) * s2.exp_m1().sqrt()
            }
            P::Triangular { a, b, c } => {
                // third central moment from the standardised mode t = (c-a)/(b-a)
                let w = d(b) - d(a);
                let t = (d(c) - d(a)) / w;
                let num = (ONE - two() * t) * (two() - t) * (ONE + t);
                let den = (ONE - t + t * t).sqrt();
                two().sqrt() * num / (d(5.0) * den * den * den)
            }
        })
    }
    pub fn kurtosis(&self) -> Option<Dd> {
        let six = d(6.0);
        Some(match self.p {
            P::Bernoulli { .. } | P::BernoulliQ { .. } => {
                let v = self.sp * self.sq;
                (ONE - six * v) / v
            }
            P::Binomial { n, .. } | P::BinomialQ { n, .. } => {
                let v = self.sp * self.sq;
                (ONE - six * v) / (v * d(n as f64))
            }
            P::Categorical { .. } => {
                let v = self.cat_central(2);
                self.cat_central(4) / v / v - d(3.0)
            }
            P::Beta { .. } | P::Pert { .. } => {
                let (a, b) = (self.al, self.be);
                let s = a + b;
                six * ((a - b).sq() * (s + ONE) / (a * b) - (s + two()))
                    / ((s + two()) * (s + d(3.0)))
            }
            P::Cauchy { .. } => return None,
            P::Exponential { .. } => six,
            P::Gamma { k, .. } => six / d(k),
            P::Gaussian { .. } => ZERO,
            P::Laplace { .. } => d(3.0),
            P::Logistic { .. } => d(6.0) / d(5.0),
            P::Uniform { .. } => -(d(6.0) / d(5.0)),
            P::Triangular { .. } => -(d(3.0) / d(5.0)),
            P::Lognormal { sigma, .. } => {
                let s2 = d(sigma).sq();
                (s2 * d(4.0)).exp_m1() + two() * (s2 * d(3.0)).exp_m1()
                    + d(3.0) * (s2 * two()).exp_m1()
            }
        })
    }
    pub fn entropy(&self) -> Dd {
        let xlx = |m: Dd| if m.h <= 0.0 { ZERO } else { -(m * m.ln()) };
        match self.p {
            P::Bernoulli { .. } | P::BernoulliQ { .. } => {
                -(self.sq * self.ln_q()) - self.sp * self.ln_p()
            }
            P::Binomial { n, .. } | P::BinomialQ { n, .. } => {
                let nn = n as f64;
                let m = (self.sp * d(nn)).f();
                let sd = (self.sp * self.sq * d(nn)).f().sqrt();
                let lo = (m - 45.0 * sd - 60.0).max(0.0) as u64;
                let hi = ((m + 45.0 * sd + 60.0).min(nn)) as u64;
                let mut s = ZERO;
                // walk by the mass ratio from an exactly evaluated start at the mode
                let k0 = (m.floor() as u64).min(n as u64);
                let ratio = self.sp / self.sq;
                let m0 = self.mass(k0);
                let mut a = m0;
                let mut k = k0;
                loop {
                    s = s + xlx(a);
                    if k >= hi {
                        break;
                    }
                    a = a * ratio * d((n as u64 - k) as f64) / d(k as f64 + 1.0);
                    k += 1;
                }
                let mut a = m0;
                let mut k = k0;
                while k > lo {
                    a = a / ratio * d(k as f64) / d((n as u64 - k) as f64 + 1.0);
                    k -= 1;
                    s = s + xlx(a);
                }
                s
            }
            P::Categorical { .. } => self.cat.iter().fold(ZERO, |s, &m| s + xlx(m)),
            P::Beta { a, b, .. } | P::Pert { a, c: b, .. } => {
                let (p, q) = (self.al, self.be);
                let dp = digamma(p + q);
                (d(b) - d(a)).ln() + self.lnb - (p - ONE) * (digamma(p) - dp)
                    - (q - ONE) * (digamma(q) - dp)
            }
            P::Cauchy { gamma, .. } => (d(4.0) * PI * d(gamma)).ln(),
            P::Exponential { lambda } => ONE - d(lambda).ln(),
            P::Gamma { k, theta } => {
                d(k) + d(theta).ln() + self.lng + (ONE - d(k)) * digamma(d(k))
            }
            P::Gaussian { sigma, .. } => {
                d(0.5) * (two() * PI).ln() + d(0.5) + d(sigma).ln()
            }
            P::Laplace { b, .. } => ONE + LN2 + d(b).ln(),
            P::Logistic { s, .. } => d(s).ln() + two(),
            P::Lognormal { mu, sigma } => {
                d(mu) + d(0.5) + d(0.5) * (two() * PI).ln() + d(sigma).ln()
            }
            P::Triangular { a, b, .. } => d(0.5) + ((d(b) - d(a)) * d(0.5)).ln(),
            P::Uniform { a, b } => (d(b) - d(a)).ln(),
        }
    }
    /// Quantile by bisection on the reference CDF (continuous families).
    pub fn quantile(&self, p: f64) -> f64 {
        let (mut lo, mut hi) = self.support();
        let (loc, scale) = self.loc_scale();
        if p <= 0.0 {
            return lo;
        }
        if p >= 1.0 {
            return hi;
        }
        if lo.is_infinite() {
            let mut w = scale;
            lo = loc - w;
            while self.cdf(lo).0.f() > p {
                w *= 4.0;
                lo = loc - w;
                if w > 1e300 {
                    break;
                }
            }
        }
        if hi.is_infinite() {
            let mut w = scale;
            hi = loc + w;
            while self.cdf(hi).0.f() < p {
                w *= 4.0;
                hi = loc + w;
                if w > 1e300 {
                    break;
                }
            }
        }
        let right = p > 0.5;
        let pc = 1.0 - p;
        for _ in 0..200 {
            let m = if lo > 0.0 && hi / lo > 4.0 {
                (lo * hi).sqrt()
            } else if lo == 0.0 && hi > 1e-290 && hi < scale {
                hi * 1e-3
            } else {
                0.5 * lo + 0.5 * hi
            };
            if m <= lo || m >= hi {
                break;
            }
            let (f, s) = self.cdf(m);
            let below = if right { s.f() > pc } else { f.f() < p };
            if below {
                lo = m;
            } else {
                hi = m;
            }
        }
        hi
    }
}
