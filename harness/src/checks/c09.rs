//! C09: every sample terminates inside the support whatever the source returns.
//!
//! Deviation-bounded exploration of the environment: the default answers of the source come
//! from a benign stream; every execution that departs from them at up to D reads, by any word
//! of the alphabet of the kind of that read, is run on the real sampler.
use super::*;
use crate::dist::*;
use crate::env::*;
use crate::lattice::*;

static F: &str = "sample";
/// The words read as floats are representations of floats.
static N: &str = "sample from native floats";

pub struct Alpha {
    pub big_u: Vec<u64>,
    pub small_u: Vec<u64>,
    pub big_f: Vec<u64>,
    pub small_f: Vec<u64>,
}

pub fn uword(i: u64, plus: bool, j: u64, high: u64) -> u64 {
    (high << 32) | (j << 8) | ((plus as u64) << 7) | i
}

pub fn alphabet() -> Alpha {
    let mut big_u = vec![0, u64::MAX];
    for i in 0..128u64 {
        for plus in [false, true] {
            for j in [0u64, 1, 0x7FFFFF, 0xFFFFFE, 0xFFFFFF] {
                for high in [0u64, 0xFFFF_FFFF] {
                    big_u.push(uword(i, plus, j, high));
                }
            }
        }
    }
    let mut small_u = vec![];
    for i in [0u64, 1, 64, 126, 127] {
        for plus in [false, true] {
            for j in [0u64, 0x7FFFFF, 0xFFFFFF] {
                small_u.push(uword(i, plus, j, 0x8000_0000));
            }
        }
    }
    small_u.extend([0, u64::MAX]);
    let mut big_f = vec![0, 1, 2, 1024, 2047, 2048, u64::MAX, u64::MAX - 1, u64::MAX - 2047, u64::MAX - 1023];
    for k in 0..64 {
        big_f.push(1u64 << k);
        big_f.push(u64::MAX - (1u64 << k));
    }
    for k in 1..64u64 {
        big_f.push(k << 58);
    }
    big_f.push(of_unit(1e-10));
    big_f.sort();
    big_f.dedup();
    let small_f = vec![0, 1, 2048, of_unit(1e-10), 1 << 62, 1 << 63, 3 << 62, u64::MAX - 2047, u64::MAX];
    Alpha { big_u, small_u, big_f, small_f }
}

/// The alphabets of a source that produces floats by its own means, at any resolution.
pub fn native_alphabet() -> Alpha {
    let mut v = vec![0.0, f64::from_bits(1), 1e-310, f64::MIN_POSITIVE, 1e-300, 1e-250, 1e-200, 1e-163, 1e-154, 1e-100, 1e-77, 1e-50, 1e-30, 1e-22];
    for k in 1..=64 {
        v.push(f64::powi(2.0, -k));
        v.push(dn(f64::powi(2.0, -k)));
        v.push(1.0 - f64::powi(2.0, -k));
    }
    for k in 1..32 {
        v.push(k as f64 / 32.0);
    }
    v.extend([up(0.5), 1.0]);
    let mut big_f: Vec<u64> = v.into_iter().map(f64::to_bits).collect();
    big_f.sort();
    big_f.dedup();
    let small_f = [0.0, f64::from_bits(1), 1e-300, 1e-100, 1e-17, 0.25, 0.5, 0.75, dn(1.0), 1.0].map(f64::to_bits).to_vec();
    let al = alphabet();
    Alpha { big_u: al.small_u.clone(), small_u: al.small_u, big_f, small_f }
}

/// Words around every boundary between outcomes of a one-read sampler.
fn boundary_words(i: &'static Inst, t: Tier) -> Vec<u64> {
    let mut v = vec![];
    let mut at = |p: f64| {
        if !(0.0..=1.0).contains(&p) {
            return;
        }
        let ulp = (p.next_up() - p).max(f64::MIN_POSITIVE) * 18446744073709551616.0;
        let c = p * 18446744073709551616.0;
        for k in -3i32..=3 {
            let x = c + k as f64 * ulp.max(1.0);
            if x >= 0.0 {
                v.push(x as u64);
            }
        }
    };
    if i.p.discrete() {
        let ks = ks_discrete(i, Tier::Quick);
        for &k in ks.iter().take(400) {
            at(i.r.cdf_k(k as i64).0.f());
        }
    }
    for p in ps(t) {
        at(p);
    }
    let m = if t == Tier::Quick { 256 } else { 4096 };
    for k in 0..m {
        v.push((u64::MAX / m) * k + u64::MAX / (2 * m));
    }
    v.sort();
    v.dedup();
    v
}

/// Extreme but valid parameters, for which intermediate results vanish or overflow.
pub fn extremes() -> Vec<P> {
    let mut v = vec![];
    for &alpha in &[1e-8, 1e-3, 0.01, 0.3, 1.0, 30.0, 1e4, 1e8] {
        for &beta in &[1e-8, 1e-3, 0.01, 0.3, 1.0, 30.0, 1e4, 1e8] {
            v.push(P::Beta { alpha, beta, a: 0.0, b: 1.0 });
            v.push(P::Beta { alpha, beta, a: -3.0, b: 4.0 });
        }
    }
    for &k in &[1e-10, 1e-5, 1e-3, 0.1, 1.0, 1e3, 1e8, 1e12] {
        for &theta in &[1e-300, 1e-5, 1.0, 1e10, 1e290] {
            v.push(P::Gamma { k, theta });
        }
    }
    for &s in &[1e-300, 1e-10, 1.0, 1e10, 1e300] {
        for &m in &[0.0, -1.0, 1e15, -1e300] {
            v.push(P::Gaussian { mu: m, sigma: s });
            v.push(P::Cauchy { x0: m, gamma: s });
            v.push(P::Laplace { mu: m, b: s });
            v.push(P::Logistic { mu: m, s });
        }
        v.push(P::Exponential { lambda: s });
    }
    for &sigma in &[1e-10, 1.0, 100.0, 1e5] {
        for &mu in &[0.0, -800.0, 800.0] {
            v.push(P::Lognormal { mu, sigma });
        }
    }
    for (a, c) in [(0.0, 1.0), (-1e15, 1e15), (-1e150, 1e150), (1.0, 1.0 + 1e-12), (0.0, 1e-300)] {
        let w = c - a;
        v.push(P::Uniform { a, b: c });
        for f in [1e-9, 0.25, 0.5, 0.9, 1.0 - 1e-9] {
            let b = a + w * f;
            if a < b && b < c {
                v.push(P::Pert { a, b, c });
                v.push(P::Triangular { a, b: c, c: b });
            }
        }
        v.push(P::Triangular { a, b: c, c: a });
        v.push(P::Triangular { a, b: c, c });
    }
    for &n in &[0usize, 1, 2, 1000, 1_000_000, 100_000_000] {
        for &p in &[1e-300, 1e-12, 1e-6, 0.3, 0.5, 1.0 - 1e-12] {
            v.push(P::Binomial { n, p });
            v.push(P::BinomialQ { n, q: p });
        }
    }
    v.extend(categorical_special());
    v
}

pub struct Ex<'a> {
    w: &'a W,
    i: &'static Inst,
    al: &'a Alpha,
    benign: Benign,
    native: bool,
    horizon: usize,
    max_dev: usize,
    lo: f64,
    hi: f64,
}

impl<'a> Ex<'a> {
    fn check(&self, words: &[u64]) -> Option<(usize, u64)> {
        let mut s = Script::new(words, self.benign);
        s.native = self.native;
        let f = if self.native { &N } else { &F };
        let v = self.w.call_script(self.i, f, words, || self.i.d.sample(&mut s));
        self.w.state(1);
        self.w.trace(1);
        let v = v?;
        let i = self.i;
        let fail = |what: String| {
            self.w.ctx.fail(
                format!("{}.{}{}", i.key, f, show(words)),
                format!("{} (further reads answered by {:?})", what, self.benign),
                format!("{:?}", v),
            )
        };
        if v.is_nan() {
            fail("not a number".into());
        } else if v.is_infinite() && (v > 0.0 && self.hi.is_finite() || v < 0.0 && self.lo.is_finite()) {
            fail(format!("infinite, with the support [{:?}, {:?}]", self.lo, self.hi));
        } else if v < self.lo || v > self.hi {
            fail(format!("outside the support [{:?}, {:?}]", self.lo, self.hi));
        } else if let P::Categorical { ref p } = i.p {
            if !(p[v as usize] > 0.0) {
                fail("an outcome of zero probability".into());
            }
        }
        let extra = s.pos.saturating_sub(words.len());
        if self.benign == Benign::Mild && extra > 32 {
            fail(format!("{} further reads of acceptable words", extra));
        }
        Some((s.pos, s.kinds))
    }

    fn visit(&self, words: &mut Vec<u64>, devs: usize) {
        let (reads, kinds) = match self.check(words) {
            Some(x) => x,
            None => return,
        };
        if devs == self.max_dev {
            return;
        }
        let base = words.len();
        for pos in base..reads.min(self.horizon) {
            while words.len() < pos {
                let k = words.len();
                let word = self.benign.word(k);
                words.push(if self.native && kinds >> k & 1 == 1 { to_unit(word).to_bits() } else { word });
            }
            let float = kinds >> pos & 1 == 1;
            let alpha = match (float, devs) {
                (true, 0) => &self.al.big_f,
                (true, _) => &self.al.small_f,
                (false, 0) => &self.al.big_u,
                (false, _) => &self.al.small_u,
            };
            for &a in alpha {
                self.w.trans(1);
                words.push(a);
                self.visit(words, devs + 1);
                words.pop();
            }
        }
        words.truncate(base);
    }
}

fn one(w: &W, i: &'static Inst, al: &Alpha, depth: usize) {
    let (lo, hi) = i.r.support();
    w.outcome(i.p.family(), 1);
    let mut multi = false;
    for benign in [Benign::Mild, Benign::Weyl(0), Benign::Weyl(1000)] {
        let ex = Ex { w, i, al, benign, native: false, horizon: 12, max_dev: depth, lo, hi };
        if let Some((reads, _)) = ex.check(&[]) {
            multi |= reads > 1;
        }
        ex.visit(&mut vec![], 0);
        if !multi {
            for x in boundary_words(i, w.ctx.tier) {
                w.trans(1);
                ex.check(&[x]);
            }
            break;
        }
        if depth > 2 {
            break;
        }
    }
}

/// The same with a source that delivers floats other than those that come from words.
fn native(w: &W, i: &'static Inst, al: &Alpha) {
    let (lo, hi) = i.r.support();
    let ex = Ex { w, i, al, benign: Benign::Mild, native: true, horizon: 12, max_dev: 2, lo, hi };
    ex.visit(&mut vec![], 0);
}

pub fn run(ctx: &'static Ctx) -> Outcome {
    let t = ctx.tier;
    let mut ps = all(t);
    ps.extend(extremes());
    let insts = ctx.instances(ps);
    let al: &'static Alpha = Box::leak(Box::new(alphabet()));
    let mut jobs: Vec<Job> = vec![];
    for c in insts.chunks(4) {
        let c = c.to_vec();
        jobs.push(Box::new(move |w: &W| c.iter().for_each(|i| one(w, i, al, 2))));
    }
    let na: &'static Alpha = Box::leak(Box::new(native_alphabet()));
    for c in insts.chunks(16) {
        let c = c.to_vec();
        jobs.push(Box::new(move |w: &W| c.iter().for_each(|i| native(w, i, na))));
    }
    if ctx.thorough() {
        // three departures on a selection of the samplers that read several words
        let sel: Vec<P> = vec![
            P::Gaussian { mu: 1.0, sigma: 2.0 },
            P::Lognormal { mu: 0.0, sigma: 1.0 },
            P::Cauchy { x0: 1.0, gamma: 2.0 },
            P::Gamma { k: 0.5, theta: 1.0 },
            P::Gamma { k: 1e-3, theta: 1.0 },
            P::Gamma { k: 1.0, theta: 2.0 },
            P::Gamma { k: 1.2, theta: 2.0 },
            P::Gamma { k: 9.0, theta: 0.5 },
        ];
        let beta: Vec<P> = vec![
            P::Beta { alpha: 0.5, beta: 0.01, a: 0.0, b: 1.0 },
            P::Beta { alpha: 1e-3, beta: 1e-3, a: -1.0, b: 2.0 },
            P::Beta { alpha: 2.0, beta: 0.3, a: 0.0, b: 1.0 },
            P::Beta { alpha: 1.0, beta: 1.0, a: 3.0, b: 4.0 },
            P::Beta { alpha: 20.0, beta: 3.0, a: 0.0, b: 1.0 },
            P::Pert { a: 0.0, b: 0.25, c: 1.0 },
        ];
        let small: &'static Alpha = Box::leak(Box::new(Alpha {
            big_u: al.small_u.clone(),
            small_u: al.small_u.clone(),
            big_f: al.big_f.clone(),
            small_f: al.small_f.clone(),
        }));
        for i in ctx.instances(sel) {
            jobs.push(Box::new(move |w: &W| one(w, i, al, 3)));
        }
        for i in ctx.instances(beta) {
            jobs.push(Box::new(move |w: &W| one(w, i, small, 3)));
        }
    }
    ctx.run(jobs);
    (
        "every execution of every sampler of the lattice (and of extreme parameters) whose source departs from a benign stream \
         in at most 2 reads (thorough: 3 on a selection) among its first 12 by any word of the alphabet of that kind of read \
         (integers: 128 ziggurat layers x signs x extreme mantissas; floats: 0, 1, powers of two, neighbours of both ends); one-read samplers: \
         additionally every word around every outcome boundary and probability grid point; the same with sources that deliver floats of \
         any resolution (subnormal to one)"
            .into(),
        true,
        vec!["the source is driven through the public Source trait; words outside the alphabet are not delivered"],
    )
}
