//! C11: all histories of operations on distributions that share a source.
//!
//! A world has two distributions and a stream of words. Every sequence of operations up to a
//! depth is executed on the real code with one shared source; each operation has to produce the
//! value, and consume the number of words, that a fresh distribution produces and consumes on a
//! fresh source positioned at the same word.
use super::*;
use crate::dist::*;
use crate::env::*;
use probability::prelude::*;
use probability::source::Source;
use std::collections::HashMap;

static F: &str = "history";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Sample(usize),
    SampleCopy(usize),
    Next(usize),
    NextOfCopy(usize),
    TakeTwo(usize),
    NthOne(usize),
    SkipStep(usize),
    ByRef(usize),
    Queries(usize),
    RawInt,
    RawFloat,
}

use Op::*;

fn ops(k: usize) -> Vec<Op> {
    vec![Sample(k), Next(k), SampleCopy(k), NextOfCopy(k), TakeTwo(k), NthOne(k), SkipStep(k), ByRef(k), Queries(k)]
}

/// Values an operation yields.
fn exec(d: &D, op: Op, s: &mut Script) -> Vec<f64> {
    macro_rules! with { ($d:expr, $x:ident => $e:expr) => { each!($d, $x => $e) } }
    match op {
        Sample(_) => vec![d.sample(s)],
        SampleCopy(_) => vec![d.copied().sample(s)],
        Next(_) => vec![d.sample_via_independent(s)],
        NextOfCopy(_) => vec![d.copied().sample_via_independent(s)],
        TakeTwo(_) => with!(d, x => Independent(x, s).take(2).map(|v| v.to_f()).collect()),
        NthOne(_) => with!(d, x => Independent(x, s).nth(1).map(|v| v.to_f()).into_iter().collect()),
        SkipStep(_) => with!(d, x => Independent(x, s).skip(1).step_by(2).take(2).map(|v| v.to_f()).collect()),
        ByRef(_) => with!(d, x => {
            let mut it = Independent(x, s);
            let mut v: Vec<f64> = it.by_ref().take(1).map(|v| v.to_f()).collect();
            v.push(it.by_ref().take(2).fold(0.0, |_, b| b.to_f()));
            v.extend(it.next().map(|v| v.to_f()));
            v
        }),
        Queries(_) => queries(d),
        RawInt => vec![f64::from_bits(s.read_u64() >> 12 | 0x3FF0_0000_0000_0000)],
        RawFloat => vec![s.read_f64()],
    }
}

fn queries(d: &D) -> Vec<f64> {
    let mut v = vec![d.cdf(0.5), d.cdf(1.0), d.entropy()];
    if d.has_inverse() {
        v.extend([d.inverse(0.25), d.inverse(0.9)]);
    }
    v.extend(d.mean());
    v.extend(d.variance());
    v.extend(d.median());
    v.extend(d.modes().into_iter().flatten());
    v
}

/// The indices, in the sequence of single samples from the position on, that an operation
/// yields; and the number of samples it draws.
fn model(op: Op) -> (&'static [usize], usize) {
    match op {
        Sample(_) | SampleCopy(_) | Next(_) | NextOfCopy(_) => (&[0], 1),
        TakeTwo(_) => (&[0, 1], 2),
        NthOne(_) => (&[1], 2),
        SkipStep(_) => (&[1, 3], 4),
        ByRef(_) => (&[0, 2, 3], 4),
        _ => (&[], 0),
    }
}

fn of(op: Op) -> usize {
    match op {
        Sample(k) | SampleCopy(k) | Next(k) | NextOfCopy(k) | TakeTwo(k) | NthOne(k) | SkipStep(k) | ByRef(k) | Queries(k) => k,
        _ => 0,
    }
}

struct World<'a> {
    w: &'a W,
    i: [&'static Inst; 2],
    d: [D; 2],
    benign: Benign,
    memo: HashMap<(usize, usize), (u64, usize)>,
    asked: [Vec<u64>; 2],
    ops: Vec<Op>,
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

impl<'a> World<'a> {
    /// One sample of a fresh distribution from a fresh source at a position.
    fn single(&mut self, k: usize, pos: usize) -> Option<(u64, usize)> {
        if let Some(&x) = self.memo.get(&(k, pos)) {
            return Some(x);
        }
        let i = self.i[k];
        let b = self.benign;
        let r = self.w.call(i, &F, NOARG, || {
            let d = i.p.build();
            let mut s = Script::at(b, pos);
            let v = d.sample(&mut s);
            (v.to_bits(), s.pos)
        })?;
        self.memo.insert((k, pos), r);
        Some(r)
    }

    fn go(&mut self, pos: usize, path: &mut Vec<Op>, depth: usize) -> bool {
        for n in 0..self.ops.len() {
            let op = self.ops[n];
            path.push(op);
            let k = of(op);
            // what the model says
            let (mut want, mut p, mut vals) = (vec![], pos, vec![]);
            match op {
                Queries(k) => want = self.asked[k].clone(),
                RawInt => {
                    p += 1;
                    want.push(self.benign.word(pos) >> 12 | 0x3FF0_0000_0000_0000);
                }
                RawFloat => {
                    p += 1;
                    want.push(to_unit(self.benign.word(pos)).to_bits());
                }
                _ => {
                    let (idx, count) = model(op);
                    for _ in 0..count {
                        let (v, q) = match self.single(k, p) {
                            Some(x) => x,
                            None => return false,
                        };
                        vals.push(v);
                        p = q;
                    }
                    want.extend(idx.iter().map(|&j| vals[j]));
                }
            }
            // what the code does
            let mut s = Script::at(self.benign, pos);
            let d = &self.d[k];
            let got = match self.w.call(self.i[k], &F, NOARG, || exec(d, op, &mut s)) {
                Some(g) => bits(&g),
                None => return false,
            };
            self.w.trans(1);
            if got != want || s.pos != p {
                let f = |v: &[u64]| v.iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>();
                self.w.ctx.fail(
                    format!("{} + {} on {:?}: {:?}", self.i[0].key, self.i[1].key, self.benign, path).replace(' ', ""),
                    format!(
                        "the last operation yields {:?} and leaves the source at word {}; a fresh distribution on a fresh source at word {} yields {:?} and leaves it at {}",
                        f(&got), s.pos, pos, f(&want), p
                    ),
                    format!("{:?}", f(&got)),
                );
                return false;
            }
            self.w.state(1);
            if depth > 1 {
                if !self.go(p, path, depth - 1) {
                    return false;
                }
            } else {
                self.w.trace(1);
            }
            path.pop();
        }
        true
    }
}

fn world(w: &W, a: &'static Inst, b: &'static Inst, benign: Benign, depth: usize) {
    let mut all = ops(0);
    all.extend(ops(1));
    all.extend([RawInt, RawFloat]);
    let (q0, q1) = match (w.call(a, &F, NOARG, || queries(&a.p.build())), w.call(b, &F, NOARG, || queries(&b.p.build()))) {
        (Some(x), Some(y)) => (bits(&x), bits(&y)),
        _ => return,
    };
    let mut x = World { w, i: [a, b], d: [a.p.build(), b.p.build()], benign, memo: HashMap::new(), asked: [q0, q1], ops: all };
    w.outcome(&format!("worlds with {}", a.p.family()), 1);
    x.go(0, &mut vec![], depth);
}

/// A source that, while it is delivering the word of a certain number, does something else.
struct Busy<'a> {
    inner: Script<'static>,
    left: usize,
    then: &'a mut dyn FnMut(),
}
impl<'a> Busy<'a> {
    fn tick(&mut self) {
        if self.left == 0 {
            (self.then)();
        }
        self.left = self.left.wrapping_sub(1);
    }
}
impl<'a> Source for Busy<'a> {
    fn read_u64(&mut self) -> u64 {
        self.tick();
        self.inner.read_u64()
    }
    fn read_f64(&mut self) -> f64 {
        self.tick();
        self.inner.read_f64()
    }
}

/// While a word is delivered to a sample, another is drawn, or queries are asked.
fn nested(w: &W, a: &'static Inst, b: &'static Inst, streams: u64) {
    for k in 0..streams {
        let benign = if k == 0 { Benign::Reject } else { Benign::Weyl(k) };
        let r = w.call(a, &F, NOARG, || {
            let mut s = Script::at(benign, 0);
            (a.d.sample(&mut s).to_bits(), s.pos)
        });
        let (want, reads) = match r {
            Some(x) => x,
            None => return,
        };
        for at in 0..reads.min(8) {
            for what in 0..5u64 {
                let got = w.call(a, &F, NOARG, || {
                    let mut then = || match what {
                        0 => drop(queries(&b.d)),
                        1 => drop(b.p.build()),
                        x => {
                            let mut s = Script::at(Benign::Weyl(x + 7 * k), 0);
                            b.d.sample(&mut s);
                        }
                    };
                    let mut s = Busy { inner: Script::at(benign, 0), left: at, then: &mut then };
                    (a.d.sample(&mut s).to_bits(), s.inner.pos)
                });
                w.state(1);
                w.trans(1);
                w.trace(1);
                match got {
                    Some(g) if g != (want, reads) => {
                        w.ctx.fail(
                            format!("{} while {} {} on {:?} at {}", a.key, b.key, what, benign, at).replace(' ', ""),
                            format!("the sample is {:?} after {} words when the source does nothing else", f64::from_bits(want), reads),
                            format!("{:?} after {}", f64::from_bits(g.0), g.1),
                        );
                        return;
                    }
                    Some(_) => {}
                    None => return,
                }
            }
        }
    }
}

/// The sampler is endless and agrees with direct sampling on the crate's own source.
fn endless(w: &W, i: &'static Inst) {
    for seed in [0u64, 1, 42, u64::MAX, 0x9E37_79B9_7F4A_7C15] {
        let n = 2000;
        let d = &i.d;
        let r = w.call(i, &F, NOARG, || {
            let mut s = source::default(seed);
            let direct: Vec<f64> = (0..n).map(|_| d.sample(&mut s)).collect();
            let mut t = source::default(seed);
            let (hint, via): (_, Vec<f64>) = each!(d, x => {
                let mut it = Independent(x, &mut t);
                let h = it.size_hint();
                let v = (0..n).map(|_| it.next().map(|v| v.to_f()).unwrap_or(f64::NAN)).collect();
                (h, v)
            });
            (direct, hint, via, s.read_u64(), t.read_u64())
        });
        let (direct, hint, via, a, b) = match r {
            Some(x) => x,
            None => return,
        };
        w.state(n as u64);
        w.trace(1);
        if bits(&direct) != bits(&via) || a != b {
            let at = (0..n).find(|&k| direct[k].to_bits() != via[k].to_bits()).unwrap_or(n);
            w.ctx.fail(
                format!("{}.independent/default({})", i.key, seed),
                format!("request {} of the sampler differs from direct sampling, or the sources are left in different states", at),
                format!("{:?}", via.get(at)),
            );
        }
        if hint.1.is_some() || hint.0 > 0 && hint.0 < usize::MAX {
            w.ctx.fail(format!("{}.independent.size_hint", i.key), "the sampler never ends".into(), format!("{:?}", hint));
        }
    }
}

fn cast(t: bool) -> Vec<P> {
    let mut v = vec![
        P::Gaussian { mu: 0.5, sigma: 2.0 },
        P::Gamma { k: 0.5, theta: 2.0 },
        P::Beta { alpha: 0.5, beta: 2.0, a: 0.0, b: 1.0 },
        P::Cauchy { x0: 0.0, gamma: 1.0 },
        P::Exponential { lambda: 2.0 },
        P::Binomial { n: 10, p: 0.3 },
        P::Lognormal { mu: 0.0, sigma: 0.5 },
        P::Gamma { k: 1.0, theta: 1.0 },
        P::Uniform { a: -1.0, b: 2.0 },
        P::Pert { a: 0.0, b: 0.3, c: 1.0 },
        P::Categorical { p: vec![0.0, 0.25, 0.5, 0.25] },
        P::Triangular { a: 0.0, b: 2.0, c: 0.5 },
        P::Bernoulli { p: 0.4 },
        P::Laplace { mu: 1.0, b: 2.0 },
        P::Logistic { mu: 1.0, s: 2.0 },
        P::Binomial { n: 2000, p: 0.01 },
        P::Binomial { n: 5000, p: 0.4 },
        P::BinomialQ { n: 7, q: 0.3 },
        P::Beta { alpha: 1e-4, beta: 1e-4, a: 0.0, b: 1.0 },
        P::Gamma { k: 9.0, theta: 0.5 },
    ];
    if t {
        v.extend([
            P::Gaussian { mu: 0.0, sigma: 1.0 },
            P::Beta { alpha: 3.0, beta: 2.0, a: -1.0, b: 1.0 },
            P::Beta { alpha: 1.0, beta: 1.0, a: 0.0, b: 1.0 },
            P::Categorical { p: vec![1.0] },
            P::Binomial { n: 0, p: 0.5 },
            P::BernoulliQ { q: 0.9 },
            P::Triangular { a: 0.0, b: 2.0, c: 2.0 },
        ]);
    }
    v
}

pub fn run(ctx: &'static Ctx) -> Outcome {
    let th = ctx.thorough();
    let insts = ctx.instances(cast(th));
    let mut jobs: Vec<Job> = vec![];
    let n = insts.len();
    for a in 0..n {
        for b in 0..n {
            for (k, benign) in [Benign::Weyl(0), Benign::Reject, Benign::Mild].into_iter().enumerate() {
                if !th && k == 2 {
                    continue;
                }
                let (x, y) = (insts[a], insts[b]);
                // deeper for neighbours in the cast
                let depth = if th && (b + n - a) % n <= 3 { 5 } else if th || (b + n - a) % n <= 1 { 4 } else { 3 };
                if depth == 5 && k > 0 {
                    jobs.push(Box::new(move |w: &W| world(w, x, y, benign, 4)));
                } else {
                    jobs.push(Box::new(move |w: &W| world(w, x, y, benign, depth)));
                }
            }
        }
    }
    for &a in &insts {
        let insts = insts.clone();
        jobs.push(Box::new(move |w: &W| {
            for &b in &insts {
                w.outcome(&format!("draws from {} during draws from others", b.p.family()), 1);
                nested(w, a, b, if th { 40 } else { 12 });
            }
        }));
    }
    let mut all: Vec<&'static Inst> = ctx.instances(crate::lattice::all(Tier::Quick)).into_iter().step_by(if th { 3 } else { 17 }).collect();
    all.extend(insts);
    for i in all {
        jobs.push(Box::new(move |w: &W| endless(w, i)));
    }
    ctx.run(jobs);
    (
        "all sequences of operations (draw directly, through the sampler by next, nth, take, skip, step_by, by_ref, on a copy; all queries; raw reads) on \
         every ordered pair of distributions of the cast sharing one source, up to depth 3, or 4 (thorough: 4, or 5), on benign, scrambled and rejecting streams; \
         draws and queries made by the source while it delivers each of the words of another draw; \
         2000 requests from the crate's own source for a selection of the lattice"
            .into(),
        true,
        vec!["hidden state is looked for across operations of one process and one thread (threads: C19)"],
    )
}
