//! C13: every sequence over small alphabets, offsets, scales and kinds of iterators.
use super::*;
use crate::dd::*;
use crate::dist::*;
use probability::distribution as pd;
use probability::distribution::*;
use std::collections::{BTreeSet, LinkedList, VecDeque};

static FROM: &str = "from_iter";

/// Iterators that tell nothing, or something legal but useless, about their length.
struct Shy<'a> {
    v: &'a [f64],
    i: usize,
    hint: (usize, Option<usize>),
    /// after the end, deliver values again (an iterator need not be fused)
    again: bool,
}
impl<'a> Iterator for Shy<'a> {
    type Item = f64;
    fn next(&mut self) -> Option<f64> {
        self.i += 1;
        if self.i - 1 < self.v.len() {
            Some(self.v[self.i - 1])
        } else if self.again && self.i - 1 > self.v.len() {
            Some(1e3)
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

const KINDS: usize = 12;
fn infer(xs: &[f64], kind: usize) -> pd::Gaussian {
    let n = xs.len();
    match kind {
        0 => xs.to_vec().into_iter().collect(),
        1 => xs.iter().cloned().collect(),
        2 => Shy { v: xs, i: 0, hint: (0, None), again: false }.collect(),
        3 => Shy { v: xs, i: 0, hint: (1, Some(usize::MAX)), again: true }.collect(),
        4 => Shy { v: xs, i: 0, hint: (n, Some(n)), again: false }.collect(),
        5 => xs.iter().cloned().collect::<LinkedList<f64>>().into_iter().collect(),
        6 => xs[..n / 2].iter().chain(&xs[n / 2..]).cloned().collect(),
        7 => {
            // a filter over a longer sequence
            let mut v = vec![];
            for &x in xs {
                v.push(Some(x));
                v.push(None);
            }
            v.into_iter().flatten().collect()
        }
        8 => {
            let mut v: VecDeque<f64> = xs[n / 2..].iter().cloned().collect();
            for &x in xs[..n / 2].iter().rev() {
                v.push_front(x);
            }
            v.into_iter().collect()
        }
        9 => xs.iter().rev().cloned().collect::<Vec<_>>().into_iter().rev().collect(),
        10 => {
            // a collection, not an iterator
            <pd::Gaussian as std::iter::FromIterator<f64>>::from_iter(xs.to_vec())
        }
        _ => {
            let mut i = 0;
            std::iter::from_fn(|| {
                i += 1;
                xs.get(i - 1).copied()
            })
            .collect()
        }
    }
}

/// Reference: mean and unbiased deviation in double-double, scaled so that nothing over- or underflows.
fn reference(xs: &[f64]) -> (f64, f64, f64) {
    let m = xs.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let e = m.log2().floor() as i32;
    let up = |x: f64, e: i32| {
        // multiply by 2^e in two steps
        let h = e / 2;
        x * 2f64.powi(h) * 2f64.powi(e - h)
    };
    let n = xs.len() as f64;
    let ys: Vec<f64> = xs.iter().map(|&x| up(x, -e)).collect();
    let mean = ys.iter().fold(ZERO, |s, &y| s + d(y)) / d(n);
    let ss = ys.iter().fold(ZERO, |s, &y| s + (d(y) - mean) * (d(y) - mean));
    let sd = (ss / d(n - 1.0)).sqrt();
    (up(mean.f(), e), up(sd.f(), e), m)
}

fn show(xs: &[f64], kind: usize) -> String {
    if xs.len() <= 12 {
        format!("Gaussian.from_iter({:?})[iterator {}]", xs, kind)
    } else {
        format!("Gaussian.from_iter({:?}..;{})[iterator {}]", &xs[..4], xs.len(), kind)
    }
}

fn one(w: &W, g: &'static Inst, xs: &[f64], kind: usize) {
    w.state(1);
    w.trans(xs.len() as u64);
    w.trace(1);
    let (mu, sd, m) = reference(xs);
    let n = xs.len() as f64;
    let r = match w.guard(g, &FROM, || show(xs, kind), || infer(xs, kind)) {
        Some(r) => r,
        None => return,
    };
    // backward error: every observation may move by a few ulps of the largest
    let tm = 2.0 * EPS * n * m + 1e-320;
    let ts = 2.0 * EPS * n * m + 8.0 * EPS * n * sd + 1e-320;
    let (em, es) = ((r.mu() - mu).abs(), (r.sigma() - sd).abs());
    w.stat(|| "mean err/tol".into(), em / tm, || show(xs, kind));
    w.stat(|| "deviation err/tol".into(), es / ts, || show(xs, kind));
    if !(em <= tm) {
        w.ctx.fail(show(xs, kind), format!("the mean is {:?} (tolerance {:.1e})", mu, tm), format!("{:?}", r.mu()));
    } else if !(es <= ts) {
        w.ctx.fail(show(xs, kind), format!("the unbiased deviation is {:?} (tolerance {:.1e})", sd, ts), format!("{:?}", r.sigma()));
    }
}

/// All queries of the inferred object are those of the Gaussian with its parameters.
fn queries(w: &W, g: &'static Inst, xs: &[f64]) {
    let key = || format!("{}.queries", show(xs, 0));
    w.guard(g, &FROM, key, || {
        let r = infer(xs, 0);
        let f = pd::Gaussian::new(r.mu(), r.sigma());
        let mut bad = vec![];
        let mut cmp = |what: &str, a: f64, b: f64| {
            w.trans(1);
            if !(a == b || (a - b).abs() <= 1e-10 * b.abs() || a.is_nan() && b.is_nan()) {
                bad.push(format!("{}: {:?} instead of {:?}", what, a, b));
            }
        };
        cmp("mean", r.mean(), f.mean());
        cmp("median", r.median(), f.median());
        cmp("mode", r.modes()[0], f.modes()[0]);
        cmp("variance", r.variance(), f.variance());
        cmp("deviation", r.deviation(), f.deviation());
        cmp("skewness", r.skewness(), f.skewness());
        cmp("kurtosis", r.kurtosis(), f.kurtosis());
        cmp("exp(entropy)", r.entropy().exp(), f.entropy().exp());
        for k in -4..=4 {
            let x = r.mu() + r.sigma() * k as f64 * 0.75;
            cmp("density", r.density(x), f.density(x));
            cmp("distribution", r.distribution(x), f.distribution(x));
        }
        for p in [0.0, 1e-10, 0.1, 0.5, 0.9, 1.0] {
            cmp("inverse", r.inverse(p), f.inverse(p));
        }
        for s in 0..4 {
            let b = crate::env::Benign::Weyl(s);
            let (mut s, mut t) = (crate::env::Script::at(b, 0), crate::env::Script::at(b, 0));
            cmp("sample", r.sample(&mut s), f.sample(&mut t));
        }
        if !bad.is_empty() {
            w.ctx.fail(key(), "the inferred object differs from the Gaussian with its parameters".into(), bad[0].clone());
        }
    });
}

fn all_equal(xs: &[f64]) -> bool {
    xs.iter().all(|x| *x == xs[0])
}

pub fn run(ctx: &'static Ctx) -> Outcome {
    let th = ctx.thorough();
    let g = match ctx.instances(vec![P::Gaussian { mu: 0.0, sigma: 1.0 }]).pop() {
        Some(g) => g,
        None => return (String::new(), false, vec![]),
    };
    let mut jobs: Vec<Job> = vec![];
    // (alphabet, longest sequence)
    let alphabets: Vec<(Vec<f64>, usize)> = vec![
        (vec![0.0, 1.0], if th { 18 } else { 15 }),
        (vec![-1.0, 0.0, 1.0], if th { 12 } else { 10 }),
        (vec![-3.5, 0.1, 2.0, 7.25], if th { 10 } else { 8 }),
        (vec![-1e3, -1.0, 0.0, 1e-3, 5.0, 64.0], if th { 8 } else { 6 }),
        (vec![0.1, 0.2, 0.3, 0.7, 1e8, -1e8, 1.5, 1e-8], if th { 7 } else { 6 }),
    ];
    let maps: Vec<(f64, f64)> = {
        let mut v = vec![(0.0, 1.0), (1.0, 1.0), (1e6, 1.0), (-1e9, 1.0), (0.0, 1e6), (0.0, 1e-6), (100.0, 0.001), (1e12, 1.0), (0.0, 1e100), (0.0, 1e-100)];
        v.extend([(0.0, 1e-160), (0.0, 1e-200), (0.0, 1e160), (0.0, 1e250), (1e160, 1e150), (0.0, 1e-280), (0.0, 1e295)]);
        v
    };
    for (ai, (al, longest)) in alphabets.iter().enumerate() {
        for (mi, &(o, s)) in maps.iter().enumerate() {
            // the whole depth on the unit map, one less elsewhere
            let depth = if mi == 0 { *longest } else { *longest - 1 };
            for first in 0..al.len() {
                let al: Vec<f64> = al.iter().map(|x| o + s * x).collect();
                let quick_kinds = mi > 0;
                jobs.push(Box::new(move |w: &W| {
                    w.outcome(&format!("sequences over alphabet {}", ai), 1);
                    let a = al.len();
                    for n in 2..=depth {
                        let total = a.pow(n as u32 - 1);
                        for c in 0..total {
                            let mut xs = vec![al[first]];
                            let mut c = c;
                            for _ in 1..n {
                                xs.push(al[c % a]);
                                c /= a;
                            }
                            if all_equal(&xs) {
                                continue;
                            }
                            if n <= 4 && !quick_kinds {
                                for k in 0..KINDS {
                                    one(w, g, &xs, k);
                                }
                            } else {
                                one(w, g, &xs, (c + n + total) % KINDS);
                            }
                            if n <= 3 {
                                queries(w, g, &xs);
                            }
                        }
                    }
                }));
            }
        }
    }
    // neighbours: two to four values a few ulps apart
    jobs.push(Box::new(move |w: &W| {
        w.outcome("adjacent values", 1);
        for base in [1.0, 1e-5, 1e9, -3.0, 0.1] {
            let al: Vec<f64> = (0..6u64).map(|k| f64::from_bits(f64::to_bits(base) + k)).collect();
            for n in 2..=4usize {
                for c in 0..6usize.pow(n as u32) {
                    let mut c = c;
                    let xs: Vec<f64> = (0..n)
                        .map(|_| {
                            let x = al[c % 6];
                            c /= 6;
                            x
                        })
                        .collect();
                    if !all_equal(&xs) {
                        one(w, g, &xs, n % KINDS);
                    }
                }
            }
        }
    }));
    // all orders of seven (eight) distinct observations of very different size
    let m = if th { 10 } else { 8 };
    for first in 0..m {
        jobs.push(Box::new(move |w: &W| {
            w.outcome("orders", 1);
            let all = [1e-6, -1.0, 3.5, 1e4, -7e5, 1e9, 0.25, -2e-3, 88.0, -13.7];
            fn go(w: &W, g: &'static Inst, cur: &mut Vec<f64>, left: &BTreeSet<usize>, all: &[f64]) {
                if left.is_empty() {
                    return one(w, g, cur, cur.len() % KINDS);
                }
                for &i in left {
                    cur.push(all[i]);
                    let mut l = left.clone();
                    l.remove(&i);
                    go(w, g, cur, &l, all);
                    cur.pop();
                }
            }
            let left: BTreeSet<usize> = (0..m).filter(|i| *i != first).collect();
            go(w, g, &mut vec![all[first]], &left, &all[..m]);
        }));
    }
    // every length
    let top = if th { 20_000 } else { 4200 };
    let patterns: [fn(usize, usize) -> f64; 6] = [
        |i, _| i as f64,
        |i, _| if i % 2 == 0 { 1.0 } else { -1.0 },
        |i, n| if i + 1 == n { 5.0 } else { 1.0 },
        |i, _| if i == 0 { -2.0 } else { 0.5 },
        |i, _| 1e6 + ((i * 2654435761) % 1000) as f64 * 0.001,
        |i, _| ((i * 40503) % 65536) as f64 / 256.0 - 128.0,
    ];
    for (pi, f) in patterns.into_iter().enumerate() {
        for part in 0..16usize {
            jobs.push(Box::new(move |w: &W| {
                w.outcome("lengths", 1);
                for n in 2..=top {
                    if n % 16 == part {
                        let xs: Vec<f64> = (0..n).map(|i| f(i, n)).collect();
                        one(w, g, &xs, (n / 16 + pi) % KINDS);
                    }
                }
                let big: &[usize] = &[2047, 2048, 2049, 4096, 4097, 8192, 9999, 10000, 16384, 32768, 65535, 65536, 65537, 100_000, 131_073, 262_144, 524_289, 1_000_003, 1_048_575, 1_048_577, 2_097_153, 4_194_305, 5_000_011, 8_388_609, 16_777_216, 16_777_217, 16_777_219, 33_554_433];
                for (j, &n) in big.iter().enumerate() {
                    if j % 16 == part && (th || n <= 1_048_577 || n == 16_777_219 && pi < 2) {
                        let xs: Vec<f64> = (0..n).map(|i| f(i, n)).collect();
                        one(w, g, &xs, (j + pi) % KINDS);
                    }
                }
            }));
        }
    }
    ctx.run(jobs);
    (
        "all sequences over five alphabets (2 to 8 letters, up to length 15 (18)), under seventeen offset/scale maps and twelve kinds of \
         iterators; all orders of up to eight (ten) distinct observations; all lengths up to 4200 (20000) and a selection up to 2^24 + 3 (2^25 + 1) under six patterns"
            .into(),
        true,
        vec![scalars::REF, "the sum and the range of the observations are representable"],
    )
}
