//! The finite parameter and argument lattices that are enumerated.
use crate::dist::P;
use crate::engine::{Inst, Tier};

pub fn up(x: f64) -> f64 {
    x.next_up()
}
pub fn dn(x: f64) -> f64 {
    x.next_down()
}

fn locs(t: Tier) -> Vec<f64> {
    let mut v = match t {
        Tier::Quick => vec![0.0, 1.0, -1.0, 0.1, -3.75, 1000.0, -1e6, 1e8],
        _ => vec![
            0.0, 1.0, -1.0, 0.1, -0.1, 2.5, -3.75, 7.0, 42.0, -100.0, 1000.0, 12345.678, -1e6, 1e8, -1e12,
        ],
    };
    if t == Tier::Deep {
        v.extend([0.3, -0.7, 5.5, -20.25, 99.99, -1e3, 3e4, -1e10, 1e-5, -1e-9]);
    }
    v
}
fn scales(t: Tier) -> Vec<f64> {
    let mut v = match t {
        Tier::Quick => vec![1.0, 0.1, 2.0, 0.001, 7.5, 1e4, 1e-8, 1e8],
        _ => vec![
            1.0, 0.1, 0.25, 0.5, 1.5, 2.0, 3.0, 5.0, 7.5, 10.0, 0.001, 0.03, 100.0, 1e4, 1e-8, 1e8, 1e-12, 1e12,
        ],
    };
    if t == Tier::Deep {
        v.extend([0.7, 1.1, 0.2, 0.01, 13.0, 50.0, 1e-5, 1e6, 1e-20, 1e20]);
    }
    v
}
fn shapes(t: Tier) -> Vec<f64> {
    let mut v = match t {
        Tier::Quick => vec![0.05, 0.5, 0.9, 1.0, 1.5, 2.0, 3.0, 5.0, 20.0, 100.0],
        _ => vec![
            0.02, 0.05, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 1.0, 1.01, 1.25, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 7.0, 10.0,
            20.0, 50.0, 100.0, 250.0, 1000.0,
        ],
    };
    if t == Tier::Deep {
        v.extend([0.01, 0.3, 0.4, 0.6, 0.8, 0.95, 1.1, 1.75, 2.25, 3.5, 6.0, 8.0, 12.0, 15.0, 30.0, 70.0, 150.0, 500.0]);
    }
    v
}
fn intervals(t: Tier) -> Vec<(f64, f64)> {
    let mut v = match t {
        Tier::Quick => vec![(0.0, 1.0), (-1.0, 2.0), (3.0, 4.0), (-7.5, -5.0), (0.0, 0.001), (100.0, 1100.0), (1e9, 1e9 + 1.0)],
        _ => vec![
            (0.0, 1.0),
            (-1.0, 2.0),
            (3.0, 4.0),
            (-7.5, -5.0),
            (0.0, 0.001),
            (100.0, 1100.0),
            (-1e6, 1e6),
            (0.1, 0.7),
            (1e4, 1e4 + 1.0),
            (-0.3, 0.0),
            (1e9, 1e9 + 1.0),
            (-1e15 - 2.0, -1e15),
        ],
    };
    if t == Tier::Deep {
        v.extend([(0.0, 1e-8), (-1e-3, 1e-3), (5.0, 17.0), (-2.0, 0.0), (0.0, 1e6), (0.0, 0.3), (-1e4, -1e4 + 0.5), (1e12, 1e12 + 1.0)]);
    }
    v
}
fn probs(t: Tier) -> Vec<f64> {
    let mut v = vec![
        1e-300, 1e-16, 1e-10, 1e-5, 0.001, 0.01, 0.1, 0.2, 0.25, 0.28, 0.3, 0.4, 0.45, 0.49, dn(0.5), 0.5, up(0.5),
        0.51, 0.55, 0.6, 0.7, 0.75, 0.8, 0.9, 0.99, 0.999, 1.0 - 1e-10, dn(1.0),
    ];
    if t != Tier::Quick {
        for i in 1..64 {
            v.push(i as f64 / 64.0);
        }
        for i in 1..50 {
            v.push(i as f64 / 50.0);
        }
    }
    if t == Tier::Deep {
        v.extend((1..256).map(|i| i as f64 / 256.0));
        v.extend((1..90).map(|i| i as f64 / 90.0));
        v.extend((2..60).flat_map(|i| [f64::powi(10.0, -5 * i), f64::powi(2.0, -i), 1.0 - f64::powi(2.0, -i.min(53))]));
    }
    v
}

pub fn bernoulli(t: Tier) -> Vec<P> {
    let mut v = vec![];
    for p in probs(t) {
        v.push(P::Bernoulli { p });
        v.push(P::BernoulliQ { q: p });
    }
    v
}
pub fn beta(t: Tier) -> Vec<P> {
    let mut v = vec![];
    for &alpha in &shapes(t) {
        for &beta in &shapes(t) {
            for (i, &(a, b)) in intervals(t).iter().enumerate() {
                // The full interval set for a diagonal band of shapes, two intervals elsewhere.
                if i < 2 || (alpha - beta).abs() <= 1.0 {
                    v.push(P::Beta { alpha, beta, a, b });
                }
            }
        }
    }
    for &(alpha, beta) in &[(1001.0, 1001.0), (2500.0, 40.0), (0.5, 3000.0), (3e3, 7e3), (1e5, 1e5), (2.0, 1e6), (1e6, 1e6)] {
        v.push(P::Beta { alpha, beta, a: 0.0, b: 1.0 });
        v.push(P::Beta { alpha: beta, beta: alpha, a: -1.0, b: 2.0 });
    }
    v
}
/// Small binomials: every n up to `max_n`.
pub fn binomial_small(t: Tier) -> Vec<P> {
    let mut v = vec![];
    let ps: Vec<f64> = match t {
        Tier::Quick => vec![1e-10, 0.001, 0.05, 0.1, 0.25, 0.28, 0.3, 0.4, 0.45, 0.5, 0.55, 0.7, 0.75, 0.9, 0.99, 1.0 - 1e-10],
        _ => {
            let mut v: Vec<f64> = vec![1e-300, 1e-16, 1e-10, 1e-5, 0.001, 0.28, 1.0 / 3.0, 0.999, 1.0 - 1e-10, dn(1.0)];
            v.extend((1..40).map(|i| i as f64 / 40.0));
            if t == Tier::Deep {
                v.extend((1..97).map(|i| i as f64 / 97.0));
            }
            v
        }
    };
    let max_n = match t {
        Tier::Quick => 40,
        Tier::Thorough => 128,
        Tier::Deep => 320,
    };
    for n in 0..=max_n {
        for &p in &ps {
            v.push(P::Binomial { n, p });
        }
        for &q in &[1e-20, 1e-10, 0.05, 0.25, 0.5, 0.6, 0.875] {
            v.push(P::BinomialQ { n, q });
        }
    }
    v
}
pub fn binomial_large(t: Tier) -> Vec<P> {
    let mut v = vec![];
    let mut ns: Vec<usize> = match t {
        Tier::Quick => vec![
            50, 64, 80, 81, 82, 100, 255, 256, 499, 500, 501, 502, 620, 900, 999, 1000, 1001, 1500, 2500, 3666, 9999, 10000,
            10001, 100_000, 1_000_000,
        ],
        _ => vec![
            48, 50, 63, 64, 65, 79, 80, 81, 82, 97, 100, 127, 128, 200, 255, 256, 257, 333, 400, 499, 500, 501, 502, 511,
            512, 600, 620, 700, 800, 900, 998, 999, 1000, 1001, 1002, 1016, 1024, 1074, 1075, 1076, 1500, 2000, 2500, 3666, 5000, 8191, 9999,
            10000, 10001, 20000, 50000, 100_000, 250_000, 1_000_000,
        ],
    };
    let mut ps: Vec<f64> = match t {
        Tier::Quick => vec![1e-5, 0.01, 0.1, 0.25, 0.35, 0.4, 0.5, 0.55, 0.6, 0.75, 0.9, 0.98, 0.9999],
        _ => vec![
            1e-10, 1e-5, 0.001, 0.01, 0.03, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.49, 0.5, 0.51, 0.55, 0.6, 0.65, 0.7, 0.75, 0.8,
            0.85, 0.9, 0.95, 0.97, 0.98, 0.99, 0.999, 0.9999, 1.0 - 1e-8,
        ],
    };
    if t == Tier::Deep {
        ns.extend([350, 450, 490, 510, 550, 650, 750, 850, 950, 1100, 1250, 1750, 3000, 4000, 4096, 6000, 7500, 16384, 30000, 65535, 65536, 65537, 500_000, 2_500_000, 10_000_000]);
        ps.extend([1e-7, 1e-4, 0.002, 0.02, 0.07, 0.12, 0.22, 0.33, 0.47, 0.53, 0.67, 0.78, 0.88, 0.93, 0.96, 0.995, 0.9995]);
    }
    // just below and just above a variance of 80
    for n in [321, 999, 1000, 1001, 9999, 10000, 10001, 20000] {
        for x in [79.0, 79.9999, 80.0001, 81.0] {
            let p = 0.5 - (0.25 - x / n as f64).max(0.0).sqrt();
            v.push(P::Binomial { n, p });
            v.push(P::BinomialQ { n, q: p });
        }
    }
    for &n in &ns {
        for &p in &ps {
            v.push(P::Binomial { n, p });
        }
        for &q in &[1e-12, 1e-6, 0.02, 0.3] {
            v.push(P::BinomialQ { n, q });
        }
    }
    v
}
/// Numbers of trials around the limits of 32-bit integers and beyond, a handful of successes (or
/// failures) of which are to be expected.
pub fn binomial_huge(t: Tier) -> Vec<P> {
    let mut v = vec![];
    let one: usize = 1;
    let mut ns = vec![(one << 31) - 1, one << 31, (one << 31) + 1, one << 32, (one << 32) + 3, (one << 36) + 7];
    let mut es = vec![0.4, 2.5, 40.0, 81.0, 120.0];
    if t != Tier::Quick {
        ns.extend([(one << 16) + 1, (one << 24) + 1, (one << 30) + 1, (one << 32) - 1, (one << 32) + 1, (one << 33) + 5, one << 40, (one << 45) + 1]);
        es.extend([1e-3, 0.69, 1.0, 7.0, 79.0]);
    }
    if t == Tier::Deep {
        ns.extend([(one << 20) - 1, (one << 27) + 9, (one << 34) + 1, (one << 38) + 11, one << 42, (one << 44) + 1]);
        es.extend([1e-6, 0.1, 0.5, 1.5, 15.0, 300.0, 1e4]);
    }
    for &n in &ns {
        for &e in &es {
            let p = e / n as f64;
            v.push(P::Binomial { n, p });
            v.push(P::BinomialQ { n, q: p });
            if 1.0 - p < 1.0 {
                v.push(P::BinomialQ { n, q: 1.0 - p });
            }
        }
    }
    // ... and some where both are common
    for n in [(one << 24) + 3, (one << 31) + 9] {
        for p in [0.001, 0.3, 0.9] {
            v.push(P::Binomial { n, p });
        }
        v.push(P::BinomialQ { n, q: 0.6 });
    }
    v
}
/// Binomials the mode, or the median, of which is about to move to the next outcome.
pub fn binomial_ties(t: Tier) -> Vec<P> {
    let mut v = vec![];
    let mut ns = vec![1usize, 2, 3, 7, 12, 50, 101, 333, 999, 1001, 2000, 10_001];
    let mut es = vec![1e-10, 1e-7, 1e-5, 1e-3];
    if t != Tier::Quick {
        ns.extend([4, 5, 6, 8, 9, 15, 20, 31, 64, 200, 500, 620, 1000, 1500, 5000, 10_000, 20_000, 100_000, 1_000_000]);
        es.extend([1e-12, 1e-9, 1e-8, 1e-6, 1e-4, 1e-2]);
    }
    if t == Tier::Deep {
        ns.extend([10, 11, 13, 17, 25, 40, 50, 75, 150, 250, 400, 700, 900, 1200, 3000, 7000, 15_000, 50_000, 250_000]);
        es.extend([3e-11, 3e-10, 3e-6, 3e-3]);
    }
    for &n in &ns {
        let mut ks = vec![0, 1, 2, n / 10, n / 4, n / 2, n - n / 3, n - 1];
        ks.retain(|k| *k < n);
        ks.sort();
        ks.dedup();
        for k in ks {
            // F(k) = 1/2, by bisection in p, of which F is a decreasing function
            let (mut lo, mut hi) = (0.0f64, 1.0f64);
            for _ in 0..60 {
                let p = 0.5 * (lo + hi);
                if !(p > 0.0 && p < 1.0) {
                    break;
                }
                if crate::dist::R::new(&P::Binomial { n, p }).cdf_k(k as i64).0.f() > 0.5 {
                    lo = p;
                } else {
                    hi = p;
                }
            }
            let mode = (k + 1) as f64 / (n + 1) as f64;
            for x in [0.5 * (lo + hi), mode] {
                for &e in &es {
                    for y in [x * (1.0 + e), x * (1.0 - e)] {
                        if y > 0.0 && y < 1.0 {
                            v.push(P::Binomial { n, p: y });
                            v.push(P::BinomialQ { n, q: 1.0 - y });
                        }
                    }
                }
            }
        }
    }
    v
}
pub fn binomial(t: Tier) -> Vec<P> {
    let mut v = binomial_small(t);
    v.extend(binomial_large(t));
    v.extend(binomial_huge(t));
    v
}
/// All probability vectors with entries multiples of 1/m, k categories.
pub fn compositions(m: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(m: usize, k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k == 1 {
            cur.push(m);
            out.push(cur.clone());
            cur.pop();
            return;
        }
        for i in 0..=m {
            cur.push(i);
            go(m - i, k - 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(m, k, &mut vec![], &mut out);
    out
}
pub fn categorical(t: Tier) -> Vec<P> {
    let mut v = vec![];
    let shapes: &[(usize, usize)] = match t {
        Tier::Quick => &[(1, 1), (4, 2), (10, 2), (3, 3), (8, 3), (10, 3), (6, 4), (10, 4), (5, 5), (4, 6)],
        Tier::Deep => &[
            (1, 1), (4, 2), (10, 2), (100, 2), (1000, 2), (3, 3), (8, 3), (10, 3), (24, 3), (60, 3), (6, 4), (10, 4), (12, 4), (20, 4), (5, 5), (8, 5), (10, 5),
            (14, 5), (4, 6), (7, 6), (10, 6), (12, 6), (8, 7), (3, 8), (5, 8), (7, 8), (4, 10), (3, 12),
        ],
        Tier::Thorough => &[
            (1, 1), (4, 2), (10, 2), (100, 2), (3, 3), (8, 3), (10, 3), (24, 3), (6, 4), (10, 4), (12, 4), (5, 5), (8, 5), (10, 5), (4, 6),
            (7, 6), (10, 6), (3, 8), (5, 8),
        ],
    };
    for &(m, k) in shapes {
        for c in compositions(m, k) {
            v.push(P::Categorical { p: c.iter().map(|&i| i as f64 / m as f64).collect() });
        }
    }
    v.extend(categorical_special());
    v
}
pub fn categorical_special() -> Vec<P> {
    let mut v = vec![];
    let mut push = |p: Vec<f64>| v.push(P::Categorical { p });
    for k in [7usize, 10, 12, 16, 17, 31, 32, 33, 64, 100, 257] {
        // uniform, with and without zero categories around
        push(vec![1.0 / k as f64; k]);
        let mut z = vec![1.0 / k as f64; k];
        z.push(0.0);
        push(z.clone());
        z.insert(0, 0.0);
        push(z);
        // linear and geometric
        let s = (k * (k + 1) / 2) as f64;
        push((1..=k).map(|i| i as f64 / s).collect());
        push((1..=k).rev().map(|i| i as f64 / s).collect());
        let mut g: Vec<f64> = (1..k).map(|i| 0.5f64.powi(i.min(60) as i32)).collect();
        let r = 1.0 - g.iter().sum::<f64>();
        if r >= 0.0 {
            g.push(r);
            push(g);
        }
    }
    push(vec![1e-13, 1.0 - 1e-13]);
    push(vec![1.0 - 1e-13, 1e-13]);
    push(vec![1e-300, 1.0, 0.0]);
    // the variance squared, or to the power of three halves, is not representable
    for e in [1e-100, 1e-120, 1e-160, 1e-200, 1e-250, 1e-280] {
        push(vec![e, 1.0]);
        push(vec![0.0, 1.0, e]);
        push(vec![1.0, 0.0, 0.0, e]);
        push(vec![1e-20 * e, 1.0, e]);
    }
    push(vec![0.0, 1.0, 0.0]);
    push(vec![0.1, 0.2, 0.3, 0.4]);
    push(vec![0.0, 0.75, 0.25, 0.0]);
    push(vec![0.3, 0.3, 0.4]);
    push(vec![0.0; 0].into_iter().chain([0.1; 10]).chain([0.0; 3]).collect());
    push([0.0, 0.2, 0.0, 0.2, 0.0, 0.2, 0.0, 0.2, 0.0, 0.2, 0.0].to_vec());
    push(vec![0.7, 0.1, 0.1, 0.1, 0.0]);
    // long ones
    for k in [700usize, 5000, 66_001] {
        let mut p = vec![0.0; k];
        p[k - 5..k - 2].copy_from_slice(&[0.5, 0.3, 0.2]);
        push(p);
        let mut p = vec![0.0; k];
        (p[0], p[k / 3], p[k - 1]) = (1e-9, 1.0 - 2e-9, 1e-9);
        push(p);
    }
    // near ties
    for e in [2f64.powi(-50), 2f64.powi(-46), 2f64.powi(-43), 2f64.powi(-41), 1e-11, 1e-9, 1e-7] {
        push(vec![0.25, 0.25 + e, 0.25 - e, 0.25]);
        push(vec![0.25 + e, 0.25, 0.25, 0.25 - e]);
        push(vec![0.3 - e, 0.3, 0.3 + e, 0.1]);
        push(vec![0.5 - e, 0.5 + e]);
        push(vec![0.5 + e, 0.5 - e]);
        push(vec![0.2, 0.3 - e, 0.0, e, 0.5]);
        push(vec![0.2 - 2.0 * e, 0.2 - e, 0.2, 0.2 + e, 0.2 + 2.0 * e]);
    }
    v
}
/// Many categories, of which only a few next to each other are likely, or only those at the ends.
pub fn categorical_long(t: Tier) -> Vec<P> {
    let mut v = vec![];
    let ks: &[usize] = match t {
        Tier::Quick => &[500, 1001, 5000],
        Tier::Thorough => &[500, 1001, 2500, 5000, 20_000, 66_001],
        Tier::Deep => &[300, 500, 999, 1000, 1001, 1500, 2500, 5000, 10_000, 20_000, 50_000],
    };
    for &k in ks {
        let mut push = |at: usize, q: &[f64]| {
            let mut p = vec![0.0; k];
            p[at..at + q.len()].copy_from_slice(q);
            v.push(P::Categorical { p });
        };
        for at in [0, k / 3, k / 2, k - 9, k - 4] {
            push(at, &[0.5, 0.3, 0.2]);
            push(at, &[0.25, 0.0, 0.5, 0.25]);
        }
        push(k - 8, &[0.0625, 0.125, 0.0625, 0.25, 0.25, 0.125, 0.0625, 0.0625]);
        let mut p = vec![0.0; k];
        p[0] = 0.25;
        p[k / 4] = 0.5;
        p[k - 1] = 0.25;
        v.push(P::Categorical { p: p.clone() });
        p[0] = 1e-6;
        p[k / 4] = 1.0 - 2e-6;
        p[k - 1] = 1e-6;
        v.push(P::Categorical { p });
        v.push(P::Categorical { p: vec![1.0 / k as f64; k] });
    }
    v
}
pub fn cauchy(t: Tier) -> Vec<P> {
    let mut v = vec![];
    for &x0 in &locs(t) {
        for &gamma in &scales(t) {
            v.push(P::Cauchy { x0, gamma });
        }
    }
    v
}
pub fn exponential(t: Tier) -> Vec<P> {
    scales(t).into_iter().chain([3.0, 0.3, 1e-3, 25.0]).map(|lambda| P::Exponential { lambda }).collect()
}
pub fn gamma(t: Tier) -> Vec<P> {
    let mut v = vec![];
    let mut ks = shapes(t);
    ks.extend([9.0, 170.0, 180.0, 300.0, 1001.0, 2500.0, 1e4, 1e5, 1e6]);
    for &k in &ks {
        for &theta in &scales(t) {
            v.push(P::Gamma { k, theta });
        }
    }
    v
}
pub fn gaussian(t: Tier) -> Vec<P> {
    let mut v = vec![];
    for &mu in &locs(t) {
        for &sigma in &scales(t) {
            v.push(P::Gaussian { mu, sigma });
        }
    }
    v
}
pub fn laplace(t: Tier) -> Vec<P> {
    let mut v = vec![];
    for &mu in &locs(t) {
        for &b in &scales(t) {
            v.push(P::Laplace { mu, b });
        }
    }
    v
}
pub fn logistic(t: Tier) -> Vec<P> {
    let mut v = vec![];
    for &mu in &locs(t) {
        for &s in &scales(t) {
            v.push(P::Logistic { mu, s });
        }
    }
    v
}
pub fn lognormal(t: Tier) -> Vec<P> {
    let mut v = vec![];
    let mus: &[f64] = &[0.0, 1.0, -2.0, 0.1, -5.5, 20.0, -40.0];
    let ss: &[f64] = match t {
        Tier::Quick => &[1.0, 0.1, 2.0, 0.001, 0.5, 4.0],
        Tier::Thorough => &[1.0, 0.1, 2.0, 0.001, 0.5, 4.0, 1e-5, 0.02, 0.3, 1.5, 3.0, 6.0],
        Tier::Deep => &[1.0, 0.1, 2.0, 0.001, 0.5, 4.0, 1e-5, 0.02, 0.3, 1.5, 3.0, 6.0, 1e-8, 3e-4, 0.05, 0.7, 0.9, 1.1, 1.25, 2.5, 5.0, 8.0],
    };
    for &mu in mus {
        for &sigma in ss {
            v.push(P::Lognormal { mu, sigma });
        }
    }
    v
}
fn mode_fracs(t: Tier) -> Vec<f64> {
    let mut v = match t {
        Tier::Quick => vec![0.01, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.999],
        _ => {
            let mut v: Vec<f64> = (1..32).map(|i| i as f64 / 32.0).collect();
            v.extend([1e-6, 0.001, 0.01, 0.1, 0.3, 0.7, 0.9, 0.99, 0.999]);
            v
        }
    };
    if t == Tier::Deep {
        v.extend([1e-9, 1e-4, 0.05, 0.2, 0.35, 0.45, 0.55, 0.65, 0.8, 0.95, 1.0 - 1e-6]);
    }
    v
}
pub fn pert(t: Tier) -> Vec<P> {
    let mut v = vec![];
    for &(a, c) in &intervals(t) {
        for f in mode_fracs(t) {
            let b = a + (c - a) * f;
            if a < b && b < c {
                v.push(P::Pert { a, b, c });
            }
        }
    }
    v
}
pub fn triangular(t: Tier) -> Vec<P> {
    let mut v = vec![];
    for (a, b) in intervals(t).into_iter().chain([(1e6, 1e6 + 1.0)]) {
        let mut cs = vec![a, b];
        cs.extend(mode_fracs(t).iter().map(|f| a + (b - a) * f));
        for c in cs {
            v.push(P::Triangular { a, b, c });
        }
    }
    v
}
pub fn uniform(t: Tier) -> Vec<P> {
    let mut v = vec![];
    for (a, b) in intervals(t) {
        v.push(P::Uniform { a, b });
    }
    for &l in &locs(t) {
        for &s in &scales(t) {
            if l + s > l {
                v.push(P::Uniform { a: l, b: l + s });
            }
        }
    }
    v
}

pub fn continuous(t: Tier) -> Vec<P> {
    [beta(t), cauchy(t), exponential(t), gamma(t), gaussian(t), laplace(t), logistic(t), lognormal(t), pert(t), triangular(t), uniform(t), wide()]
        .concat()
}
/// Very narrow and very wide distributions of the families with a scale.
pub fn wide() -> Vec<P> {
    let mut v = vec![];
    for w in [1e-100, 1e-30, 1e-12, 1e-9, 1e-7, 1e-5, 1e6, 1e9, 1e12, 1e30, 1e100] {
        for (a, b) in [(0.0, w), (-w, w), (-3.0 * w, -w)] {
            v.push(P::Uniform { a, b });
            for f in [0.0, 0.1, 0.5, 0.8, 1.0] {
                let c = if f == 1.0 { b } else { a + (b - a) * f };
                v.push(P::Triangular { a, b, c });
                if a < c && c < b {
                    v.push(P::Pert { a, b: c, c: b });
                }
            }
            for (alpha, beta) in [(2.0, 3.0), (0.5, 0.5), (1.0, 1.0), (5.0, 1.0), (0.5, 4.0)] {
                v.push(P::Beta { alpha, beta, a, b });
            }
        }
        for mu in [0.0, w, -2.5 * w] {
            v.push(P::Cauchy { x0: mu, gamma: w });
            v.push(P::Gaussian { mu, sigma: w });
            v.push(P::Laplace { mu, b: w });
            v.push(P::Logistic { mu, s: w });
        }
        for k in [0.5, 1.0, 2.5, 40.0] {
            v.push(P::Gamma { k, theta: w });
        }
        v.push(P::Exponential { lambda: w });
    }
    // ends of different magnitudes: a + (b - a) rounds to either side of b
    for (a, b) in [(-4.0, -0.0004), (0.0004, 4.0), (-0.3, 0.1), (-7.0, 0.7), (-1e9, 0.1), (-0.1, 1e5)] {
        v.push(P::Uniform { a, b });
        let m = 0.3 * a + 0.7 * b;
        for c in [a, m, b] {
            v.push(P::Triangular { a, b, c });
        }
        v.push(P::Pert { a, b: m, c: b });
        for (alpha, beta) in [(2.0, 3.0), (0.5, 0.5), (5.0, 0.5)] {
            v.push(P::Beta { alpha, beta, a, b });
        }
    }
    v
}
pub fn discrete(t: Tier) -> Vec<P> {
    [bernoulli(t), binomial(t), categorical(t)].concat()
}
pub fn all(t: Tier) -> Vec<P> {
    [continuous(t), discrete(t)].concat()
}

/// Sorted, deduplicated (bitwise) arguments without NaN.
pub fn tidy(mut v: Vec<f64>) -> Vec<f64> {
    v.retain(|x| !x.is_nan());
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup_by(|a, b| a.to_bits() == b.to_bits());
    v
}

const FAR: [f64; 9] = [50.0, 100.0, 700.0, 750.0, 1e3, 1e6, 1e10, 1e100, 1e300];

/// Arguments for density and distribution function of a continuous instance.
pub fn xs_continuous(i: &Inst, t: Tier) -> Vec<f64> {
    let (lo, hi) = i.r.support();
    let (loc, sc) = i.r.loc_scale();
    let mut v = vec![
        f64::NEG_INFINITY,
        f64::INFINITY,
        f64::MAX,
        f64::MIN,
        f64::MIN_POSITIVE,
        -f64::MIN_POSITIVE,
        5e-324,
        -5e-324,
        0.0,
        -0.0,
        1.0,
        -1.0,
        0.5,
    ];
    let m = if t == Tier::Quick { 16 } else { 64 };
    if lo.is_finite() && hi.is_finite() {
        let w = hi - lo;
        for k in 0..=(16 * m) {
            v.push(lo + w * (k as f64 / (16 * m) as f64));
        }
        for k in 1..=60 {
            let e = f64::powi(2.0, -k);
            v.push(lo + w * e);
            v.push(hi - w * e);
        }
        for k in [100, 300, 1000] {
            v.push(lo + w * f64::powi(2.0, -k));
        }
        for e in [lo, hi] {
            v.extend([e, up(e), dn(e), up(up(e)), dn(dn(e)), e - w, e + w, e - 1e6 * w, e + 1e6 * w]);
        }
        // places inside, approached from both sides
        let mut at = vec![lo + 0.5 * w, i.r.mean().unwrap().f()];
        if let P::Triangular { c, .. } | P::Pert { b: c, .. } = i.p {
            v.extend([c, up(c), dn(c)]);
            at.push(c);
        }
        for c in at {
            for k in (2..=52).step_by(if t == Tier::Quick { 5 } else { 2 }) {
                v.extend([c - w * f64::powi(2.0, -k), c + w * f64::powi(2.0, -k)]);
            }
        }
    } else if lo == 0.0 {
        let (step, kmax) = if t == Tier::Quick { (0.5, 160) } else { (0.0625, 1280) };
        for k in -kmax..=(kmax / 4) {
            v.push(sc * f64::powf(2.0, k as f64 * step));
        }
        if let P::Lognormal { mu, sigma } = i.p {
            for k in -(10 * m)..=(10 * m) {
                v.push((mu + sigma * k as f64 / m as f64).exp());
            }
        } else {
            // bulk of the distribution
            let mean = i.r.mean().unwrap().f();
            let sd = i.r.variance().unwrap().f().sqrt();
            for k in -(8 * m)..=(16 * m) {
                v.push(mean + sd * k as f64 / m as f64);
            }
            for k in (6..=52).step_by(if t == Tier::Quick { 5 } else { 2 }) {
                v.extend([mean - sd * f64::powi(2.0, -k), mean + sd * f64::powi(2.0, -k)]);
            }
        }
        for z in FAR {
            v.push(sc * z);
            v.push(-sc * z);
        }
        v.extend([-sc, sc]);
    } else {
        for k in 0..=(8 * m) {
            let z = k as f64 / m as f64;
            v.push(loc + sc * z);
            v.push(loc - sc * z);
        }
        for k in 8..=45 {
            v.push(loc + sc * k as f64);
            v.push(loc - sc * k as f64);
        }
        for k in 1..=60 {
            let e = f64::powi(2.0, -k);
            v.push(loc + sc * e);
            v.push(loc - sc * e);
        }
        for z in FAR {
            v.push(loc + sc * z);
            v.push(loc - sc * z);
        }
        v.extend([loc, up(loc), dn(loc)]);
    }
    tidy(v)
}

/// Outcomes examined for a discrete instance: all of them for small supports,
/// a band around the mean, the ends and segment boundaries otherwise.
pub fn ks_discrete(i: &Inst, t: Tier) -> Vec<u64> {
    let n = i.r.n();
    let full = if t == Tier::Quick { 300 } else { 3000 };
    let mut v: Vec<u64> = vec![];
    if n <= full {
        v.extend(0..=n);
    } else {
        let m = i.r.mean().unwrap().f();
        let sd = i.r.variance().unwrap().f().sqrt();
        let steps: i64 = if t == Tier::Quick { 40 } else { 200 };
        for k in -steps..=steps {
            let x = m + sd * 12.0 * k as f64 / steps as f64;
            if x >= 0.0 && x <= n as f64 {
                v.push(x as u64);
            }
        }
        let mk = (m.floor() as u64).min(n);
        for dlt in 0..=12u64 {
            v.push(mk.saturating_sub(dlt));
            v.push((mk + dlt).min(n));
        }
        for k in [0u64, 1, 2, 3, 7, 8, 14, 15, 16, 17, 34, 35, 36, 37, 79, 80, 81, 82, 499, 500, 501, 502] {
            if k <= n {
                v.push(k);
                v.push(n - k);
            }
        }
        v.push(n / 2);
        v.push(n / 2 + 1);
    }
    v.sort();
    v.dedup();
    v
}

/// Probabilities for the inverse.
pub fn ps(t: Tier) -> Vec<f64> {
    let m = if t == Tier::Quick { 128 } else { 1024 };
    let mut v: Vec<f64> = (0..=m).map(|k| k as f64 / m as f64).collect();
    for k in 1..=20 {
        v.push(k as f64 / 20.0);
        v.push(k as f64 / 1000.0);
        v.push(1.0 - k as f64 / 1000.0);
    }
    for k in 1..=53 {
        let e = f64::powi(2.0, -k);
        v.push(e);
        v.push(1.0 - e);
    }
    for k in [54, 60, 64, 80, 100, 150, 200, 300, 500, 800, 1000, 1022, 1040, 1074] {
        v.push(f64::powi(2.0, -k));
    }
    for k in 4..=15 {
        let e = f64::powi(10.0, -k);
        v.extend([e, 1.0 - e]);
        let e: f64 = format!("1e-{}", k).parse().unwrap();
        v.extend([e, 1.0 - e]);
    }
    v.extend([1e-20, 1e-30, 1e-50, 1e-100, 1e-200, 1e-300, f64::MIN_POSITIVE, 0.025, 0.975, 0.995, 0.0001, 0.9999, 0.6827, 0.9545, 0.9973]);
    // the middle, approached from both sides
    for k in (2..=52).step_by(if t == Tier::Quick { 3 } else { 1 }) {
        v.extend([0.5 - f64::powi(2.0, -k), 0.5 + f64::powi(2.0, -k)]);
    }
    for k in (60..1074).step_by(if t == Tier::Quick { 48 } else { 12 }) {
        v.push(f64::powi(2.0, -k) * 1.37);
    }
    // switch points of rational approximations: |p - 1/2| = 0.425, sqrt(-ln p) = 5
    for c in [0.075, 0.925, (-25f64).exp(), 1.0 - (-25f64).exp(), 0.5, 1.0 / 3.0, 2.0 / 3.0, 0.1, 0.9] {
        v.extend([c, up(c), dn(c)]);
    }
    v.retain(|p| (0.0..=1.0).contains(p));
    tidy(v)
}

/// Parameter vectors for queries that take no argument: cheap, so the dense lattice is used in
/// both tiers, with more locations and scales.
pub fn scalar(t: Tier) -> Vec<P> {
    let mut v = all(t);
    let tt = if t == Tier::Quick { Tier::Thorough } else { t };
    v.extend([beta(tt), cauchy(tt), exponential(tt), gamma(tt), gaussian(tt), laplace(tt), logistic(tt), lognormal(tt), pert(tt), triangular(tt), uniform(tt), bernoulli(tt)].concat());
    let big: &[f64] = &[1e-6, 1e-3, 0.7, 13.0, 1e3, 1e6];
    for &l in &[0.0, -0.5, 3.25, 1e3, -1e5, 1e7] {
        for &s in big {
            v.push(P::Uniform { a: l, b: l + s });
            for f in mode_fracs(t) {
                let (a, b) = (l, l + s);
                let c = a + (b - a) * f;
                v.push(P::Triangular { a, b, c });
                if a < c && c < b {
                    v.push(P::Pert { a, b: c, c: b });
                }
            }
            for &alpha in &shapes(t) {
                for &beta in &[0.5, 1.0, 2.0, 7.0] {
                    v.push(P::Beta { alpha, beta, a: l, b: l + s });
                    v.push(P::Beta { alpha, beta: alpha, a: l, b: l + s });
                }
            }
        }
    }
    v.extend(binomial_ties(t));
    // shapes next to one, where densities change their form
    for &e in &[f64::EPSILON, 1e-12, 1e-9, 1e-6, 1e-4] {
        for alpha in [1.0 - e, 1.0 + e] {
            v.push(P::Gamma { k: alpha, theta: 1.0 });
            v.push(P::Gamma { k: alpha, theta: 3.5 });
            for beta in [0.5, 1.0 - e, 1.0, 1.0 + e, 2.0, 30.0] {
                v.push(P::Beta { alpha, beta, a: 0.0, b: 1.0 });
                v.push(P::Beta { alpha: beta, beta: alpha, a: -1.0, b: 2.0 });
            }
        }
    }
    // large shapes, where series and approximations take over
    for &k in &[1500.0, 2500.0, 1e4, 12_345.678, 1e5, 1e6, 1e7, 1e8] {
        for &theta in &[1.0, 3.5, 1e-5] {
            v.push(P::Gamma { k, theta });
        }
        for &f in &[1.0, 0.7, 3.0, 0.01] {
            if k * f <= 1e6 {
                v.push(P::Beta { alpha: k, beta: k * f, a: 0.0, b: 1.0 });
                v.push(P::Beta { alpha: k * f, beta: k, a: -1.0, b: 2.0 });
            }
        }
    }
    v.extend(categorical_long(t));
    for &sigma in &[1e-9, 1e-6, 3e-3, 0.2, 1.3, 2.5, 8.0, 13.0, 18.0] {
        for &mu in &[0.0, 0.3, -7.0, 30.0, -200.0, 300.0, 700.0, -720.0, 1000.0, -1000.0] {
            v.push(P::Lognormal { mu, sigma });
        }
    }
    for &x in &[1e-200, 1e-100, 1e-30, 1e30, 1e100, 1e140] {
        v.push(P::Exponential { lambda: x });
        for &l in &[0.0, 5.0, -1e50] {
            v.push(P::Gaussian { mu: l, sigma: x });
            v.push(P::Laplace { mu: l, b: x });
            v.push(P::Logistic { mu: l, s: x });
            v.push(P::Cauchy { x0: l, gamma: x });
        }
        for &k in &[0.3, 1.0, 4.5] {
            v.push(P::Gamma { k, theta: x });
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|p| seen.insert(p.key()));
    v
}
