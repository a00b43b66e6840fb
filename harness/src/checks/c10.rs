//! C10: the law of the samples under a uniform source.
//!
//! Every execution carries the measure of the words that lead to it, so that the explored tree
//! of environment answers yields the output law as an exact sum, which is compared with the
//! reference CDF at every edge.
//!
//! * One-read samplers: the word line is cut into cells (finer and finer towards both ends); for
//!   every edge x the places where `sample <= x` flips are bisected to the word.
//! * Standard normal: all 256 low bytes x a grid of the 24-bit mantissa (all of it in the thorough
//!   tier); acceptance thresholds of the floats read next are bisected.
//! * Derived samplers: products of equal-probability strata of the normal (represented by
//!   the words that produce them) and of cells of the floats, with bisected acceptance thresholds.
//! * Rejections: every execution that rejects is extended by accepted ones, which have to give
//!   the values they give on their own.
use super::*;
use crate::dd::*;
use crate::dist::*;
use crate::env::*;
use crate::lattice::*;
use crate::tol::*;
use std::sync::OnceLock;

static F: &str = "sample";
const TWO64: f64 = 18446744073709551616.0;

#[derive(Clone, Copy)]
struct Run {
    v: f64,
    reads: usize,
    ints: u32,
    kinds: u64,
}

fn run_script(w: &W, i: &'static Inst, s: &[u64]) -> Option<Run> {
    let mut src = Script::new(s, Benign::Mild);
    let v = w.call_script(i, &F, s, || i.d.sample(&mut src))?;
    Some(Run { v, reads: src.pos, ints: src.ints, kinds: src.kinds })
}

/// Number of integers among the first n reads.
fn ints_in(kinds: u64, n: usize) -> u32 {
    let mask = if n >= 64 { u64::MAX } else { (1 << n) - 1 };
    (!kinds & mask).count_ones()
}

fn edge_ps(fine: bool) -> Vec<f64> {
    let m = if fine { 128 } else { 32 };
    let mut v: Vec<f64> = (1..m).map(|k| k as f64 / m as f64).collect();
    for k in 6..=(if fine { 40 } else { 12 }) {
        v.push(f64::powi(2.0, -k));
        v.push(1.0 - f64::powi(2.0, -k));
    }
    tidy(v)
}

// ---------------------------------------------------------------------------------------------
// One-read samplers

/// Cut points of the word line: `uniform` cells, the outermost ones refined per octave.
fn cuts(uniform: usize, per_octave: u64) -> Vec<u64> {
    let mut v = vec![];
    let step = u64::MAX / uniform as u64;
    for k in 1..uniform as u64 {
        v.push(k * step);
    }
    let mut top = step;
    while top >= per_octave * 2 {
        let half = top / 2;
        for k in 0..per_octave {
            let x = half + (top - half) / per_octave * k;
            v.push(x);
            v.push(u64::MAX - x);
        }
        top = half;
    }
    v.extend([1, 2, 3, 5, 9, 17, u64::MAX - 1, u64::MAX - 2]);
    v.sort();
    v.dedup();
    v
}

fn one_read(w: &W, i: &'static Inst, uniform: usize, per_octave: u64) {
    let cut = cuts(uniform, per_octave);
    // representatives: the ends and the middles of cells
    let mut pts = vec![0u64];
    for c in cut.windows(2) {
        pts.push(c[0] + (c[1] - c[0]) / 2);
    }
    pts.push(u64::MAX);
    pts.dedup();
    let mut vals = Vec::with_capacity(pts.len());
    for &p in &pts {
        match run_script(w, i, &[p]) {
            Some(r) if r.reads <= 1 && !r.v.is_nan() => vals.push(r.v),
            Some(r) if r.v.is_nan() => {
                w.ctx.fail(format!("{}.sample{}", i.key, show(&[p])), "not a number".into(), "NaN".into());
                return;
            }
            Some(_) => {
                w.outcome("unrecognised structure", 1);
                return;
            }
            None => return,
        }
    }
    w.state(pts.len() as u64);
    w.trace(pts.len() as u64);
    let edges: Vec<f64> = if i.p.discrete() {
        ks_discrete(i, Tier::Quick).into_iter().map(|k| k as f64).collect()
    } else {
        edge_ps(true).into_iter().map(|p| i.r.quantile(p)).collect()
    };
    let (abs, rel) = cdf_tol(&i.r);
    let npq = i.r.variance().map_or(0.0, |v| v.f());
    let approx = i.p.family() == "Binomial" && i.r.n() >= 1000 && npq > 80.0 * (1.0 - 1e-9);
    for &x in &edges {
        // measure of { word: sample <= x }, exact up to hidden oscillation within a cell
        let mut m: u128 = 0;
        let mut flips = 0;
        let mut cur = vals[0] <= x;
        let mut from: u128 = 0;
        for k in 1..pts.len() {
            let next = vals[k] <= x;
            if next != cur {
                let (mut lo, mut hi) = (pts[k - 1], pts[k]);
                while hi - lo > 1 {
                    let mid = lo + (hi - lo) / 2;
                    let r = match run_script(w, i, &[mid]) {
                        Some(r) => r,
                        None => return,
                    };
                    w.trans(1);
                    if (r.v <= x) == cur {
                        lo = mid;
                    } else {
                        hi = mid;
                    }
                }
                if cur {
                    m += hi as u128 - from;
                }
                from = hi as u128;
                cur = next;
                flips += 1;
            }
        }
        if cur {
            m += (1u128 << 64) - from;
        }
        w.trans(1);
        w.outcome(&format!("{} edges", i.p.family()), 1);
        let g = m as f64 / TWO64;
        let c = ((1u128 << 64) - m) as f64 / TWO64;
        // floats below one have 53 bits
        let grain = 4.0 * EPS;
        let (err, tol, t);
        if i.p.discrete() {
            let (f, s) = i.r.cdf_k(x as i64);
            t = f.f();
            err = if t <= 0.5 { (g - t).abs() } else { (c - s.f()).abs() };
            let near = if approx {
                // accuracy of the documented approximation: a fraction of an outcome
                let k = x as u64;
                let mm = i.r.mass(k).f().max(i.r.mass(k + 1).f());
                1e-3 * mm + 2e-9
            } else {
                0.0
            };
            tol = abs + rel + grain + near;
        } else {
            let (l, h) = cdf_range_at(&i.r, x);
            t = i.r.cdf(x).0.f();
            err = if g < l { l - g } else if g > h { g - h } else { 0.0 };
            // relative accuracy in the lower tail is kept by floats, not in the upper
            tol = grain;
        }
        w.stat(
            || format!("{}{} used", i.p.family(), if approx { " approx" } else { "" }),
            err / tol,
            || format!("{} x={:?} {:?} vs {:?} flips {}", i.key, x, g, t, flips),
        );
        if !(err <= tol) {
            w.ctx.fail(
                format!("{}.sample<={:?}", i.key, x),
                format!("a fraction {:?} of the words leads to such a sample, the CDF is {:?}", g, t),
                format!("{:?}", g),
            );
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Trees

struct Tok {
    words: Vec<u64>,
    weight: f64,
    /// the part of the weight on the left of the value of these words
    below: f64,
}

/// Leaf of the tree of a sampler: value, measure and words.
struct Leaf {
    v: f64,
    weight: f64,
    words: Vec<u64>,
}

struct Tree<'a> {
    w: &'a W,
    i: &'static Inst,
    /// integers read by an execution without rejections
    c: u32,
    /// integers consumed by a rejecting prefix
    base: u32,
    toks: &'a [Vec<Tok>],
    cells: &'a [(u64, f64)],
    bits: u32,
    edges: &'a [f64],
    hist: Vec<f64>,
    total: f64,
    rejected: f64,
    odd: f64,
    keep: Option<Vec<Leaf>>,
    /// how many gamma variates have their last float bisected, if any
    exact: u32,
}

const PROBES: [f64; 7] = [1e-15, 0.03, 0.25, 0.5, 0.75, 0.97, 1.0 - 1e-12];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sig {
    Reject,
    Done(u64, usize),
    Open(bool, u64, usize, u64, usize),
}

impl<'a> Tree<'a> {
    fn leaf(&mut self, s: &[u64], v: f64, weight: f64) {
        let k = self.edges.partition_point(|e| *e < v);
        self.hist[k] += weight;
        self.total += weight;
        if let Some(l) = &mut self.keep {
            l.push(Leaf { v, weight, words: s.to_vec() });
        }
    }
    fn put(&mut self, bin: usize, weight: f64) {
        if bin == usize::MAX {
            self.odd += weight;
        } else {
            self.hist[bin] += weight;
            self.total += weight;
        }
    }
    fn run(&self, s: &[u64]) -> Option<Run> {
        self.w.state(1);
        run_script(self.w, self.i, s)
    }
    /// How an execution goes on after the words s, the last of which was read as a float.
    fn sig(&self, s: &[u64]) -> Option<Sig> {
        let n = s.len();
        let q = self.run(s)?;
        if q.reads <= n {
            return Some(Sig::Done(q.v.to_bits(), q.reads));
        }
        let float = q.kinds >> n & 1 == 1;
        if q.ints > self.c && !float {
            return Some(Sig::Reject);
        }
        let mut src = Script::new(s, Benign::Weyl(1));
        self.w.state(1);
        let v = self.w.call_script(self.i, &F, s, || self.i.d.sample(&mut src))?;
        let mut mix = v.to_bits();
        for u in PROBES {
            let mut src = Script::new(s, Benign::Split(u.to_bits()));
            self.w.state(1);
            let v = self.w.call_script(self.i, &F, s, || self.i.d.sample(&mut src))?;
            mix = (mix.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23) ^ v.to_bits()).wrapping_add(src.pos as u64);
        }
        Some(Sig::Open(float, q.v.to_bits(), q.reads, mix, src.pos))
    }
    fn expand(&mut self, s: &mut Vec<u64>, weight: f64) {
        let n = s.len();
        if self.w.ctx.late() {
            self.odd += weight;
            return;
        }
        let r = match self.run(s) {
            Some(r) => r,
            None => return,
        };
        if r.reads <= n {
            if r.reads < n {
                self.odd += weight;
            } else {
                self.w.trace(1);
                self.leaf(s, r.v, weight);
            }
            return;
        }
        if n > 12 {
            self.odd += weight;
            return;
        }
        if r.kinds >> n & 1 == 0 {
            if r.ints > self.c || ints_in(r.kinds, n) >= self.c {
                self.rejected += weight;
                return;
            }
            let toks = &self.toks[ints_in(r.kinds, n).saturating_sub(self.base) as usize % self.toks.len()];
            for t in toks {
                self.w.trans(1);
                s.extend_from_slice(&t.words);
                if t.words.len() > 1 {
                    // the words after the first one are floats
                    if let Some(q) = self.run(s) {
                        if (n + 1..s.len()).any(|k| q.kinds >> k & 1 == 0) || q.reads < s.len() {
                            self.odd += weight * t.weight;
                            s.truncate(n);
                            continue;
                        }
                    }
                }
                self.expand(s, weight * t.weight);
                s.truncate(n);
            }
            return;
        }
        // A float: answers after which the sampler goes on in the same way form one class.
        let mut pr = [Sig::Reject; PROBES.len()];
        for (k, &u) in PROBES.iter().enumerate() {
            s.push(of_unit(u));
            let q = self.sig(s);
            s.pop();
            pr[k] = match q {
                Some(q) => q,
                None => return,
            };
        }
        let mut classes: Vec<(Sig, f64, u64)> = vec![];
        for (k, q) in pr.iter().enumerate() {
            if !classes.iter().any(|c| c.0 == *q) {
                classes.push((*q, 0.0, of_unit(PROBES[k])));
            }
        }
        // Boundaries of the classes; beyond one, the next class has to start at once, or else the
        // sampler does not depend on the float through its class alone.
        let mut clear = classes.len() <= 3;
        if clear {
            let mut from = 0.0;
            for k in 1..=PROBES.len() {
                let at = if k == PROBES.len() {
                    1.0
                } else if pr[k] == pr[k - 1] {
                    continue;
                } else {
                    let (mut lo, mut hi) = (PROBES[k - 1], PROBES[k]);
                    let mut beyond = Some(pr[k]);
                    for _ in 0..self.bits {
                        let mid = 0.5 * (lo + hi);
                        s.push(of_unit(mid));
                        let q = self.sig(s);
                        s.pop();
                        if q == Some(pr[k - 1]) {
                            lo = mid;
                        } else {
                            hi = mid;
                            beyond = q;
                        }
                    }
                    if beyond != Some(pr[k]) {
                        clear = false;
                        break;
                    }
                    0.5 * (lo + hi)
                };
                classes.iter_mut().find(|c| c.0 == pr[k - 1]).unwrap().1 += at - from;
                from = at;
            }
        }
        if clear {
            for (q, m, u) in classes {
                if q == Sig::Reject {
                    self.rejected += weight * m;
                } else {
                    s.push(u);
                    self.expand(s, weight * m);
                    s.pop();
                }
            }
            return;
        }
        let cells = self.cells;
        if self.exact > 0 && pr.iter().all(|q| matches!(q, Sig::Done(_, r) if *r == n + 1)) {
            // The last float: the places where the sample passes an edge are bisected.
            let mut bin = |t: &mut Self, u: u64| -> Option<usize> {
                s.push(u);
                let r = t.run(s);
                s.pop();
                let r = r?;
                Some(if r.reads == n + 1 { t.edges.partition_point(|e| *e < r.v) } else { usize::MAX })
            };
            let mut last = (0u64, match bin(self, 0) {
                Some(k) => k,
                None => return,
            });
            let mut from = 0u64;
            // two such floats take their turns: fewer places to start from
            let step = if self.exact > 1 { (cells.len() / 16).max(1) } else { 1 };
            for &(u, _) in cells.iter().step_by(step).chain([&(u64::MAX, 0.0)]) {
                let k = match bin(self, u) {
                    Some(k) => k,
                    None => return,
                };
                while last.1 != k {
                    let (mut lo, mut hi, mut beyond) = (last.0, u, k);
                    while hi - lo > (1 << 26).max(if self.exact > 1 { hi >> 12 } else { 0 }) {
                        let mid = lo + (hi - lo) / 2;
                        match bin(self, mid) {
                            Some(x) if x == last.1 => lo = mid,
                            Some(x) => {
                                hi = mid;
                                beyond = x;
                            }
                            None => return,
                        }
                    }
                    let flip = lo + (hi - lo) / 2;
                    self.put(last.1, weight * ((flip - from) as f64 / TWO64));
                    from = flip;
                    last = (hi, beyond);
                }
                last = (u, k);
            }
            self.w.trace(1);
            self.put(last.1, weight * ((u64::MAX - from) as f64 / TWO64));
            return;
        }
        for &(u, cw) in cells {
            self.w.trans(1);
            s.push(u);
            self.expand(s, weight * cw);
            s.pop();
        }
    }
    /// The same for a sampler whose value is an increasing function of the stratum: at the median
    /// of a stratum, half of its measure counts.
    fn line(&self, what: &str, strata: usize, abs: f64) {
        let l = match &self.keep {
            Some(l) => l,
            None => return,
        };
        if self.odd > 0.0 || l.len() > strata || l.len() < strata / 4 || l.windows(2).any(|l| !(l[0].v < l[1].v)) {
            self.w.outcome("not a function of one stratum", 1);
            return;
        }
        self.w.outcome("functions of one stratum, judged at every median", 1);
        let mut cum = 0.0;
        let mut toks = self.toks[0].iter();
        // the larger the shape, the costlier the reference
        let step = if matches!(self.i.p, P::Gamma { k, .. } if k > 500.0) { 16 } else { 1 };
        for (n, l) in l.iter().enumerate() {
            let tok = match toks.find(|t| l.words.starts_with(&t.words)) {
                Some(t) => t,
                None => {
                    self.w.outcome("not a function of one stratum", 1);
                    return;
                }
            };
            let g = (cum + tok.below * l.weight) / self.total;
            cum += l.weight;
            if n % step != 0 {
                continue;
            }
            let e = d(dx(&self.i.r, l.v));
            let (f0, f1) = (self.i.r.cdf_dd(d(l.v) - e).0.f(), self.i.r.cdf_dd(d(l.v) + e).0.f());
            let err = (f0 - g).max(g - f1).max(0.0);
            self.w.stat(|| format!("{} line {}", what, strata), err, || format!("{} x={:?} F={:?} rejected={:.4}", self.i.key, l.v, f0, self.rejected));
            if !(err <= abs) {
                self.w.ctx.fail(
                    format!("{}.sample<={:?}(line)", self.i.key, l.v),
                    format!("a fraction {:?} of the words leads to such a sample, the CDF is {:?} (accuracy of the sum {:.1e})", g, f0, abs),
                    format!("{:?}", g),
                );
            }
        }
    }
    /// Largest deviations of the law from the reference, and the verdict.
    fn verdict(&self, what: &str, abs: f64, rel_tail: f64) {
        let mut cum = 0.0;
        let mut lower = vec![];
        for h in &self.hist {
            cum += h;
            lower.push(cum);
        }
        let total = self.total;
        self.w.outcome(&format!("{} edges", what), self.edges.len() as u64);
        self.w.stat(|| format!("{} odd", what), self.odd, || self.i.key.clone());
        if total <= 0.0 || self.odd > 0.01 {
            self.w.outcome("unrecognised structure", 1);
            return;
        }
        let mut upper = vec![0.0; self.hist.len() + 1];
        for k in (0..self.hist.len()).rev() {
            upper[k] = upper[k + 1] + self.hist[k];
        }
        for (k, &x) in self.edges.iter().enumerate() {
            let (f, s) = self.i.r.cdf(x);
            let (g, gc) = (lower[k] / total, upper[k + 1] / total);
            // samples and edges are rounded
            let e = d(dx(&self.i.r, x));
            let (f0, f1) = (self.i.r.cdf_dd(d(x) - e), self.i.r.cdf_dd(d(x) + e));
            let out = |g: f64, l: f64, h: f64| if g < l { l - g } else if g > h { g - h } else { 0.0 };
            let (err, small) = if f.h <= 0.5 { (out(g, f0.0.f(), f1.0.f()), f.f()) } else { (out(gc, f1.1.f(), f0.1.f()), s.f()) };
            let tol = abs.min(abs * small.sqrt() * 8.0 + rel_tail * small) + 1e-13 + self.odd / total;
            self.w.stat(|| format!("{} used", what), err / tol, || format!("{} x={:?} F={:?} err={:e} rejected={:.4}", self.i.key, x, f.f(), err, self.rejected));
            self.w.stat(|| format!("{} abs", what), err, || format!("{} x={:?} F={:?} rejected={:.4}", self.i.key, x, f.f(), self.rejected));
            if !(err <= tol) {
                self.w.ctx.fail(
                    format!("{}.sample<={:?}", self.i.key, x),
                    format!("a fraction {:?} of the words leads to such a sample, the CDF is {:?} (accuracy of the sum {:.1e})", g, f.f(), tol),
                    format!("{:?}", g),
                );
            }
        }
    }
}

/// Cells of [0, 1] as (word, measure), the outermost refined towards the ends.
fn unit_cells(m: usize, octaves: i32) -> Vec<(u64, f64)> {
    fine_cells(m, octaves, 2)
}

fn fine_cells(m: usize, octaves: i32, per: i32) -> Vec<(u64, f64)> {
    let mut b = vec![0.0, 1.0];
    for k in 1..m {
        b.push(k as f64 / m as f64);
    }
    for k in 1..=octaves {
        let x = f64::powi(0.5, k) / m as f64;
        for j in 0..per {
            let y = x * (1.0 + j as f64 / per as f64);
            b.push(y);
            b.push(1.0 - y);
        }
    }
    let b = tidy(b);
    b.windows(2).map(|c| (of_unit(0.5 * (c[0] + c[1])), c[1] - c[0])).collect()
}

/// Grid of the mantissa: word with the low byte b and the k-th of m mantissas.
fn gauss_word(b: u64, k: u64, m: u64) -> u64 {
    let j = if m >= 1 << 24 { k } else { (k * 2 + 1) * ((1 << 24) / (2 * m)) };
    let high = (k.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03)) >> 32;
    (high << 32) | (j << 8) | b
}

static STD: OnceLock<&'static Inst> = OnceLock::new();
static LEAVES: OnceLock<Vec<Leaf>> = OnceLock::new();

/// All leaves of the standard normal, in increasing order.
fn leaves(w: &W) -> &'static [Leaf] {
    LEAVES.get_or_init(|| {
        let i = STD.get().unwrap();
        let cells = unit_cells(64, 40);
        let mut t = Tree { w, i, c: 1, base: 0, toks: &[], cells: &cells, bits: 24, edges: &[], hist: vec![0.0], total: 0.0, rejected: 0.0, odd: 0.0, keep: Some(vec![]), exact: 0 };
        let m = 1 << 12;
        for b in 0..256 {
            for k in 0..m {
                t.expand(&mut vec![gauss_word(b, k, m)], 1.0 / (256.0 * m as f64));
                w.tick();
            }
        }
        let mut l = t.keep.unwrap();
        l.sort_by(|a, b| a.v.total_cmp(&b.v));
        l
    })
}

/// n strata of the standard normal of equal probability (the outermost refined), each
/// represented by the words of its median leaf.
fn tokens(w: &W, n: usize, octaves: i32, smooth: bool) -> Vec<Tok> {
    let l = leaves(w);
    let total: f64 = l.iter().map(|x| x.weight).sum();
    let cells = {
        let mut b = vec![0.0, 1.0];
        for k in 1..n {
            b.push(k as f64 / n as f64);
        }
        for k in 1..=octaves {
            let x = f64::powi(0.5, k) / n as f64;
            b.push(x);
            b.push(1.0 - x);
        }
        tidy(b)
    };
    // cumulative from both ends, so that both tails are accurate
    let mut low = Vec::with_capacity(l.len());
    let mut s = 0.0;
    for x in l {
        low.push((s + 0.5 * x.weight) / total);
        s += x.weight;
    }
    let mut high = vec![0.0; l.len()];
    let mut s = 0.0;
    for k in (0..l.len()).rev() {
        high[k] = (s + 0.5 * l[k].weight) / total;
        s += l[k].weight;
    }
    let find = |p: f64, c: f64| -> usize {
        if p <= 0.5 {
            low.partition_point(|x| *x < p).min(l.len() - 1)
        } else {
            high.partition_point(|x| *x > c).min(l.len() - 1)
        }
    };
    let (mut at, mut t) = (vec![], vec![]);
    for c in cells.windows(2) {
        let (p, q) = (0.5 * (c[0] + c[1]), 1.0 - 0.5 * (c[0] + c[1]));
        let x = &l[find(p, q)];
        if smooth && at.last() == Some(&x.v) {
            continue;
        }
        at.push(x.v);
        t.push(Tok { words: x.words.clone(), weight: c[1] - c[0], below: 0.5 });
    }
    if smooth {
        // the normal law itself is judged elsewhere, and more accurately than by these leaves
        let r = &STD.get().unwrap().r;
        let mut last = (0.0, 1.0);
        for k in 0..t.len() {
            let next = if k + 1 < t.len() {
                let (f, s) = r.cdf(0.5 * (at[k] + at[k + 1]));
                (f.f(), s.f())
            } else {
                (1.0, 0.0)
            };
            let (f, s) = r.cdf(at[k]);
            let (all, below) = if next.0 < 0.5 { (next.0 - last.0, f.f() - last.0) } else { (last.1 - next.1, last.1 - s.f()) };
            t[k].weight = all;
            t[k].below = if all > 0.0 { (below / all).clamp(0.0, 1.0) } else { 0.5 };
            last = next;
        }
    }
    t
}

fn normal_edges(i: &Inst) -> Vec<f64> {
    let (mu, sigma) = match i.p {
        P::Gaussian { mu, sigma } => (mu, sigma),
        _ => (0.0, 1.0),
    };
    let mut v: Vec<f64> = (-200..=200).map(|k| k as f64 * 0.02).collect();
    for z in [3.4, 3.45, 3.5, 3.6, 3.8, 4.0, 4.5, 5.0, 5.5, 6.0, 6.5] {
        v.extend([z, -z]);
    }
    tidy(v.into_iter().map(|z| mu + sigma * z).collect())
}

/// The normal, enumerated directly; one job per low byte, merged at the end.
struct Merge {
    i: &'static Inst,
    edges: Vec<f64>,
    parts: std::sync::Mutex<Vec<Option<(Vec<f64>, f64, f64, f64)>>>,
    abs: f64,
    rel: f64,
}

/// The word with the low byte b and the mantissa j (24 bits above it); the bits further up are
/// filled by a fixed hash.
fn layer_word(b: u64, j: u64) -> u64 {
    let high = (j.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03)) >> 32;
    (high << 32) | (j << 8) | b
}

const MANTISSAS: u64 = 1 << 24;

/// One low byte: the mantissas that are accepted at once are counted exactly (the places where
/// acceptance, and for every edge where `sample <= x`, flips are bisected); over the others, the
/// acceptance measure is integrated on a grid of `fine` mantissas per run.
fn layer(t: &mut Tree, b: u64, grid: u64, fine: u64) -> Option<()> {
    let unit = 1.0 / (256.0 * MANTISSAS as f64);
    let at = |t: &Tree, j: u64| -> Option<(bool, f64)> {
        let r = t.run(&[layer_word(b, j)])?;
        Some((r.reads == 1, r.v))
    };
    // runs of mantissas of the same class
    let mut runs: Vec<(u64, u64, bool, Vec<(u64, f64)>)> = vec![];
    let mut from = 0;
    let (mut last, v) = at(t, 0)?;
    let mut pts = vec![(0, v)];
    let mut prev = 0;
    for k in 1..=grid {
        let j = (k * (MANTISSAS / grid)).min(MANTISSAS - 1);
        let (c, v) = at(t, j)?;
        if c != last {
            let (mut lo, mut hi) = (prev, j);
            let mut vl = pts.last().unwrap().1;
            let mut vh = v;
            while hi - lo > 1 {
                let mid = lo + (hi - lo) / 2;
                let (cm, vm) = at(t, mid)?;
                if cm == last {
                    lo = mid;
                    vl = vm;
                } else {
                    hi = mid;
                    vh = vm;
                }
            }
            if pts.last().unwrap().0 != lo {
                pts.push((lo, vl));
            }
            runs.push((from, hi, last, std::mem::take(&mut pts)));
            from = hi;
            last = c;
            pts.push((hi, vh));
        }
        if pts.last().unwrap().0 != j {
            pts.push((j, v));
        }
        prev = j;
    }
    runs.push((from, MANTISSAS, last, pts));
    for (from, to, direct, pts) in runs {
        t.w.tick();
        if direct {
            t.w.trace(to - from);
            // the interval of edges a value falls into, over every piece between grid points
            let bin = |t: &Tree, v: f64| t.edges.partition_point(|e| *e < v);
            let mut add = |t: &mut Tree, k: usize, m: u64| {
                t.hist[k] += m as f64 * unit;
                t.total += m as f64 * unit;
            };
            let mut start = from;
            let mut k0 = bin(t, pts[0].1);
            for p in pts.windows(2) {
                let k1 = bin(t, p[1].1);
                let mut left = p[0].0;
                while k0 != k1 {
                    // the first place where the bin changes
                    let (mut lo, mut hi) = (left, p[1].0);
                    let mut kh = k1;
                    while hi - lo > 1 {
                        let mid = lo + (hi - lo) / 2;
                        let km = bin(t, at(t, mid)?.1);
                        if km == k0 {
                            lo = mid;
                        } else {
                            hi = mid;
                            kh = km;
                        }
                    }
                    add(t, k0, hi - start);
                    start = hi;
                    left = hi;
                    k0 = kh;
                }
            }
            add(t, k0, to - start);
            continue;
        }
        // the tail does not depend on the mantissa: explored once
        let same = {
            let (a, z) = (layer_word(b, from), layer_word(b, to - 1));
            let mut same = to - from > 1;
            for x in [0.9, 0.4] {
                let (p, q) = (t.run(&[a, of_unit(x), of_unit(0.01)])?, t.run(&[z, of_unit(x), of_unit(0.01)])?);
                same &= p.reads == 3 && q.reads == 3 && p.v.to_bits() == q.v.to_bits();
            }
            same
        };
        if same {
            t.expand(&mut vec![layer_word(b, from)], (to - from) as f64 * unit);
            continue;
        }
        // cut where an accepted value passes an edge
        let bin_at = |t: &Tree, j: u64| -> Option<usize> {
            for u in [0.001, 0.999, 0.3, 0.6, 0.0, 1.0] {
                let r = t.run(&[layer_word(b, j), of_unit(u)])?;
                if r.reads == 2 {
                    return Some(t.edges.partition_point(|e| *e < r.v));
                }
            }
            Some(usize::MAX)
        };
        let mut cuts = vec![from];
        let pieces = 64.min(to - from);
        let mut lo_j = from;
        let mut lo_bin = bin_at(t, from)?;
        for k in 1..=pieces {
            let hi_j = (from + (to - from) * k / pieces).min(to - 1);
            let hi_bin = bin_at(t, hi_j)?;
            while lo_bin != hi_bin {
                let (mut lo, mut hi) = (lo_j, hi_j);
                let mut kh = hi_bin;
                while hi - lo > 1 {
                    let mid = lo + (hi - lo) / 2;
                    let km = bin_at(t, mid)?;
                    if km == lo_bin {
                        lo = mid;
                    } else {
                        hi = mid;
                        kh = km;
                    }
                }
                cuts.push(hi);
                lo_j = hi;
                lo_bin = kh;
            }
            lo_j = hi_j;
        }
        cuts.push(to);
        for c in cuts.windows(2) {
            let (p, q) = (c[0], c[1]);
            let m = (fine * (q - p) / (to - from)).max(16).min(q - p);
            for k in 0..m {
                let (x, y) = (p + (q - p) * k / m, p + (q - p) * (k + 1) / m);
                t.expand(&mut vec![layer_word(b, (x + y) / 2)], (y - x) as f64 * unit);
            }
        }
    }
    Some(())
}

fn gaussian_jobs(i: &'static Inst, grid: u64, fine: u64, bits: u32, abs: f64, rel: f64, jobs: &mut Vec<Job>) {
    let g: &'static Merge = Box::leak(Box::new(Merge {
        i,
        edges: normal_edges(i),
        parts: std::sync::Mutex::new((0..256).map(|_| None).collect()),
        abs,
        rel,
    }));
    let cells: &'static Vec<(u64, f64)> = Box::leak(Box::new(fine_cells(2, 40, 1024)));
    for b in 0..256u64 {
        jobs.push(Box::new(move |w: &W| {
            let new = || Tree {
                w,
                i: g.i,
                c: 1,
                base: 0,
                toks: &[],
                cells,
                bits,
                edges: &g.edges,
                hist: vec![0.0; g.edges.len() + 1],
                total: 0.0,
                rejected: 0.0,
                odd: 0.0,
                keep: None,
                exact: 0,
            };
            let mut t = new();
            if layer(&mut t, b, grid, fine).is_none() {
                return;
            }
            let mut p = g.parts.lock().unwrap();
            p[b as usize] = Some((t.hist, t.total, t.rejected, t.odd));
            if p.iter().all(|x| x.is_some()) {
                let mut all = new();
                for x in p.iter().flatten() {
                    for (a, b) in all.hist.iter_mut().zip(&x.0) {
                        *a += b;
                    }
                    all.total += x.1;
                    all.rejected += x.2;
                    all.odd += x.3;
                }
                all.verdict(&format!("Gaussian mu={:?}", if let P::Gaussian { mu, .. } = g.i.p { mu } else { 0.0 }), g.abs, g.rel);
            }
        }));
    }
}

fn tree_job(i: &'static Inst, n: usize, m: usize, bits: u32, abs: f64, tail: f64, fine: f64) -> Job {
    Box::new(move |w: &W| {
        let r = match run_script(w, i, &[]) {
            Some(r) => r,
            None => return,
        };
        let line = fine < 1.0;
        let toks = [tokens(w, n, 8, line), tokens(w, n + n / 8 + 1, 8, line)];
        let cells = unit_cells(m, 8);
        let edges: Vec<f64> = edge_ps(false).into_iter().map(|p| i.r.quantile(p)).collect();
        let edges = tidy(edges);
        let mut t = Tree {
            w,
            i,
            c: r.ints,
            base: 0,
            toks: &toks,
            cells: &cells,
            bits,
            edges: &edges,
            hist: vec![0.0; edges.len() + 1],
            total: 0.0,
            rejected: 0.0,
            odd: 0.0,
            keep: if line { Some(vec![]) } else { None },
            exact: match i.p {
                P::Gamma { k, .. } if k < 1.0 => 1,
                P::Beta { alpha, beta, .. } if alpha < 1.0 || beta < 1.0 => 2,
                _ => 0,
            },
        };
        t.expand(&mut vec![], 1.0);
        t.verdict(&label(i, n), abs, tail);
        if line {
            t.line(i.p.family(), toks[0].len(), fine);
        }
        w.ctx.sample(|| format!("{}: tree of {} normal strata x {} float cells, measure rejected {:.5}", i.key, n, m, t.rejected));
    })
}

// ---------------------------------------------------------------------------------------------
// After rejections

fn rejections(w: &W, i: &'static Inst, thorough: bool) {
    let c = match run_script(w, i, &[]) {
        Some(r) => r.ints,
        None => return,
    };
    if c == 0 {
        return;
    }
    let us: &[f64] = &[0.0, 1e-9, 0.1, 0.5, 0.9, 0.999999, 1.0];
    // words: layers x signs x mantissas
    let mut words = vec![];
    for layer in (0..128u64).step_by(if thorough { 3 } else { 9 }).chain([1, 2, 126, 127]) {
        for plus in [false, true] {
            for j in [0x100000u64, 0xC00000, 0xF80000, 0xFE0000, 0xFF8000, 0xFFFFFF] {
                words.push(super::c09::uword(layer, plus, j, 0x1234_5678 ^ (j << 3) & 0xFFFF_FFFF));
            }
        }
    }
    // complete accepted scripts and rejecting segments, by depth-first exploration
    struct Found {
        rej: Vec<Vec<u64>>,
        acc: Vec<Vec<u64>>,
    }
    fn go(w: &W, i: &'static Inst, c: u32, s: &mut Vec<u64>, us: &[f64], f: &mut Found, cap: usize) {
        let n = s.len();
        let r = match run_script(w, i, s) {
            Some(r) => r,
            None => return,
        };
        w.state(1);
        if r.reads == n {
            f.acc.push(s.clone());
            return;
        }
        if r.reads < n || n > 8 {
            return;
        }
        if r.kinds >> n & 1 == 0 {
            if r.ints > c {
                if ints_in(r.kinds, n) == 1 {
                    f.rej.push(s.clone());
                }
            } else {
                // a further component: a mild word
                let l = s.len();
                s.push(Benign::Mild.word(l));
                go(w, i, c, s, us, f, cap);
                s.truncate(l);
            }
            return;
        }
        for &u in us {
            w.trans(1);
            s.push(of_unit(u));
            go(w, i, c, s, us, f, cap);
            s.pop();
        }
    }
    let mut f = Found { rej: vec![], acc: vec![] };
    for &x in &words {
        go(w, i, c, &mut vec![x], us, &mut f, 0);
    }
    // spread the selection over what was found
    let pick = |v: &Vec<Vec<u64>>, n: usize| -> Vec<Vec<u64>> {
        if v.len() <= n {
            return v.clone();
        }
        (0..n).map(|k| v[k * v.len() / n].clone()).collect()
    };
    let (nr, na) = if thorough { (600, 400) } else { (160, 120) };
    let mut rej = pick(&f.rej, nr);
    let acc = pick(&f.acc, na);
    w.outcome(&format!("{} rejecting segments", i.p.family()), rej.len() as u64);
    // two rejections in a row
    for k in 0..rej.len().min(64) {
        let mut two = rej[k].clone();
        two.extend_from_slice(&rej[(k * 7 + 3) % rej.len()]);
        rej.push(two);
    }
    let mut bad: Option<(Vec<u64>, f64, f64)> = None;
    let mut prefixes: Vec<Vec<u64>> = vec![];
    for a in &acc {
        let base = match run_script(w, i, a) {
            Some(r) => r,
            None => return,
        };
        // positions at which a component starts
        let starts: Vec<usize> = (0..a.len()).filter(|&k| base.kinds >> k & 1 == 0).collect();
        for r in &rej {
            for (nth, &at) in starts.iter().enumerate() {
                let mut s = a[..at].to_vec();
                s.extend_from_slice(r);
                if nth > 0 {
                    // is it rejected there, too?
                    match run_script(w, i, &s) {
                        Some(q) if q.reads > s.len() && q.kinds >> s.len() & 1 == 0 && q.ints == c + ints_in(q.kinds, s.len()) - nth as u32 => {}
                        _ => continue,
                    }
                }
                s.extend_from_slice(&a[at..]);
                let q = match run_script(w, i, &s) {
                    Some(q) => q,
                    None => return,
                };
                w.state(1);
                w.trace(1);
                if q.v.to_bits() != base.v.to_bits() || q.reads != s.len() {
                    if bad.is_none() {
                        bad = Some((s, q.v, base.v));
                    }
                    if nth == 0 && prefixes.last() != Some(r) && !prefixes.contains(r) {
                        prefixes.push(r.clone());
                    }
                }
            }
        }
    }
    // Not the value of the accepted words alone: still fine if the law is right.
    if let Some((s, v, base)) = bad {
        w.outcome("law after rejections examined", 1);
        let edges: Vec<f64> = tidy((1..16).map(|k| i.r.quantile(k as f64 / 16.0)).collect());
        let n = if c > 1 { 48 } else { 256 };
        let toks = [tokens(w, n, 0, false), tokens(w, n + 1, 0, false)];
        let cells = unit_cells(32, 0);
        let mut hist = vec![0.0; edges.len() + 1];
        let mut total = 0.0;
        let use_p = if prefixes.is_empty() { rej.clone() } else { prefixes };
        for r in use_p.iter().take(200) {
            let extra = match run_script(w, i, r) {
                Some(q) => ints_in(q.kinds, r.len()),
                None => return,
            };
            let mut t = Tree {
                w,
                i,
                c: c + extra,
                base: extra,
                toks: &toks,
                cells: &cells,
                bits: 12,
                edges: &edges,
                hist: vec![0.0; edges.len() + 1],
                total: 0.0,
                rejected: 0.0,
                odd: 0.0,
                keep: None,
                exact: 0,
            };
            t.expand(&mut r.clone(), 1.0);
            if t.total > 0.0 {
                for (a, b) in hist.iter_mut().zip(&t.hist) {
                    *a += b / t.total;
                }
                total += 1.0;
            }
        }
        let mut cum = 0.0;
        for (k, &x) in edges.iter().enumerate() {
            cum += hist[k];
            let g = cum / total;
            let t = i.r.cdf(x).0.f();
            if !((g - t).abs() <= 0.02) {
                w.ctx.fail(
                    format!("{}.sample-after-rejection{}", i.key, show(&s)),
                    format!(
                        "after rejections {:?} instead of {:?} for the same accepted words, and a fraction {:?} of the words leads to a sample <= {:?}, where the CDF is {:?}",
                        v, base, g, x, t
                    ),
                    format!("{:?}", v),
                );
                return;
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------

pub fn run(ctx: &'static Ctx) -> Outcome {
    let t = ctx.tier;
    let th = ctx.thorough();
    let _ = STD.set(crate::engine::build(P::Gaussian { mu: 0.0, sigma: 1.0 }).unwrap_or_else(|_| panic!("standard normal")));
    let mut jobs: Vec<Job> = vec![];

    // trees first: they take longest
    let mut trees: Vec<(P, usize, usize, u32, f64)> = vec![];
    let ps = |a: f64, b: f64, c: f64| P::Pert { a, b, c };
    let be = |alpha: f64, beta: f64, a: f64, b: f64| P::Beta { alpha, beta, a, b };
    // (instance, normal strata, float cells, threshold bits, tolerance)
    if th {
        for (al, bt) in [(0.5, 0.5), (0.3, 0.8), (0.1, 0.9), (0.05, 0.05)] {
            trees.push((be(al, bt, 0.0, 1.0), 128, 64, 12, 2e-3));
        }
        for (al, bt) in [(0.5, 2.0), (3.0, 0.7), (0.9, 20.0), (1.0, 0.2), (0.1, 5.0)] {
            trees.push((be(al, bt, -1.0, 2.0), 320, 128, 12, 1e-3));
        }
        for (al, bt) in [(1.0, 1.0), (2.0, 3.0), (1.5, 1.5), (5.0, 1.0), (20.0, 3.0), (100.0, 100.0), (1.0, 50.0), (1.01, 2.5)] {
            trees.push((be(al, bt, 0.0, 1.0), 2048, 64, 14, 4e-4));
            trees.push((be(al, bt, -7.5, -5.0), 512, 64, 14, 1e-3));
        }
        for f in [0.1, 0.25, 0.5, 0.9] {
            trees.push((ps(0.0, f, 1.0), 1024, 64, 14, 5e-4));
            trees.push((ps(100.0, 100.0 + 1000.0 * f, 1100.0), 512, 64, 14, 1e-3));
        }
    } else {
        trees.push((be(0.5, 0.5, 0.0, 1.0), 32, 40, 10, 3e-3));
        trees.push((be(0.5, 2.0, -1.0, 2.0), 96, 128, 10, 1.5e-3));
        trees.push((be(3.0, 0.7, 0.0, 1.0), 96, 128, 10, 1.5e-3));
        for (al, bt) in [(1.0, 1.0), (2.0, 3.0), (1.5, 5.0), (20.0, 3.0)] {
            trees.push((be(al, bt, 0.0, 1.0), 384, 64, 12, 1e-3));
        }
        trees.push((ps(0.0, 0.25, 1.0), 384, 64, 12, 1e-3));
        trees.push((ps(-1.0, 1.5, 2.0), 256, 64, 12, 2e-3));
    }
    // tiny shapes, for which most gamma variables underflow
    for (al, bt) in [(1e-3, 4e-3), (4e-3, 1e-3), (1e-4, 3e-4), (2e-3, 0.5), (0.5, 2e-3), (1e-3, 2.0)] {
        trees.push((be(al, bt, 0.0, 1.0), if th { 12 } else { 5 }, if th { 384 } else { 128 }, 12, if th { 2e-3 } else { 3e-3 }));
    }
    for (x0, gamma) in [(0.0, 1.0), (1.0, 2.0), (-3.75, 0.1)] {
        trees.push((P::Cauchy { x0, gamma }, if th { 8192 } else { 1536 }, 64, 10, if th { 1e-4 } else { 5e-4 }));
    }
    let ks: &[f64] = if th {
        &[1.0, 1.01, 1.2, 1.5, 2.0, 2.5, 3.0, 5.0, 9.0, 20.0, 100.0, 1000.0]
    } else {
        &[1.0, 1.2, 2.0, 3.0, 9.0, 100.0]
    };
    for &k in ks {
        trees.push((P::Gamma { k, theta: 1.0 }, if th { 1 << 17 } else { 1 << 13 }, 64, 30, if th { 3e-5 } else { 2e-4 }));
        trees.push((P::Gamma { k, theta: 0.25 }, 1 << 11, 64, 30, 1e-3));
    }
    let ks: &[f64] = if th { &[0.02, 0.05, 0.1, 0.25, 0.3, 0.5, 0.7, 0.9, 0.99] } else { &[0.1, 0.5, 0.9] };
    for &k in ks {
        trees.push((P::Gamma { k, theta: 1.0 }, if th { 2048 } else { 512 }, if th { 2048 } else { 512 }, 14, if th { 1e-4 } else { 3e-4 }));
        trees.push((P::Gamma { k, theta: 3.0 }, 256, 256, 14, 8e-4));
    }
    // many more parameters, at a lower resolution
    let (n1, m1) = if th { (1 << 15, 512) } else { (1 << 12, 192) };
    for k in [1.0 + 1e-9, 1.05, 1.35, 1.5, 1.75, 2.5, 4.0, 5.0, 7.0, 12.0, 15.0, 20.0, 30.0, 50.0, 70.0, 150.0, 300.0, 1e3, 3e3, 1e4, 1e5, 1e6, 1e8] {
        trees.push((P::Gamma { k, theta: 1.5 }, n1, 64, 30, 1e-3));
    }
    for k in [0.01, 0.02, 0.05, 0.2, 0.25, 1.0 / 3.0, 0.4, 0.6, 0.7, 0.8, 0.95, 0.99, 1.0 - 1e-9] {
        trees.push((P::Gamma { k, theta: 0.75 }, m1, m1, 12, if th { 3e-4 } else { 1.2e-3 }));
    }
    let low = if th { 128 } else { 48 };
    for (al, bt) in [(1.0, 2.0), (5.0, 5.0), (1.25, 1.75), (3.0, 30.0), (100.0, 2.0), (60.0, 60.0), (1000.0, 700.0), (1e5, 2e5), (1.0 + 1e-9, 4.0), (8.0, 1.0)] {
        trees.push((be(al, bt, 0.0, 1.0), low, 48, 10, 6e-3));
    }
    for (al, bt) in [(0.9, 1.5), (0.2, 3.0), (2.0, 0.05), (20.0, 0.9), (0.8, 100.0)] {
        trees.push((be(al, bt, -1.0, 1.0), low, if th { 192 } else { 96 }, 10, 4e-3));
    }
    for (al, bt) in [(0.9, 0.9), (0.25, 0.75), (0.05, 0.6), (0.95, 0.1)] {
        trees.push((be(al, bt, 2.0, 4.0), low / 2, if th { 96 } else { 48 }, 10, 6e-3));
    }
    for f in [0.01, 0.05, 0.4, 0.5, 0.75, 0.9, 0.999] {
        trees.push((ps(-2.0, -2.0 + 8.0 * f, 6.0), low, 48, 10, 6e-3));
    }
    for (x0, gamma) in [(0.0, 1e-8), (1e6, 10.0), (0.0, 1e8), (5.0, 3.0)] {
        trees.push((P::Cauchy { x0, gamma }, 1536, 64, 10, 1.5e-3));
    }
    for (mu, sigma) in [(-40.0, 0.5), (20.0, 0.1), (0.0, 7.0), (3.0, 1e-3), (-5.5, 1.0)] {
        trees.push((P::Lognormal { mu, sigma }, n1, 64, 24, 1e-3));
    }
    for (mu, sigma) in [(0.0, 1.0), (1.0, 0.25), (-2.0, 2.0), (0.1, 4.0)] {
        trees.push((P::Lognormal { mu, sigma }, if th { 1 << 17 } else { 1 << 14 }, 64, 24, if th { 1e-5 } else { 1e-4 }));
    }
    if th {
        for (mu, sigma) in [(0.0, 1.0), (3.0, 2.0), (-1.0, 0.1)] {
            trees.push((P::Gaussian { mu, sigma }, 1 << 17, 64, 24, 1e-5));
        }
    }
    for (p, n, m, bits, abs) in trees {
        for i in ctx.instances(vec![p]) {
            // with tiny shapes, the strata do not resolve the tails
            let tiny = matches!(i.p, P::Beta { alpha, beta, .. } if alpha.min(beta) < 0.01);
            // a function of one normal variable, unless rejected
            let fine = match i.p {
                P::Gamma { k, .. } if k >= 1.0 => 400.0 / (n * n) as f64 + 2e-7,
                P::Gaussian { .. } | P::Lognormal { .. } => 1e-8,
                _ => f64::INFINITY,
            };
            jobs.push(tree_job(i, n, m, bits, abs, if tiny { 1e100 } else { 1.0 }, fine));
        }
    }

    // the normal itself
    let g = ctx.instances(vec![P::Gaussian { mu: 0.0, sigma: 1.0 }, P::Gaussian { mu: 3.0, sigma: 0.25 }]);
    if let Some(&i) = g.first() {
        gaussian_jobs(i, 1 << 10, if th { 1 << 14 } else { 1 << 11 }, 26, 1e-7, 1e-3, &mut jobs);
    }
    if let Some(&i) = g.get(1) {
        gaussian_jobs(i, 1 << 7, if th { 1 << 12 } else { 1 << 9 }, 26, 1.5e-7, 1e-3, &mut jobs);
    }

    // rejections
    let mut rj = vec![
        P::Gaussian { mu: 0.0, sigma: 1.0 },
        P::Gaussian { mu: 1.0, sigma: 3.0 },
        P::Lognormal { mu: 0.0, sigma: 1.0 },
        P::Cauchy { x0: 0.0, gamma: 1.0 },
        ps(0.0, 0.25, 1.0),
    ];
    for k in [0.1, 0.5, 0.9, 1.0, 1.1, 1.5, 3.0, 9.0] {
        rj.push(P::Gamma { k, theta: 1.0 });
    }
    for (al, bt) in [(1.0, 1.0), (2.0, 3.0), (0.5, 0.5), (0.5, 2.0), (3.0, 0.7)] {
        rj.push(be(al, bt, 0.0, 1.0));
    }
    for i in ctx.instances(rj) {
        jobs.push(Box::new(move |w: &W| rejections(w, i, th)));
    }

    // one-read samplers
    let mut one: Vec<P> = [bernoulli(t), exponential(t), laplace(t), logistic(t), triangular(t), uniform(t)].concat();
    let cats = categorical(t);
    one.extend(cats);
    let step = if th { 2 } else { 5 };
    one.extend(binomial_small(t).into_iter().step_by(step));
    one.extend(binomial_large(t));
    one.extend(binomial_huge(t).into_iter().step_by(if th { 1 } else { 3 }));
    one.extend(binomial_ties(t).into_iter().step_by(if th { 11 } else { 41 }));
    one.extend(categorical_long(t));
    for i in ctx.instances(one) {
        let (u, o) = match (i.p.family(), th) {
            ("Binomial", false) => (256, 4),
            ("Binomial", true) => (1024, 16),
            (_, false) => (1024, 16),
            (_, true) => (1 << 14, 64),
        };
        jobs.push(Box::new(move |w: &W| one_read(w, i, u, o)));
    }
    ctx.run(jobs);
    (
        "one-read samplers of the lattice: all cells of the word line (refined towards both ends) with every flip of `sample <= x` bisected to \
         the word, for every edge x; the standard normal: 256 low bytes x 2^16 (thorough: all 2^24) mantissas with bisected acceptance thresholds; \
         lognormal, gamma, Cauchy, beta, PERT: products of normal strata and float cells with bisected acceptance thresholds; \
         every rejecting segment of an alphabet followed by every accepted script"
            .into(),
        true,
        vec![
            "words of the source independent and uniform over 2^64 values, floats read as word / (2^64 - 1)",
            "no hidden oscillation of a sampler within a cell of the word line",
            "the high half of the words the normal reads is not used (bits above it are filled by a fixed hash)",
        ],
    )
}

fn label(i: &Inst, n: usize) -> String {
    let kind = match i.p {
        P::Gamma { k, .. } if k < 1.0 => " below one",
        P::Beta { alpha, beta, .. } => match (alpha < 1.0) as u8 + (beta < 1.0) as u8 {
            0 => "",
            1 => " one below one",
            _ => " both below one",
        },
        _ => "",
    };
    format!("{}{} {} strata", i.p.family(), kind, n)
}
