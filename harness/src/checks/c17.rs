//! C17: the answers do not depend on whether assertions and overflow checks are compiled in.
//!
//! The same lattice of questions is asked in two processes, one of each build; every answer, and
//! every number of words a sample reads, has to be the same.
use super::*;
use crate::dist::*;
use crate::env::*;
use std::collections::HashMap;
use std::sync::Mutex;

static F: &str = "question";
/// Stands for a panic.
const PANIC: u64 = 0x7FF8_DEAD_DEAD_DEAD;

/// Parameters, and the tier of the lattices of arguments, if these are to be used.
fn domain(t: Tier) -> Vec<(P, Option<Tier>)> {
    let mut v: Vec<_> = crate::lattice::all(t).into_iter().map(|p| (p, Some(t))).collect();
    let step = if t == Tier::Thorough { 3 } else { 11 };
    let rest = crate::lattice::scalar(t.up()).into_iter().chain(super::c15::domain(t).into_iter().step_by(step));
    v.extend(rest.map(|p| (p, None)));
    v
}

/// The lattices of arguments of the checks of these functions.
fn lattices(i: &'static Inst, t: Tier, f: &mut dyn FnMut(&'static str, f64, &dyn Fn() -> f64)) {
    let d = &i.d;
    if i.p.discrete() {
        for k in crate::lattice::ks_discrete(i, t) {
            f("mass", k as f64, &|| d.mass(k as usize));
            f("distribution", k as f64, &|| d.cdf(k as f64));
            f("distribution", k as f64 + 0.5, &|| d.cdf(k as f64 + 0.5));
        }
    } else {
        for x in crate::lattice::xs_continuous(i, t) {
            f("distribution", x, &|| d.cdf(x));
            f("density", x, &|| d.pdf(x));
        }
    }
    if d.has_inverse() {
        for p in crate::lattice::ps(t) {
            f("inverse", p, &|| d.inverse(p));
        }
    }
    // words of every residue with the extreme and middle mantissas, and floats at either end
    let one_read = {
        let mut s = Script::new(&[], Benign::Mild);
        d.sample(&mut s);
        s.pos <= 1
    };
    let low = if one_read { 4u64 } else { 256 };
    for b in 0..low {
        for m in [0u64, 1 << 63, !0xFFF, 1 << 62] {
            for second in [None, Some(0u64), Some(!0)] {
                let mut words = vec![m | b];
                words.extend(second);
                let name = ((m >> 60) * 1000 + b * 3 + second.map_or(0, |x| 1 + (x & 1))) as f64;
                f("sample", 1e6 + name, &|| d.sample(&mut Script::new(&words, Benign::Mild)));
                f("words", 1e6 + name, &|| {
                    let mut s = Script::new(&words, Benign::Mild);
                    d.sample(&mut s);
                    s.pos as f64
                });
            }
        }
    }
}

/// Calls `f` with a name, an argument, and a question, for every question.
fn each_question(i: &'static Inst, t: Option<Tier>, f: &mut dyn FnMut(&'static str, f64, &dyn Fn() -> f64)) {
    let d = &i.d;
    let n = f64::NAN;
    for x in super::c15::few_args(i) {
        f("distribution", x, &|| d.cdf(x));
        if !i.p.discrete() {
            f("density", x, &|| d.pdf(x));
        }
    }
    if i.p.discrete() {
        let n = match i.p {
            P::Binomial { n, .. } | P::BinomialQ { n, .. } => n,
            P::Categorical { ref p } => p.len() - 1,
            _ => 1,
        };
        let mut ks = vec![0, 1, 2, n / 4, n / 2, n - n / 4, n.saturating_sub(1), n];
        ks.retain(|k| *k <= n);
        ks.dedup();
        for k in ks {
            f("mass", k as f64, &|| d.mass(k));
        }
    }
    if d.has_inverse() {
        // away from the jumps, so that rounding does not decide
        for p in [0.0, 1.2345e-9, 0.0123456, 0.212345, 0.543217, 0.871234, 0.998765, 1.0] {
            f("inverse", p, &|| d.inverse(p));
        }
    }
    if let Some(t) = t {
        lattices(i, t, f);
    }
    let one = |x: Option<f64>| x.unwrap_or(0.0);
    f("mean", n, &|| one(d.mean()));
    f("variance", n, &|| one(d.variance()));
    f("deviation", n, &|| one(d.deviation()));
    f("skewness", n, &|| one(d.skewness()));
    f("kurtosis", n, &|| one(d.kurtosis()));
    f("entropy", n, &|| d.entropy());
    f("median", n, &|| one(d.median()));
    for k in 0..3 {
        f("modes", k as f64, &|| {
            let v = d.modes().unwrap_or_default();
            v.get(k).copied().unwrap_or(-12345.0)
        });
    }
    // a word at an end of its range at one of the first positions, or at all of them
    for k in 0..12u64 {
        let mut words = vec![];
        let end = if k % 2 == 0 { 0 } else { u64::MAX };
        match k / 2 {
            4 => words = vec![end; 4],
            5 => words = vec![0, end, 1 << 63, !end],
            j => {
                words.extend((0..j as usize).map(|i| Benign::Mild.word(i)));
                words.push(end);
            }
        }
        f("sample", 100.0 + k as f64, &|| d.sample(&mut Script::new(&words, Benign::Mild)));
        f("words", 100.0 + k as f64, &|| {
            let mut s = Script::new(&words, Benign::Mild);
            d.sample(&mut s);
            s.pos as f64
        });
    }
    for k in 0..6u64 {
        let b = match k {
            4 => Benign::Mild,
            5 => Benign::Reject,
            k => Benign::Weyl(k),
        };
        f("sample", k as f64, &|| d.sample(&mut Script::at(b, 0)));
        f("words", k as f64, &|| {
            let mut s = Script::at(b, 0);
            d.sample(&mut s);
            s.pos as f64
        });
    }
}

fn answers(w: &W, i: &'static Inst, t: Option<Tier>) -> Vec<(&'static str, f64, u64)> {
    let mut v = vec![];
    each_question(i, t, &mut |name, x, g| {
        // panics are compared, not reported here
        let r = w.guard(i, &F, || String::new(), || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g().to_bits())).unwrap_or(PANIC));
        v.push((name, x, r.unwrap_or(PANIC)));
    });
    v
}

fn close(a: u64, b: u64) -> bool {
    if a == b {
        return true;
    }
    if a == PANIC || b == PANIC {
        return false;
    }
    let (a, b) = (f64::from_bits(a), f64::from_bits(b));
    // compilers may evaluate constant powers and the like differently
    a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) || (a - b).abs() <= 1e-13
}

pub fn run(ctx: &'static Ctx) -> Outcome {
    let ps = domain(ctx.tier);
    if ctx.shard.is_some() {
        // the other build: print the answers
        let mut jobs: Vec<Job> = vec![];
        for (n, (p, t)) in ps.into_iter().enumerate().filter(|(n, _)| ctx.mine(*n)) {
            jobs.push(Box::new(move |w: &W| {
                let r = build_bare(p.clone());
                let mut line = format!("#answers\t{}\t", n);
                match r {
                    Ok(i) => {
                        for (_, _, b) in answers(w, i, t) {
                            line.push_str(&format!("{:x},", b));
                        }
                    }
                    Err(_) => line.push_str("rejected"),
                }
                println!("{}", line);
            }));
        }
        ctx.run(jobs);
        return (String::new(), true, vec![]);
    }
    if !cfg!(debug_assertions) {
        panic!("this check is started from the build with assertions");
    }
    let plain = std::path::PathBuf::from(format!("{}/harness/target/plain/vmc", root()));
    let theirs: &'static Mutex<HashMap<usize, String>> = Box::leak(Box::new(Mutex::new(HashMap::new())));
    ctx.run_shards_of(plain, 8, &|l: &str| {
        if let Some(r) = l.strip_prefix("#answers\t") {
            if let Some((n, r)) = r.split_once('\t') {
                if let Ok(n) = n.parse() {
                    theirs.lock().unwrap().insert(n, r.to_string());
                }
            }
        }
    });
    let mut jobs: Vec<Job> = vec![];
    for (n, (p, t)) in ps.into_iter().enumerate() {
        jobs.push(Box::new(move |w: &W| {
            let key = p.key();
            let r = theirs.lock().unwrap().remove(&n);
            let r = match r {
                Some(r) => r,
                None => {
                    w.ctx.fail(format!("{}.answers", key), "the build without assertions gave no answers".into(), "none".into());
                    return;
                }
            };
            let i = match build_bare(p.clone()) {
                Ok(i) => i,
                Err(_) => {
                    if r != "rejected" {
                        w.ctx.fail(format!("{}.new", key), "the build without assertions accepts these parameters".into(), "panic".into());
                    }
                    return;
                }
            };
            w.trace(1);
            w.outcome(i.p.family(), 1);
            let mut it = r.split(',');
            for (name, x, mine) in answers(w, i, t) {
                w.state(1);
                w.trans(1);
                let other = it.next().and_then(|x| u64::from_str_radix(x, 16).ok());
                let show = |b: u64| if b == PANIC { "a panic".to_string() } else { format!("{:?}", f64::from_bits(b)) };
                match other {
                    Some(o) if close(mine, o) => {
                        if mine != o {
                            w.outcome("answers that differ by rounding", 1);
                        }
                    }
                    Some(o) => w.ctx.fail(case_key(&key, name, x), format!("with assertions the answer is {}", show(mine)), show(o)),
                    None => w.ctx.fail(case_key(&key, name, x), format!("with assertions the answer is {}", show(mine)), "no answer".into()),
                }
            }
        }));
    }
    ctx.run(jobs);
    (
        "every query, and samples on eighteen streams (twelve with words at the ends of their range) with the number of words read, on the scalar lattice and a selection of the extreme domain, and every argument of the lattices of C01 to C03 and \
         streams that begin with words of all residues on the lattice of C01, in a build with \
         and a build without assertions and overflow checks"
            .into(),
        true,
        vec!["both builds use the same compiler and level of optimisation; answers may differ by rounding (1e-9)"],
    )
}
