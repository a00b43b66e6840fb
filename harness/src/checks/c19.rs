//! C19: threads that share distributions, and the library, get the answers they would get alone.
//!
//! Every question of a lattice is asked with all the memory that threads could share protected
//! against writing. A question that writes nothing commutes with every other such question, step
//! by step, so that all the schedules of any number of threads asking them are equivalent to
//! asking one after the other. For the questions that do write, every schedule of every pair is
//! executed, with a bounded number of preemptions at accesses to shared memory.
use super::c18::{ask, Q};
use super::*;
use crate::dist::*;
use crate::race::*;
use probability::distribution as pd;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed, Ordering::SeqCst};

/// Whether a type can be sent and shared, found out without requiring it.
struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
trait Neither {
    const SYNC: bool = false;
}
impl<T> Neither for Probe<T> {}
#[allow(dead_code)]
impl<T: Send + Sync> Probe<T> {
    const SYNC: bool = true;
}

fn shareable() -> Vec<(&'static str, bool)> {
    macro_rules! all {
        ($($x:ident)*) => { vec![$((stringify!($x), <Probe<pd::$x>>::SYNC)),*] };
    }
    all!(Bernoulli Beta Binomial Categorical Cauchy Exponential Gamma Gaussian Laplace Logistic Lognormal Pert Triangular Uniform)
}

enum Object {
    Real { p: P, key: String, d: &'static D },
    Toy(&'static [AtomicU64; 2]),
}

#[derive(Clone, Copy)]
enum Question {
    Real(Q),
    Toy(usize, u64),
}

static TOY: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];

/// Functions of x with a hidden memory, on which the machinery is tried out.
fn toy(k: usize, o: &[AtomicU64; 2], x: u64) -> u64 {
    let f = |x: u64| x * x + 7;
    let memo = |key: &AtomicU64, value: &AtomicU64, key_first: bool| {
        if key.load(Relaxed) == x {
            return value.load(Relaxed);
        }
        let v = f(x);
        if key_first {
            key.store(x, Relaxed);
        }
        value.store(v, Relaxed);
        key.store(x, Relaxed);
        v
    };
    match k {
        0 => memo(&TOY[0], &TOY[1], true),
        1 => memo(&TOY[0], &TOY[1], false),
        2 => memo(&o[0], &o[1], false),
        // right: under a lock
        3 => {
            while TOY[2].swap(1, SeqCst) == 1 {
                std::hint::spin_loop();
            }
            let v = memo(&TOY[0], &TOY[1], true);
            TOY[2].store(0, SeqCst);
            v
        }
        // right: key and value in one word
        4 => {
            let w = TOY[3].load(SeqCst);
            if w >> 32 == x {
                return w & 0xFFFF_FFFF;
            }
            TOY[3].store(x << 32 | f(x), SeqCst);
            f(x)
        }
        // a flag that is set too early
        5 => {
            if TOY[2].swap(1, SeqCst) == 0 {
                TOY[0].store(7, SeqCst);
            }
            x * x + TOY[0].load(SeqCst)
        }
        // right: the flag is set last
        6 => {
            if TOY[2].load(SeqCst) == 0 {
                TOY[0].store(7, SeqCst);
                TOY[2].store(1, SeqCst);
            }
            x * x + TOY[0].load(SeqCst)
        }
        // wrong only when two preemptions meet: a count of those inside
        _ => {
            let n = TOY[0].fetch_add(1, SeqCst);
            let seen = TOY[1].swap(x, SeqCst);
            let again = TOY[1].load(SeqCst);
            TOY[0].fetch_sub(1, SeqCst);
            if n == 1 && again != x && seen != 0 {
                return 0;
            }
            f(x)
        }
    }
}
const TOYS: usize = 8;
fn flawed(k: usize) -> bool {
    matches!(k, 0 | 1 | 2 | 5 | 7)
}

struct World {
    objects: Vec<Object>,
    actions: Vec<(u32, Question)>,
}

impl World {
    fn name(&self, a: usize) -> String {
        let (o, q) = self.actions[a];
        match (&self.objects[o as usize], q) {
            (Object::Real { key, .. }, Question::Real(q)) => format!("{}.{:?}", key, q).replace(' ', ""),
            (_, Question::Toy(k, x)) => format!("toy{}({})", k, x),
            _ => String::new(),
        }
    }
    fn group(&self, a: usize) -> String {
        let (o, q) = self.actions[a];
        match (&self.objects[o as usize], q) {
            (Object::Real { p, .. }, Question::Real(q)) => {
                let s = format!("{:?}", q);
                format!("{}.{}", p.family(), s.split('(').next().unwrap_or(""))
            }
            _ => String::new(),
        }
    }
    fn run(&self, a: usize) -> u64 {
        let (o, q) = self.actions[a];
        match (&self.objects[o as usize], q) {
            (Object::Real { p, d, .. }, Question::Real(q)) => {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ask(p, d, q))).unwrap_or(0x7FF8_DEAD_DEAD_DEAD)
            }
            (Object::Toy(o), Question::Toy(k, x)) => toy(k, o, x),
            _ => 0,
        }
    }
}

fn questions(p: &P, i: &Inst, every: bool) -> Vec<Q> {
    let mut v: Vec<Q> = super::c18::questions(p).into_iter().map(|x| x.0).collect();
    let args = super::c15::few_args(i);
    let step = if every { 1 } else { 4 };
    for k in (100..132).step_by(if every { 1 } else { 9 }) {
        v.push(Q::Sample(k));
    }
    for x in args.into_iter().step_by(step) {
        v.push(Q::Cdf(x));
        if !p.discrete() {
            v.push(Q::Density(x));
        }
    }
    v
}

/// At most n of them, evenly spaced.
fn spread<T>(v: &[T], n: usize) -> Vec<&T> {
    let n = n.min(v.len());
    (0..n).map(|k| &v[k * v.len() / n]).collect()
}

/// What one of the processes does.
pub fn child(tier: Tier, shard: usize, of: usize) {
    let th = tier == Tier::Thorough;
    let t0 = std::time::Instant::now();
    // the standard library sets up what it needs before the memory is recorded
    println!("#hello");
    let _ = std::panic::catch_unwind(|| panic!("once"));
    Lab::reserve();
    let mut w = World { objects: vec![], actions: vec![] };
    for k in 0..TOYS {
        let o = in_arena(|| [const { AtomicU64::new(0) }; 2]);
        w.objects.push(Object::Toy(o));
        for x in [3, 5] {
            w.actions.push((w.objects.len() as u32 - 1, Question::Toy(k, x)));
        }
    }
    let ntoys = w.actions.len();
    // all of the cast in every process, and a part of the lattice
    let cast = super::c18::cast(th);
    let ncast = cast.len();
    let mut ps = cast;
    let lattice = crate::lattice::scalar(tier);
    ps.extend(lattice.into_iter().chain(super::c15::domain(tier).into_iter().step_by(if th { 3 } else { 11 })).enumerate().filter(|(n, _)| n % of == shard).map(|x| x.1));
    let mut shared_actions = ntoys;
    let (mut states, mut families) = (0u64, std::collections::BTreeMap::<&'static str, u64>::new());
    for (n, p) in ps.into_iter().enumerate() {
        let i = match build_bare(p.clone()) {
            Ok(i) => i,
            // C14 and C16 judge this
            Err(_) => continue,
        };
        let d: &'static D = in_arena(|| p.build());
        let qs = questions(&p, i, n < ncast || th);
        *families.entry(p.family()).or_insert(0) += 1;
        w.objects.push(Object::Real { key: i.key.clone(), p, d });
        states += 1;
        for q in qs {
            w.actions.push((w.objects.len() as u32 - 1, Question::Real(q)));
        }
        if n < ncast {
            shared_actions = w.actions.len();
        }
    }
    let w: &'static World = Box::leak(Box::new(w));
    let lab = Lab::new(Box::leak(Box::new(move |_who: usize, a: usize| w.run(a))));
    let (mut schedules, mut points) = (0u64, 0u64);

    // the machinery on functions the flaws of which are known
    let mut toys = vec![];
    for k in (0..TOYS).filter(|_| shard == 0) {
        let (a, b) = (2 * k, 2 * k + 1);
        let mut writes = false;
        lab.footprint(&[a, b], |_, _, _| writes = true);
        let truth = [lab.alone(a), lab.alone(b)];
        let (mut found, mut runs) = (false, 0);
        for (pre, two) in [(None, [a, b]), (None, [a, a]), (Some(a), [a, b]), (Some(b), [a, b])] {
            let want = [truth[(two[0] != a) as usize], truth[(two[1] != a) as usize]];
            let r = lab.explore(pre, two, 2, k == 2, &mut |got, _| {
                found |= got != [want[0], want[1], want[0], want[1]];
                true
            });
            runs += r.0;
            points += r.1;
        }
        schedules += runs;
        toys.push((k, writes, found, runs));
    }
    if toys.iter().any(|t| !t.1 || t.2 != flawed(t.0)) {
        eprintln!("the scheduler does not see what it has to: {:?}", toys);
        std::process::exit(4);
    }
    let tried: u64 = toys.iter().map(|t| t.3).sum();

    // footprints
    let mine: Vec<usize> = (ntoys..w.actions.len()).collect();
    let mut writers: Vec<(usize, usize)> = vec![];
    for part in mine.chunks(256) {
        label(&w.name(part[0]));
        lab.footprint(part, |a, _, at| writers.push((a, at)));
    }
    let asked = mine.len() as u64;

    // those that write: a few of each kind, first of those that all the processes know
    let mut chosen: Vec<(usize, String)> = vec![];
    let in_arena = writers.iter().any(|x| x.1 >= 0x6100_0000_0000);
    for shared in [true, false] {
        // by kind, and by object
        let mut kinds = std::collections::BTreeMap::<String, std::collections::BTreeMap<u32, Vec<usize>>>::new();
        for &(a, _) in writers.iter().filter(|x| (x.0 < shared_actions) == shared) {
            kinds.entry(w.group(a)).or_default().entry(w.actions[a].0).or_default().push(a);
        }
        for (g, objects) in kinds {
            if !shared && chosen.iter().any(|c| c.1 == g) {
                continue;
            }
            let objects: Vec<Vec<usize>> = objects.into_values().collect();
            let (most, some) = if g.ends_with("Sample") { (12, 6) } else { (6, 3) };
            for (n, o) in spread(&objects, if th { 6 } else { 4 }).into_iter().enumerate() {
                for a in spread(o, if n == 0 { most } else { some }) {
                    chosen.push((*a, g.clone()));
                }
            }
        }
    }
    // and others of the same kinds, which may read what these write
    let kinds: std::collections::BTreeSet<String> = chosen.iter().map(|c| c.1.clone()).collect();
    let nwriters = chosen.len();
    if nwriters > 0 {
        for a in ntoys..shared_actions {
            let g = w.group(a);
            if kinds.contains(&g) && !writers.iter().any(|x| x.0 == a) && chosen[nwriters..].iter().filter(|c| c.1 == g).count() < 2 {
                chosen.push((a, g));
            }
        }
    }
    let bound = if th { 3 } else { 2 };
    let limit = if th { 1500.0 } else { 100.0 };
    let mut overdue = 0;
    let mut pairs = vec![];
    for i in 0..nwriters {
        for j in i..chosen.len() {
            // of one kind first
            let far = chosen[i].1 != chosen[j].1;
            pairs.push((far, i, j));
        }
    }
    pairs.sort();
    let mut reported = 0;
    for (n, (_, i, j)) in pairs.into_iter().enumerate() {
        if n % of != shard && chosen[i].0 < shared_actions && chosen[j].0 < shared_actions {
            continue;
        }
        if t0.elapsed().as_secs_f64() > limit || reported >= 20 {
            overdue = 1;
            break;
        }
        let (a, b) = (chosen[i].0, chosen[j].0);
        let (ta, tb) = (lab.alone(a), lab.alone(b));
        let want = [ta, tb, ta, tb];
        let mut pres = vec![None, Some(a)];
        if a != b {
            pres.push(Some(b));
        }
        for pre in pres {
            label(&format!("{}|{}", w.name(a), w.name(b)));
            let mut bad = None;
            let r = lab.explore(pre, [a, b], bound, in_arena, &mut |got, s| {
                if got != want {
                    bad = Some((got, s.to_string()));
                }
                bad.is_none() && t0.elapsed().as_secs_f64() < limit
            });
            schedules += r.0;
            points += r.1;
            if let Some((got, s)) = bad {
                reported += 1;
                let k = (0..4).find(|k| got[*k] != want[*k]).unwrap_or(0);
                let first = pre.map_or(String::new(), |p| format!("{};", w.name(p)));
                println!(
                    "#violation\t{}{}|{}\tanswer {} of (first thread, second thread, first again, second again) is {:?} when asked alone; switches: {}\t{:?}",
                    first,
                    w.name(a),
                    w.name(b),
                    k + 1,
                    f64::from_bits(want[k]),
                    s,
                    f64::from_bits(got[k])
                );
                break;
            }
        }
    }
    let (arena, stat) = lab.bytes();
    for (f, n) in families {
        println!("#outcome\t{} distributions\t{}", f, n);
    }
    println!("#outcome\tquestions with no writes to shared memory\t{}", asked - writers.len() as u64);
    println!("#outcome\tquestions with writes to shared memory\t{}", writers.len());
    println!("#outcome\tschedules of functions with known flaws or known to be right (all judged as known)\t{}", tried);
    println!("#outcome\tschedules of questions that write\t{}", schedules - tried);
    if shard == 0 {
        println!("#outcome\tbytes of static memory under protection\t{}", stat);
        println!("#outcome\tbytes of distributions under protection (first process)\t{}", arena);
    }
    println!("#count\t{}\t{}\t{}\t{}\t{}", states + points, asked + points, asked + schedules, asked + schedules * 4, overdue);
}

pub fn run(ctx: &'static Ctx) -> Outcome {
    for (name, ok) in shareable() {
        ctx.states.fetch_add(1, Relaxed);
        if !ok {
            ctx.fail(format!("{}.share", name), "the type can be sent to and shared by threads".into(), "it cannot".into());
        }
    }
    ctx.run_shards(8);
    (
        "every question of the scalar lattice, a part of the extreme domain, and the cast of C18, with the writes to shared memory (static variables, \
         distributions) observed; all schedules of pairs of questions that write, with at most two (thorough: three) preemptions, from three initial states, \
         and the two questions again after each; the same for eight functions known to be flawed or right, which have to be told apart"
            .into(),
        true,
        vec!["executions are sequentially consistent: what the store buffers of the processor could add is not explored", "questions that write nothing commute"],
    )
}
