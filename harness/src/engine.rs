//! Runner: parallel jobs over the real code with panic capture, a CPU-time
//! watchdog for non-termination, violation recording, known findings, evidence.
use crate::dist::{D, P, R};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Inst {
    pub p: P,
    pub key: String,
    pub d: D,
    pub r: R,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
    /// A grade of lattices only: what the thorough tier uses where `Thorough` is cheap enough for
    /// the quick one.
    Deep,
}
impl Tier {
    pub fn up(self) -> Tier {
        match self {
            Tier::Quick => Tier::Thorough,
            _ => Tier::Deep,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub what: String,
    pub got: String,
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub property: String,
    pub key: String,
    pub got: String,
    pub what: String,
}

struct Slot {
    seq: AtomicU64,
    busy: AtomicBool,
    abandoned: AtomicBool,
    inst: AtomicPtr<Inst>,
    func: AtomicPtr<&'static str>,
    arg: AtomicU64,
    job: AtomicUsize,
    tid: Mutex<String>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub only: Option<String>,
    pub stats_on: bool,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub evals: AtomicU64,
    pub outcomes: Mutex<BTreeMap<String, u64>>,
    violations: Mutex<Vec<Violation>>,
    seen: Mutex<HashSet<String>>,
    nviol: AtomicU64,
    samples: Mutex<Vec<String>>,
    stats: Mutex<BTreeMap<String, (f64, String)>>,
    skip: Mutex<HashSet<String>>,
    slots: Mutex<Vec<Arc<Slot>>>,
    queue: Mutex<VecDeque<usize>>,
    pending: AtomicUsize,
    hangs: AtomicUsize,
    overdue: AtomicBool,
    current: Mutex<Option<(String, Instant)>>,
    listed: u64,
    /// this process explores the part (which, of how many)
    pub shard: Option<(usize, usize)>,
    start: Instant,
}

thread_local! {
    static MINE: Cell<*const Slot> = const { Cell::new(std::ptr::null()) };
}
static CTX: AtomicPtr<Ctx> = AtomicPtr::new(std::ptr::null_mut());

extern "C" {
    fn signal(n: i32, f: extern "C" fn(i32)) -> usize;
    fn _exit(c: i32) -> !;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

/// The real code exhausted the stack or the memory, or aborted: a violation at the call under way.
extern "C" fn aborted(_: i32) {
    let slot = MINE.with(|m| m.get());
    let ctx = CTX.load(SeqCst);
    if slot.is_null() || ctx.is_null() || unsafe { !(*slot).busy.load(SeqCst) } {
        unsafe { _exit(3) }
    }
    unsafe {
        let i = &*(*slot).inst.load(SeqCst);
        let key = case_key(&i.key, *(*slot).func.load(SeqCst), f64::from_bits((*slot).arg.load(SeqCst)));
        let path = format!("{}/replays/{}.txt", root(), (*ctx).prop);
        let _ = std::fs::create_dir_all(format!("{}/replays", root()));
        let _ = std::fs::write(&path, format!("case: {}\n  the process aborted (stack or memory exhausted)\n", key));
        println!("  violated: {} :: the process aborted (stack or memory exhausted)", key);
        println!("VIOLATION property={} replay={}", (*ctx).prop, path);
        _exit(1)
    }
}

/// Catch aborts of the code under test; limit the memory it may take.
pub fn guard_aborts(ctx: &'static Ctx) {
    CTX.store(ctx as *const Ctx as *mut Ctx, SeqCst);
    unsafe {
        signal(6, aborted);
        let gb = 22u64 << 30;
        setrlimit(9, &[gb, gb]);
    }
}

pub fn root() -> String {
    std::env::var("VMC_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub type Job = Box<dyn Fn(&W) + Send + Sync>;

/// Per-worker handle.
pub struct W {
    pub ctx: &'static Ctx,
    slot: Arc<Slot>,
    pub states: Cell<u64>,
    pub transitions: Cell<u64>,
    pub traces: Cell<u64>,
    pub evals: Cell<u64>,
    local_stats: RefCell<BTreeMap<String, (f64, String)>>,
    local_out: RefCell<BTreeMap<String, u64>>,
}

pub fn case_key(inst: &str, func: &str, arg: f64) -> String {
    if arg.is_nan() {
        format!("{}.{}", inst, func)
    } else {
        format!("{}.{}({:?})", inst, func, arg)
    }
}

pub const NOARG: f64 = f64::NAN;
const HANG_CPU_S: f64 = 8.0;

pub fn build(p: P) -> Result<&'static Inst, String> {
    let key = p.key();
    let r = catch_unwind(AssertUnwindSafe(|| p.build()));
    match r {
        Ok(d) => {
            let r = R::new(&p);
            Ok(Box::leak(Box::new(Inst { p, key, d, r })))
        }
        Err(e) => Err(panic_msg(e)),
    }
}

/// An instance without a reference model.
pub fn build_bare(p: P) -> Result<&'static Inst, String> {
    let key = p.key();
    match catch_unwind(AssertUnwindSafe(|| p.build())) {
        Ok(d) => {
            let r = R::bare(&p);
            Ok(Box::leak(Box::new(Inst { p, key, d, r })))
        }
        Err(e) => Err(panic_msg(e)),
    }
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, only: Option<String>, stats_on: bool) -> &'static Ctx {
        Box::leak(Box::new(Ctx {
            prop: prop.into(),
            tier,
            only,
            stats_on,
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            evals: AtomicU64::new(0),
            outcomes: Mutex::new(BTreeMap::new()),
            violations: Mutex::new(vec![]),
            seen: Mutex::new(HashSet::new()),
            nviol: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            stats: Mutex::new(BTreeMap::new()),
            skip: Mutex::new(HashSet::new()),
            slots: Mutex::new(vec![]),
            queue: Mutex::new(VecDeque::new()),
            pending: AtomicUsize::new(0),
            hangs: AtomicUsize::new(0),
            overdue: AtomicBool::new(false),
            current: Mutex::new(None),
            listed: load_findings(&format!("{}/known-findings.txt", root())).iter().filter(|f| f.property == prop).count() as u64,
            shard: std::env::var("VMC_SHARD").ok().and_then(|s| s.split_once('/').and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)))),
            start: Instant::now(),
        }))
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn fail(&self, key: String, what: String, got: String) {
        if let Some(o) = &self.only {
            if *o != key {
                return;
            }
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < 200_000 && self.seen.lock().unwrap().insert(key.clone()) {
            self.nviol.fetch_add(1, Relaxed);
            v.push(Violation { key, what, got });
        }
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s());
        }
    }

    /// Build instances; a constructor that rejects a valid parameter vector is a violation.
    pub fn instances(&'static self, ps: Vec<P>) -> Vec<&'static Inst> {
        let mut v = vec![];
        for p in ps.into_iter().filter(Self::wanted) {
            let key = p.key();
            self.constructing(&key);
            match build(p) {
                Ok(i) => v.push(i),
                Err(m) => self.fail(format!("{}.new", key), format!("constructor panicked: {}", m), "panic".into()),
            }
        }
        *self.current.lock().unwrap() = None;
        v
    }

    pub fn bare_instances(&'static self, ps: Vec<P>) -> Vec<&'static Inst> {
        let mut v = vec![];
        for p in ps.into_iter().filter(Self::wanted) {
            let key = p.key();
            self.constructing(&key);
            match build_bare(p) {
                Ok(i) => v.push(i),
                Err(m) => self.fail(format!("{}.new", key), format!("constructor panicked: {}", m), "panic".into()),
            }
        }
        *self.current.lock().unwrap() = None;
        v
    }

    /// Development aid: VMC_FAMILIES=Beta,Gamma restricts the instances to these families.
    fn wanted(p: &P) -> bool {
        static ONLY: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
        match ONLY.get_or_init(|| std::env::var("VMC_FAMILIES").ok()) {
            Some(f) => f.split(',').any(|f| f == p.family()),
            None => true,
        }
    }

    fn constructing(&'static self, key: &str) {
        *self.current.lock().unwrap() = Some((key.to_string(), Instant::now()));
    }

    /// Ends the check when a constructor does not return.
    pub fn guard_constructors(&'static self) {
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = self.current.lock().unwrap().clone();
            if let Some((key, since)) = c {
                if since.elapsed().as_secs_f64() > 60.0 {
                    self.fail(format!("{}.new", key), "constructor did not return within 60 s".into(), "hang".into());
                    let code = self.finish(&root(), "stopped at a constructor that does not return", false, &[]);
                    std::process::exit(code);
                }
            }
        });
    }

    pub fn run(&'static self, jobs: Vec<Job>) {
        let jobs: &'static Vec<Job> = Box::leak(Box::new(jobs));
        {
            let mut q = self.queue.lock().unwrap();
            for i in 0..jobs.len() {
                q.push_back(i);
            }
        }
        self.pending.store(jobs.len(), SeqCst);
        let n = if self.shard.is_some() { 1 } else { std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16) };
        for _ in 0..n {
            self.spawn(jobs);
        }
        let mut last: Vec<(u64, f64)> = vec![];
        while self.pending.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            let slots = self.slots.lock().unwrap().clone();
            last.resize(slots.len(), (u64::MAX, 0.0));
            for (i, s) in slots.iter().enumerate() {
                if s.abandoned.load(SeqCst) || !s.busy.load(SeqCst) {
                    last[i].0 = u64::MAX;
                    continue;
                }
                let seq = s.seq.load(SeqCst);
                if last[i].0 != seq {
                    last[i] = (seq, cpu(&s.tid.lock().unwrap()));
                } else if cpu(&s.tid.lock().unwrap()) - last[i].1 > HANG_CPU_S
                    && s.seq.load(SeqCst) == seq
                {
                    s.abandoned.store(true, SeqCst);
                    let inst = unsafe { &*s.inst.load(SeqCst) };
                    let func = unsafe { *s.func.load(SeqCst) };
                    let key = case_key(&inst.key, func, f64::from_bits(s.arg.load(SeqCst)));
                    self.fail(key.clone(), format!("did not return within {} s of CPU time", HANG_CPU_S), "hang".into());
                    self.skip.lock().unwrap().insert(key);
                    if self.hangs.fetch_add(1, SeqCst) + 1 >= 6 {
                        println!("more than five non-terminating cases: stopping early");
                        return;
                    }
                    self.queue.lock().unwrap().push_front(s.job.load(SeqCst));
                    self.spawn(jobs);
                }
            }
        }
    }

    pub fn mine(&self, n: usize) -> bool {
        self.shard.map_or(true, |(k, m)| n % m == k)
    }

    /// Explore the parts in processes of their own, and collect what they report.
    pub fn run_shards(&'static self, n: usize) {
        let exe = std::env::current_exe().expect("the executable has a path");
        self.run_shards_of(exe, n, &|_| {});
    }

    pub fn run_shards_of(&'static self, exe: std::path::PathBuf, n: usize, other: &dyn Fn(&str)) {
        let tier = if self.thorough() { "thorough" } else { "quick" };
        let kids: Vec<_> = (0..n)
            .map(|k| {
                let mut c = std::process::Command::new(&exe);
                c.args([self.prop.as_str(), tier]).env("VMC_SHARD", format!("{}/{}", k, n)).stdout(std::process::Stdio::piped());
                std::thread::spawn(move || c.output())
            })
            .collect();
        for (k, t) in kids.into_iter().enumerate() {
            let out = match t.join() {
                Ok(Ok(o)) => o,
                _ => {
                    eprintln!("part {} could not be started", k);
                    std::process::exit(3);
                }
            };
            let mut complete = false;
            for l in String::from_utf8_lossy(&out.stdout).lines() {
                let f: Vec<&str> = l.split('\t').collect();
                let num = |k: usize| f.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                match f[0] {
                    "#count" => {
                        self.states.fetch_add(num(1), Relaxed);
                        self.transitions.fetch_add(num(2), Relaxed);
                        self.traces.fetch_add(num(3), Relaxed);
                        self.evals.fetch_add(num(4), Relaxed);
                        if num(5) > 0 {
                            self.overdue.store(true, Relaxed);
                        }
                        complete = true;
                    }
                    "#outcome" if f.len() == 3 => *self.outcomes.lock().unwrap().entry(f[1].into()).or_insert(0) += num(2),
                    "#violation" if f.len() == 4 => self.fail(f[1].into(), f[2].into(), f[3].into()),
                    x if x.starts_with("  violated: ") => self.fail(format!("part-{}", k), x.trim().into(), "abort".into()),
                    _ => other(l),
                }
            }
            if !complete && out.status.code() != Some(1) {
                eprintln!("part {} ended with {:?}", k, out.status);
                std::process::exit(3);
            }
        }
    }

    /// What `run_shards` reads.
    fn report(&self) -> i32 {
        for (k, n) in self.outcomes.lock().unwrap().iter() {
            println!("#outcome\t{}\t{}", k, n);
        }
        let one = |s: &str| s.replace(['\t', '\n'], " ");
        for v in self.violations.lock().unwrap().iter().take(2000) {
            println!("#violation\t{}\t{}\t{}", one(&v.key), one(&v.what), one(&v.got));
        }
        let n = |x: &AtomicU64| x.load(Relaxed);
        println!("#count\t{}\t{}\t{}\t{}\t{}", n(&self.states), n(&self.transitions), n(&self.traces), n(&self.evals), self.overdue.load(Relaxed) as u8);
        0
    }

    fn spawn(&'static self, jobs: &'static Vec<Job>) {
        let slot = Arc::new(Slot {
            seq: AtomicU64::new(0),
            busy: AtomicBool::new(false),
            abandoned: AtomicBool::new(false),
            inst: AtomicPtr::new(std::ptr::null_mut()),
            func: AtomicPtr::new(std::ptr::null_mut()),
            arg: AtomicU64::new(0),
            job: AtomicUsize::new(0),
            tid: Mutex::new(String::new()),
        });
        self.slots.lock().unwrap().push(slot.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let me = std::fs::read_link("/proc/thread-self")
                    .map(|p| p.to_string_lossy().into_owned())
                    .unwrap_or_default();
                *slot.tid.lock().unwrap() = me;
                MINE.with(|m| m.set(Arc::as_ptr(&slot)));
                let w = W {
                    ctx: self,
                    slot: slot.clone(),
                    states: Cell::new(0),
                    transitions: Cell::new(0),
                    traces: Cell::new(0),
                    evals: Cell::new(0),
                    local_stats: RefCell::new(BTreeMap::new()),
                    local_out: RefCell::new(BTreeMap::new()),
                };
                loop {
                    let j = match self.queue.lock().unwrap().pop_front() {
                        Some(j) => j,
                        None => {
                            if self.pending.load(SeqCst) == 0 {
                                return;
                            }
                            std::thread::sleep(Duration::from_millis(5));
                            continue;
                        }
                    };
                    slot.job.store(j, SeqCst);
                    let r = if self.late() { Ok(()) } else { catch_unwind(AssertUnwindSafe(|| jobs[j](&w))) };
                    if slot.abandoned.load(SeqCst) {
                        return;
                    }
                    if let Err(e) = r {
                        // The judging code could not cope with what the real code returned.
                        self.fail(format!("job-{}", j), format!("results outside everything anticipated: {}", panic_msg(e)), "panic".into());
                    }
                    w.flush();
                    self.pending.fetch_sub(1, SeqCst);
                }
            })
            .unwrap();
    }

    /// Whether the time for this tier is used up. On the code this was built for, checks end long
    /// before; on code that makes exploration explode, what is left is not explored.
    pub fn late(&self) -> bool {
        if self.overdue.load(Relaxed) {
            return true;
        }
        let limit = if self.thorough() { 5400.0 } else { 420.0 };
        let e = self.elapsed();
        if e > limit || e > limit / 6.0 && self.nviol.load(Relaxed) > self.listed {
            self.overdue.store(true, Relaxed);
            return true;
        }
        false
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Print the verdict, write evidence; returns the exit code.
    pub fn finish(&self, root: &str, bounds: &str, exhaustive: bool, assumptions: &[&str]) -> i32 {
        if self.shard.is_some() {
            return self.report();
        }
        let findings = load_findings(&format!("{}/known-findings.txt", root));
        let mut vs = self.violations.lock().unwrap().clone();
        vs.sort_by(|a, b| a.key.cmp(&b.key));
        let (mut known, mut fresh): (Vec<(Finding, u64)>, Vec<Violation>) = (vec![], vec![]);
        for v in vs {
            let f = findings
                .iter()
                .find(|f| f.property == self.prop && f.key == v.key && same_got(&f.got, &v.got));
            match f {
                Some(f) => match known.iter_mut().find(|k| k.0.key == f.key && k.0.got == f.got) {
                    Some(k) => k.1 += 1,
                    None => known.push((f.clone(), 1)),
                },
                None => fresh.push(v),
            }
        }
        for (f, _) in &known {
            println!("KNOWN-FINDING: property={} {} got={} {}", self.prop, f.key, f.got, f.what);
        }
        if self.stats_on {
            for (k, (e, w)) in self.stats.lock().unwrap().iter() {
                println!("STAT {:<40} {:.3e}  {}", k, e, w);
            }
        }
        let nrep = fresh.len();
        println!(
            "{} {:?}: states={} transitions={} executions={} calls={} known={} violations={} wall={:.1}s",
            self.prop,
            self.tier,
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            self.evals.load(Relaxed),
            known.len(),
            nrep,
            self.elapsed()
        );
        let outs = self.outcomes.lock().unwrap();
        for (k, n) in outs.iter() {
            println!("  {}: {}", k, n);
        }
        let mut code = 0;
        if nrep == 0 && self.only.is_none() {
            let _ = std::fs::remove_file(format!("{}/replays/{}.txt", root, self.prop));
        }
        if nrep > 0 {
            code = 1;
            let dir = format!("{}/replays", root);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}.txt", dir, self.prop);
            let mut t = String::new();
            let tier = if self.thorough() { "thorough" } else { "quick" };
            for v in fresh.iter().take(100_000) {
                let _ = writeln!(t, "case: {}\n  {}\n  got: {}\n  replay: bash /verif/check.sh {} {} --only '{}'\n", v.key, v.what, v.got, self.prop, tier, v.key);
            }
            let _ = std::fs::write(&path, t);
            for v in fresh.iter().take(12) {
                println!("  violated: {} :: {} (got {})", v.key, v.what, v.got);
            }
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        let mut j = String::from("{\n");
        let tier = if self.thorough() { "thorough" } else { "quick" };
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let _ = write!(j, "  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n", js(&self.prop), tier, seed);
        let _ = write!(
            j,
            "    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"evaluations\": {},\n    \"exhaustive\": {},\n    \"rule\": {},\n",
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            self.evals.load(Relaxed),
            exhaustive && !self.overdue.load(Relaxed),
            js(bounds)
        );
        let _ = write!(j, "    \"breakdown\": {{");
        for (i, (k, n)) in outs.iter().enumerate() {
            let _ = write!(j, "{}{}: {}", if i > 0 { ", " } else { "" }, js(k), n);
        }
        let _ = write!(j, "}},\n    \"samples\": [");
        for (i, s) in self.samples.lock().unwrap().iter().enumerate() {
            let _ = write!(j, "{}\n      {}", if i > 0 { "," } else { "" }, js(s));
        }
        let _ = write!(j, "\n    ],\n    \"known_findings_seen\": {}\n  }},\n  \"assumptions\": [", known.len());
        for (i, s) in assumptions.iter().enumerate() {
            let _ = write!(j, "{}\n    {}", if i > 0 { "," } else { "" }, js(s));
        }
        let _ = write!(j, "\n  ],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n", self.elapsed(), nrep);
        if self.only.is_none() {
            let _ = std::fs::create_dir_all(format!("{}/evidence", root));
            if std::fs::write(format!("{}/evidence/{}.json", root, self.prop), j).is_err() {
                eprintln!("cannot write evidence");
                return 3;
            }
        }
        code
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn same_got(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    match (a.parse::<f64>(), b.parse::<f64>()) {
        (Ok(x), Ok(y)) => (x.is_nan() && y.is_nan()) || (x - y).abs() <= 1e-6 * x.abs(),
        _ => false,
    }
}

/// Lines `finding: property=<id> case=<key> got=<value> | <what fails>`.
pub fn load_findings(path: &str) -> Vec<Finding> {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    let mut v = vec![];
    for l in t.lines() {
        let l = l.trim();
        if let Some(rest) = l.strip_prefix("finding: ") {
            let (head, what) = rest.split_once(" | ").unwrap_or((rest, ""));
            let mut f = Finding { property: String::new(), key: String::new(), got: String::new(), what: what.into() };
            for tok in head.split_whitespace() {
                if let Some(x) = tok.strip_prefix("property=") {
                    f.property = x.into();
                } else if let Some(x) = tok.strip_prefix("case=") {
                    f.key = x.into();
                } else if let Some(x) = tok.strip_prefix("got=") {
                    f.got = x.into();
                }
            }
            v.push(f);
        }
    }
    v
}

fn cpu(task: &str) -> f64 {
    if task.is_empty() {
        return 0.0;
    }
    let s = match std::fs::read_to_string(format!("/proc/{}/stat", task)) {
        Ok(s) => s,
        Err(_) => return 0.0,
    };
    let t = match s.rfind(')') {
        Some(i) => &s[i + 1..],
        None => return 0.0,
    };
    let f: Vec<&str> = t.split_whitespace().collect();
    let u: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    let k: f64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    (u + k) / 100.0
}

impl W {
    fn flush(&self) {
        let c = self.ctx;
        c.states.fetch_add(self.states.replace(0), Relaxed);
        c.transitions.fetch_add(self.transitions.replace(0), Relaxed);
        c.traces.fetch_add(self.traces.replace(0), Relaxed);
        c.evals.fetch_add(self.evals.replace(0), Relaxed);
        let mut g = c.stats.lock().unwrap();
        for (k, v) in self.local_stats.take() {
            let e = g.entry(k).or_insert((0.0, String::new()));
            if v.0 > e.0 || (v.0.is_nan() && !e.0.is_nan()) {
                *e = v;
            }
        }
        let mut g = c.outcomes.lock().unwrap();
        for (k, v) in self.local_out.take() {
            *g.entry(k).or_insert(0) += v;
        }
    }
    pub fn state(&self, n: u64) {
        self.states.set(self.states.get() + n);
    }
    pub fn trans(&self, n: u64) {
        self.transitions.set(self.transitions.get() + n);
    }
    pub fn trace(&self, n: u64) {
        self.traces.set(self.traces.get() + n);
    }
    /// Tell the watchdog that a long-running call is making progress.
    pub fn tick(&self) {
        self.slot.seq.fetch_add(1, SeqCst);
        if self.slot.abandoned.load(SeqCst) {
            loop {
                std::thread::park();
            }
        }
    }
    pub fn outcome(&self, k: &str, n: u64) {
        let mut m = self.local_out.borrow_mut();
        match m.get_mut(k) {
            Some(x) => *x += n,
            None => {
                m.insert(k.to_string(), n);
            }
        }
    }
    pub fn stat(&self, k: impl FnOnce() -> String, e: f64, w: impl FnOnce() -> String) {
        if !self.ctx.stats_on {
            return;
        }
        let mut m = self.local_stats.borrow_mut();
        let x = m.entry(k()).or_insert((0.0, String::new()));
        if e > x.0 {
            *x = (e, w());
        }
    }
    /// Run one query of the real code: guarded against panics and non-termination.
    pub fn call<T>(&self, i: &'static Inst, func: &'static &'static str, arg: f64, f: impl FnOnce() -> T) -> Option<T> {
        if self.ctx.hangs.load(Relaxed) > 0 && self.ctx.skip.lock().unwrap().contains(&case_key(&i.key, func, arg)) {
            return None;
        }
        let s = &self.slot;
        s.inst.store(i as *const Inst as *mut Inst, Relaxed);
        s.func.store(func as *const &'static str as *mut &'static str, Relaxed);
        s.arg.store(arg.to_bits(), Relaxed);
        s.seq.fetch_add(1, SeqCst);
        s.busy.store(true, SeqCst);
        self.evals.set(self.evals.get() + 1);
        let r = catch_unwind(AssertUnwindSafe(f));
        s.busy.store(false, SeqCst);
        if s.abandoned.load(SeqCst) {
            // The watchdog gave up on this call; end this worker quietly.
            loop {
                std::thread::park();
            }
        }
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                self.ctx.fail(case_key(&i.key, func, arg), format!("panicked: {}", panic_msg(e)), "panic".into());
                None
            }
        }
    }
    /// `call`, for an execution identified by `key`.
    pub fn guard<T>(&self, i: &'static Inst, func: &'static &'static str, key: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        let s = &self.slot;
        s.inst.store(i as *const Inst as *mut Inst, Relaxed);
        s.func.store(func as *const &'static str as *mut &'static str, Relaxed);
        s.arg.store(NOARG.to_bits(), Relaxed);
        s.seq.fetch_add(1, SeqCst);
        s.busy.store(true, SeqCst);
        self.evals.set(self.evals.get() + 1);
        let r = catch_unwind(AssertUnwindSafe(f));
        s.busy.store(false, SeqCst);
        if s.abandoned.load(SeqCst) {
            loop {
                std::thread::park();
            }
        }
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                self.ctx.fail(key(), format!("panicked: {}", panic_msg(e)), "panic".into());
                None
            }
        }
    }
    /// `call`, for an execution identified by the words of its source.
    pub fn call_script<T>(&self, i: &'static Inst, func: &'static &'static str, words: &[u64], f: impl FnOnce() -> T) -> Option<T> {
        let s = &self.slot;
        s.inst.store(i as *const Inst as *mut Inst, Relaxed);
        s.func.store(func as *const &'static str as *mut &'static str, Relaxed);
        s.arg.store(NOARG.to_bits(), Relaxed);
        s.seq.fetch_add(1, Relaxed);
        s.busy.store(true, Relaxed);
        self.evals.set(self.evals.get() + 1);
        let r = catch_unwind(AssertUnwindSafe(f));
        s.busy.store(false, Relaxed);
        if s.abandoned.load(Relaxed) {
            loop {
                std::thread::park();
            }
        }
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                self.ctx.fail(format!("{}.{}{}", i.key, func, crate::env::show(words)), format!("panicked: {}", panic_msg(e)), "panic".into());
                None
            }
        }
    }
    pub fn fail(&self, i: &Inst, func: &str, arg: f64, what: String, got: f64) {
        self.ctx.fail(case_key(&i.key, func, arg), what, format!("{:?}", got));
    }
}

/// Silence panic messages from the code under test (they are caught and reported).
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
