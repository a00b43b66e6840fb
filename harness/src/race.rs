//! A scheduler for the real code, instrumented by the memory protection of the processor.
//!
//! Everything threads can share - the static variables of the executable and of the mathematical
//! library, and the distributions, which are placed in an arena of their own - is protected. An
//! access faults; the handler decides which thread goes on, lets the faulting instruction alone
//! through (the trap flag brings control back after it), and protects the memory again. In
//! `Mode::Footprint` only writes fault, and are recorded. In `Mode::Schedule` every access is a
//! point at which the other thread may take over, and executions are enumerated.
//!
//! Nothing in here may touch static variables while the protection is on: what the handlers need
//! is at a fixed address.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};

const PAGE: usize = 4096;
const CB_AT: usize = 0x6000_0000_0000;
const ARENA_AT: usize = 0x6100_0000_0000;
const ARENA_SIZE: usize = 256 << 20;
const MAX_POINTS: usize = 4096;
/// accesses in a row after which the other thread gets its turn, waiting being assumed
const PATIENCE: usize = 300;
/// and if all of them are to one place
const PATIENCE_AT_ONE: usize = 24;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Off,
    Footprint,
    Schedule,
}

#[derive(Clone, Copy)]
struct Point {
    /// who was about to access memory (0 at the start)
    who: u8,
    /// whether the other could go instead
    open: bool,
    /// who went on
    went: u8,
}

struct Block {
    mode: AtomicUsize,
    ranges: [(AtomicUsize, AtomicUsize); 8],
    /// whether the arena is protected in schedules
    arena: AtomicBool,
    arena_used: AtomicUsize,
    /// footprint
    writes: AtomicUsize,
    last_write: AtomicUsize,
    /// what is under way, for the report of hangs
    label: [AtomicU64; 64],
    progress: AtomicU64,
    /// whose turn it is: 0 for the controller
    token: AtomicUsize,
    go: [AtomicUsize; 3],
    done: [AtomicBool; 3],
    points: AtomicUsize,
    in_a_row: AtomicUsize,
    place: AtomicUsize,
    at_one: AtomicUsize,
    prefix: [AtomicUsize; MAX_POINTS],
    prefix_len: AtomicUsize,
    trace: [AtomicUsize; MAX_POINTS],
    answers: [AtomicU64; 3],
}

fn cb() -> &'static Block {
    unsafe { &*(CB_AT as *const Block) }
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
    static TO_ARENA: Cell<bool> = const { Cell::new(false) };
}

#[inline(always)]
unsafe fn syscall(n: usize, a: usize, b: usize, c: usize) -> usize {
    let r;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, out("rcx") _, out("r11") _);
    r
}
#[inline(always)]
unsafe fn protect(prot: usize) {
    let b = cb();
    for (k, (lo, hi)) in b.ranges.iter().enumerate() {
        let (lo, hi) = (lo.load(SeqCst), hi.load(SeqCst));
        if hi > lo && (k > 0 || prot != 0 || b.arena.load(SeqCst)) {
            syscall(10, lo, hi - lo, prot);
        }
    }
}
const NONE: usize = 0;
const READ: usize = 1;
const RW: usize = 3;

#[inline(always)]
fn nap() {
    unsafe { syscall(24, 0, 0, 0) };
}

/// Places what it allocates in the arena while the thread wishes so.
pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if TO_ARENA.with(|t| t.get()) {
            let b = cb();
            let at = (b.arena_used.load(SeqCst) + l.align() - 1) & !(l.align() - 1);
            if at + l.size() <= ARENA_SIZE {
                b.arena_used.store(at + l.size(), SeqCst);
                return (ARENA_AT + at) as *mut u8;
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if (p as usize).wrapping_sub(ARENA_AT) >= ARENA_SIZE {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if (p as usize).wrapping_sub(ARENA_AT) < ARENA_SIZE || TO_ARENA.with(|t| t.get()) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}

/// Calls `f` with its allocations going to the arena, where the result lives for good.
pub fn in_arena<T>(f: impl FnOnce() -> T) -> &'static T {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            TO_ARENA.with(|t| t.set(false));
        }
    }
    TO_ARENA.with(|t| t.set(true));
    let _back = Back;
    Box::leak(Box::new(f()))
}

#[repr(C)]
struct Sigaction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Stack {
    sp: usize,
    flags: i32,
    size: usize,
}
extern "C" {
    fn mmap(a: usize, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> usize;
    fn sigaction(n: i32, a: *const Sigaction, old: *mut Sigaction) -> i32;
    fn sigaltstack(a: *const Stack, old: *mut Stack) -> i32;
    fn alarm(n: u32) -> u32;
}

const REG_EFL: usize = 17;
const REG_ERR: usize = 19;
/// the general registers in a ucontext
unsafe fn reg(ctx: usize, k: usize) -> *mut u64 {
    ((ctx + 8 + 8 + 24) as *mut u64).add(k)
}

unsafe extern "C" fn faulted(_: i32, info: usize, ctx: usize) {
    let b = cb();
    let addr = *((info + 16) as *const usize);
    let inside = b.ranges.iter().any(|(lo, hi)| addr >= lo.load(SeqCst) && addr < hi.load(SeqCst));
    let mode = b.mode.load(SeqCst);
    if !inside || mode == 0 {
        // not ours: a crash of the code under test
        crashed(11);
    }
    if mode == Mode::Footprint as usize {
        b.writes.fetch_add(1, SeqCst);
        b.last_write.store(addr, SeqCst);
    } else {
        let me = ME.with(|m| m.get());
        if me != 0 {
            // after a blocking call the turn may be the other's
            while b.token.load(SeqCst) != me {
                nap();
            }
            point(me, addr);
            if *reg(ctx, REG_ERR) & 2 != 0 {
                b.writes.fetch_add(1, SeqCst);
            }
        }
    }
    protect(RW);
    *reg(ctx, REG_EFL) |= 0x100;
}

unsafe extern "C" fn trapped(_: i32, _info: usize, ctx: usize) {
    *reg(ctx, REG_EFL) &= !0x100;
    match cb().mode.load(SeqCst) {
        1 => protect(READ),
        2 => protect(NONE),
        _ => {}
    }
}

unsafe extern "C" fn alarmed(_: i32, _: usize, _: usize) {
    // the labels: what was under way the last time, and the progress then
    let b = cb();
    let now = b.progress.load(SeqCst);
    if b.label[63].swap(now, SeqCst) == now {
        crashed(14);
    }
    alarm(20);
}

/// Reports what was under way, and ends the process.
unsafe fn crashed(n: i32) -> ! {
    let b = cb();
    syscall(10, ARENA_AT, 0, RW);
    b.mode.store(0, SeqCst);
    protect(RW);
    let mut key = String::new();
    for x in &b.label[..60] {
        for y in x.load(SeqCst).to_le_bytes() {
            if y == 0 {
                break;
            }
            key.push(y as char);
        }
    }
    let what = if n == 14 { "did not return" } else { "the process crashed" };
    let s = format!("#violation\t{}\t{}\t{}\n#count\t1\t1\t1\t1\t0\n", key, what, if n == 14 { "hang" } else { "abort" });
    syscall(1, 1, s.as_ptr() as usize, s.len());
    syscall(231, 0, 0, 0);
    loop {}
}

/// Notes what is being done.
pub fn label(s: &str) {
    let b = cb();
    let mut v = [0u8; 480];
    let n = s.len().min(479);
    v[..n].copy_from_slice(&s.as_bytes()[..n]);
    for (k, c) in v.chunks(8).enumerate() {
        b.label[k].store(u64::from_le_bytes(c.try_into().unwrap()), SeqCst);
    }
    b.progress.fetch_add(1, SeqCst);
}

/// A point at which the other thread may take over.
unsafe fn point(me: usize, addr: usize) {
    let b = cb();
    let other = 3 - me;
    let k = b.points.fetch_add(1, SeqCst);
    b.progress.fetch_add(1, SeqCst);
    let open = !b.done[other].load(SeqCst);
    let mut went = me;
    let row = b.in_a_row.fetch_add(1, SeqCst);
    if row == 0 || b.place.swap(addr, SeqCst) != addr {
        b.place.store(addr, SeqCst);
        b.at_one.store(0, SeqCst);
    }
    let waiting = row >= PATIENCE || b.at_one.fetch_add(1, SeqCst) >= PATIENCE_AT_ONE;
    let mut forced = false;
    if open {
        if waiting {
            forced = true;
            went = other;
        } else if k < b.prefix_len.load(SeqCst) && k < MAX_POINTS {
            went = b.prefix[k].load(SeqCst);
        }
    }
    if k < MAX_POINTS {
        b.trace[k].store(me | (open && !forced) as usize * 4 | went * 8, SeqCst);
    } else if waiting && k > 100 * MAX_POINTS {
        // neither gets anywhere
        crashed(14);
    }
    if went != me {
        b.in_a_row.store(0, SeqCst);
        b.token.store(other, SeqCst);
        while b.token.load(SeqCst) != me {
            nap();
        }
    }
}

pub struct Lab {
    work: &'static (dyn Fn(usize, usize) -> u64 + Sync),
    cold: Vec<(usize, Vec<u8>)>,
}

/// The writable memory of static variables: those of the executable and the mathematical library.
fn statics() -> Vec<(usize, usize)> {
    let exe = std::fs::read_link("/proc/self/exe").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let mut v: Vec<(usize, usize)> = vec![];
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (lo, hi) = match f[0].split_once('-') {
            Some((a, b)) => (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(b, 16).unwrap_or(0)),
            None => continue,
        };
        if !f[1].starts_with("rw") {
            continue;
        }
        let name = f.get(5).copied().unwrap_or("");
        let ours = !exe.is_empty() && name == exe || name.contains("/libm.so") || name.contains("/libm-");
        let tail = name.is_empty() && v.last().map_or(false, |r| r.1 == lo);
        if tail {
            v.last_mut().unwrap().1 = hi;
        } else if ours {
            v.push((lo, hi));
        }
    }
    v
}

impl Lab {
    /// Prepares the process, which must have one thread. `work(who, what)` is what threads do.
    /// To be called before anything is allocated in the arena.
    pub fn reserve() {
        let cbn = (std::mem::size_of::<Block>() + PAGE - 1) & !(PAGE - 1);
        unsafe {
            // private, anonymous, fixed without replacement
            for (a, n) in [(CB_AT, cbn), (ARENA_AT, ARENA_SIZE)] {
                assert_eq!(mmap(a, n, 3, 0x02 | 0x20 | 0x100000 | 0x4000, -1, 0), a, "the memory of the laboratory");
            }
        }
    }

    pub fn new(work: &'static (dyn Fn(usize, usize) -> u64 + Sync)) -> Lab {
        let b = cb();
        unsafe {
            let alt = Box::leak(vec![0u8; 1 << 16].into_boxed_slice());
            sigaltstack(&Stack { sp: alt.as_ptr() as usize, flags: 0, size: alt.len() }, std::ptr::null_mut());
            // the handlers run on the stack of their thread, except for exhausted ones
            for (n, f) in [(11, faulted as *const () as usize), (5, trapped as *const () as usize), (14, alarmed as *const () as usize)] {
                let a = Sigaction { handler: f, mask: [0; 16], flags: 4 | 0x0800_0000, restorer: 0 };
                assert_eq!(sigaction(n, &a, std::ptr::null_mut()), 0);
            }
            alarm(20);
        }
        for me in 1..3 {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    ME.with(|m| m.set(me));
                    let b = cb();
                    loop {
                        let mut n = 0;
                        while b.go[me].load(SeqCst) == 0 || b.token.load(SeqCst) != me {
                            n += 1;
                            if n < 1000 {
                                nap();
                            } else {
                                std::thread::sleep(std::time::Duration::from_micros(200));
                            }
                        }
                        let what = b.go[me].load(SeqCst) - 1;
                        b.answers[me].store(work(me, what), SeqCst);
                        b.go[me].store(0, SeqCst);
                        // the turn may have been taken away while this thread was blocked
                        while b.token.load(SeqCst) != me {
                            nap();
                        }
                        b.done[me].store(true, SeqCst);
                        b.in_a_row.store(0, SeqCst);
                        let other = 3 - me;
                        b.token.store(if b.done[other].load(SeqCst) { 0 } else { other }, SeqCst);
                    }
                })
                .expect("a thread");
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
        let used = (b.arena_used.load(SeqCst) + PAGE - 1) & !(PAGE - 1);
        let mut ranges = vec![(ARENA_AT, ARENA_AT + used)];
        ranges.extend(statics());
        assert!(ranges.len() > 1 && ranges.len() <= 8, "the memory of static variables: {:?}", ranges);
        for (k, (lo, hi)) in ranges.iter().enumerate() {
            b.ranges[k].0.store(*lo, SeqCst);
            b.ranges[k].1.store(*hi, SeqCst);
        }
        let mut lab = Lab { work, cold: vec![] };
        lab.remember();
        lab
    }

    pub fn bytes(&self) -> (usize, usize) {
        let b = cb();
        let n = |k: usize| b.ranges[k].1.load(SeqCst) - b.ranges[k].0.load(SeqCst);
        (n(0), (1..8).map(n).sum())
    }

    /// The state to which `restore` returns.
    fn remember(&mut self) {
        let mut cold = vec![];
        for (lo, hi) in &cb().ranges {
            let (lo, hi) = (lo.load(SeqCst), hi.load(SeqCst));
            if hi > lo {
                let v: Vec<u8> = unsafe { std::slice::from_raw_parts(lo as *const u8, hi - lo) }.to_vec();
                cold.push((lo, v));
            }
        }
        self.cold = cold;
    }
    /// Back to the state at the start; the arena only if asked to.
    fn restore(&self, arena: bool) {
        for (k, (lo, v)) in self.cold.iter().enumerate() {
            if k > 0 || arena {
                // only what differs: other static variables of this page are in use
                unsafe {
                    let now = std::slice::from_raw_parts_mut(*lo as *mut u8, v.len());
                    if now != &v[..] {
                        for (x, y) in now.chunks_mut(64).zip(v.chunks(64)) {
                            if x != y {
                                x.copy_from_slice(y);
                            }
                        }
                    }
                }
            }
        }
    }

    /// How many writes to shared memory `what` makes, and where the last one was.
    pub fn footprint(&self, whats: &[usize], mut each: impl FnMut(usize, usize, usize)) {
        let b = cb();
        self.restore(true);
        for &what in whats {
            b.writes.store(0, SeqCst);
            unsafe {
                b.mode.store(Mode::Footprint as usize, SeqCst);
                protect(READ);
                (self.work)(0, what);
                protect(RW);
                b.mode.store(0, SeqCst);
            }
            let n = b.writes.load(SeqCst);
            if n > 0 {
                each(what, n, b.last_write.load(SeqCst));
                // every question is observed in the state at the start
                self.restore(true);
            }
        }
    }

    /// One execution: the prelude, then the two at once, then both again; the answers in order.
    fn execute(&self, pre: Option<usize>, two: [usize; 2], prefix: &[usize], arena: bool) -> (Vec<Point>, [u64; 4]) {
        let b = cb();
        self.restore(true);
        if let Some(p) = pre {
            (self.work)(0, p);
        }
        b.points.store(0, SeqCst);
        b.in_a_row.store(0, SeqCst);
        b.arena.store(arena, SeqCst);
        for (k, p) in prefix.iter().skip(1).enumerate() {
            b.prefix[k].store(*p, SeqCst);
        }
        b.prefix_len.store(prefix.len().saturating_sub(1), SeqCst);
        for k in 1..3 {
            b.done[k].store(false, SeqCst);
            b.go[k].store(two[k - 1] + 1, SeqCst);
        }
        let first = prefix.first().copied().unwrap_or(1);
        unsafe {
            b.mode.store(Mode::Schedule as usize, SeqCst);
            protect(NONE);
        }
        b.token.store(first, SeqCst);
        let (mut last, mut idle) = (u64::MAX, 0u32);
        while b.token.load(SeqCst) != 0 {
            nap();
            let now = b.progress.load(SeqCst);
            let t = b.token.load(SeqCst);
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
            if idle > 200_000 && t != 0 && !b.done[3 - t].load(SeqCst) {
                // blocked in the kernel, it seems: let the other go on
                idle = 0;
                let _ = b.token.compare_exchange(t, 3 - t, SeqCst, SeqCst);
            }
        }
        unsafe {
            protect(RW);
            b.mode.store(0, SeqCst);
        }
        let mut v = vec![Point { who: 0, open: true, went: first as u8 }];
        for k in 0..b.points.load(SeqCst).min(MAX_POINTS) {
            let x = b.trace[k].load(SeqCst);
            v.push(Point { who: (x & 3) as u8, open: x & 4 != 0, went: (x >> 3) as u8 });
        }
        let after = [(self.work)(0, two[0]), (self.work)(0, two[1])];
        (v, [b.answers[1].load(SeqCst), b.answers[2].load(SeqCst), after[0], after[1]])
    }

    /// The answer on its own, from the state at the start.
    pub fn alone(&self, what: usize) -> u64 {
        self.restore(true);
        (self.work)(0, what)
    }

    /// Every schedule of the two with at most `bound` preemptions; `judge` gets the answers and
    /// the schedule, and says whether to go on. Returns the schedules, and the points in them.
    pub fn explore(
        &self,
        pre: Option<usize>,
        two: [usize; 2],
        bound: usize,
        arena: bool,
        judge: &mut dyn FnMut([u64; 4], &str) -> bool,
    ) -> (u64, u64) {
        let mut prefix: Vec<usize> = vec![];
        let (mut runs, mut points) = (0, 0);
        loop {
            let (trace, answers) = self.execute(pre, two, &prefix, arena);
            runs += 1;
            points += trace.len() as u64;
            let mut s = String::new();
            for p in &trace {
                if p.who != p.went {
                    s.push_str(&format!("{}>{}@", p.who, p.went));
                }
                if p.who != p.went {
                    s.push_str(&format!("{} ", trace.iter().position(|q| std::ptr::eq(p, q)).unwrap()));
                }
            }
            if !judge(answers, s.trim_end()) {
                break;
            }
            // the last point at which the other choice is left
            let taken: Vec<usize> = trace
                .iter()
                .scan(0, |n, p| {
                    let before = *n;
                    if p.who != 0 && p.open && p.went != p.who {
                        *n += 1;
                    }
                    Some(before)
                })
                .collect();
            let mut next = None;
            for k in (0..trace.len()).rev() {
                let p = trace[k];
                // the default goes first: thread 1 at the start, no preemption elsewhere
                let default = if p.who == 0 { 1 } else { p.who };
                if p.open && p.went == default && (p.who == 0 || taken[k] < bound) {
                    next = Some(k);
                    break;
                }
            }
            match next {
                Some(k) => {
                    prefix = trace[..k].iter().map(|p| p.went as usize).collect();
                    prefix.push(3 - if trace[k].who == 0 { 1 } else { trace[k].who as usize });
                }
                None => break,
            }
        }
        (runs, points)
    }
}
