//! Seeded cooperative scheduler. Tasks are OS threads, exactly one of which holds the baton.
//! Preemption points: libopenraw edges (quantum), futex waits, joins, explicit yields.
use crate::rng::Rng;
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, Ordering::*};

/// Source of scheduling decisions: seeded, or a recorded tape (0 past its end = simplest choice).
#[derive(Clone)]
pub enum Tape {
    Seeded(Rng),
    Fixed(Vec<u32>, usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Futex(usize),
    Join(usize),
    Done,
}

struct Task {
    st: St,
    baton: &'static AtomicU32,
    timed: bool,
    woken: bool,
}

struct Sched {
    tasks: Vec<Task>,
    cur: usize,
    tape: Tape,
    rec: Vec<u32>,
    switches: u64,
    preempts: u64,
    hash: u64,
    width: usize,
    /// mean quantum exponent: quanta are drawn from 1..=2^qmax edges
    qmax: u32,
    handles: Vec<std::thread::JoinHandle<()>>,
    live: usize,
    max_live: usize,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static QUANTUM: AtomicI64 = AtomicI64::new(i64::MAX);
static mut S: Option<Box<Sched>> = None;

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(usize::MAX) };
    static HASHSEED: Cell<u64> = const { Cell::new(0) };
    static WORKER: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { S.as_mut().unwrap() }
}

pub fn active() -> bool {
    ACTIVE.load(Relaxed) && CUR.with(|c| c.get()) != usize::MAX
}
pub fn current() -> usize {
    CUR.with(|c| c.get())
}
/// Index of the simulated pool worker running this task.
pub fn worker() -> Option<usize> {
    let w = WORKER.with(|c| c.get());
    (w != usize::MAX).then_some(w)
}
static WIDTH: AtomicU32 = AtomicU32::new(1);
pub fn width() -> usize {
    WIDTH.load(Relaxed) as usize
}
pub fn set_width(n: usize) {
    WIDTH.store(n.max(1) as u32, Relaxed);
}

#[inline(always)]
pub fn tick() {
    if ACTIVE.load(Relaxed) {
        tick_slow();
    }
}
/// About to store to a static.
#[inline(always)]
pub fn static_store() {
    if ACTIVE.load(Relaxed) {
        static_slow();
    }
}
#[cold]
fn static_slow() {
    if active() && s().tasks.len() > 1 {
        let was = crate::alloc::in_lib();
        crate::alloc::set_in_lib(false);
        if s().draw(3) != 0 {
            preempt();
        }
        crate::alloc::set_in_lib(was);
    }
}
fn tick_slow() {
    if CUR.with(|c| c.get()) == usize::MAX {
        return;
    }
    let q = QUANTUM.load(Relaxed) - 1;
    QUANTUM.store(q, Relaxed);
    if q <= 0 {
        let was = crate::alloc::in_lib();
        crate::alloc::set_in_lib(false);
        preempt();
        crate::alloc::set_in_lib(was);
    }
}

impl Sched {
    fn draw(&mut self, n: u32) -> u32 {
        let v = match &mut self.tape {
            Tape::Seeded(r) => r.below(n as u64) as u32,
            Tape::Fixed(v, i) => {
                let x = v.get(*i).copied().unwrap_or(0);
                *i += 1;
                x % n.max(1)
            }
        };
        self.rec.push(v);
        v
    }
    fn new_quantum(&mut self) {
        // draw an exponent, then a position: 0 = run on
        let e = self.draw(self.qmax + 2);
        let q = if e == 0 {
            i64::MAX
        } else {
            let span = 1u32 << (e - 1).min(24);
            1 + (span - 1) as i64 / 2 + self.draw(span) as i64
        };
        QUANTUM.store(q, Relaxed);
    }
    fn runnable(&self) -> Vec<usize> {
        // current first, so that choice 0 is "do not switch"
        let mut v = vec![];
        if self.tasks[self.cur].st == St::Run {
            v.push(self.cur);
        }
        for (i, t) in self.tasks.iter().enumerate() {
            if t.st == St::Run && i != self.cur {
                v.push(i);
            }
        }
        v
    }
}

/// Choose the next task; the caller keeps running or sleeps until its baton comes back.
fn reschedule() {
    let me = current();
    let sc = s();
    let mut r = sc.runnable();
    if r.is_empty() {
        // wake a timed waiter if any: simulated time passes
        if let Some(i) = sc.tasks.iter().position(|t| matches!(t.st, St::Futex(_)) && t.timed) {
            sc.tasks[i].st = St::Run;
            sc.tasks[i].woken = false;
            r.push(i);
        } else {
            crate::die(crate::EXIT_DEADLOCK, "SIM-DEADLOCK no runnable task");
        }
    }
    let c = if r.len() == 1 { 0 } else { sc.draw(r.len() as u32) as usize };
    let next = r[c];
    sc.hash = crate::rng::mix(sc.hash ^ next as u64).wrapping_add(if r.len() > 1 { crate::clock::steps() - START.load(Relaxed) } else { 0 });
    sc.new_quantum();
    if next != me {
        sc.switches += 1;
        sc.cur = next;
        let mine = sc.tasks[me].baton;
        let done = sc.tasks[me].st == St::Done;
        let b = sc.tasks[next].baton;
        b.store(1, Release);
        sys::futex_wake(b);
        if !done {
            wait_baton(mine);
        }
    }
}

fn wait_baton(b: &AtomicU32) {
    while b.swap(0, Acquire) == 0 {
        sys::futex_wait(b, 0);
    }
}

fn preempt() {
    s().preempts += 1;
    reschedule();
}

/// Explicit scheduling point.
pub fn yield_now() {
    if active() {
        let was = crate::alloc::in_lib();
        crate::alloc::set_in_lib(false);
        reschedule();
        crate::alloc::set_in_lib(was);
    }
}

/// Seeded choice on the scheduler's tape (0 when no simulation runs).
pub fn choose(n: u32) -> u32 {
    if active() && n > 1 {
        let was = crate::alloc::in_lib();
        crate::alloc::set_in_lib(false);
        let r = s().draw(n);
        crate::alloc::set_in_lib(was);
        r
    } else {
        0
    }
}

/// Start a task. It does not run before the scheduler chooses it.
pub fn spawn(f: Box<dyn FnOnce() + Send>, lib: bool, worker: usize) -> usize {
    let was = crate::alloc::in_lib();
    crate::alloc::set_in_lib(false);
    let baton: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    let ready: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    let id = s().tasks.len();
    let hseed = HASHSEED.with(|h| h.get()) ^ crate::rng::mix(id as u64);
    s().tasks.push(Task { st: St::Run, baton, timed: false, woken: false });
    s().live += 1;
    if s().live > s().max_live {
        s().max_live = s().live;
    }
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            HASHSEED.with(|h| h.set(hseed));
            ready.store(1, Release);
            sys::futex_wake(ready);
            wait_baton(baton);
            CUR.with(|c| c.set(id));
            WORKER.with(|c| c.set(worker));
            crate::alloc::set_in_lib(lib);
            f();
            crate::alloc::set_in_lib(false);
            let sc = s();
            sc.tasks[id].st = St::Done;
            sc.live -= 1;
            for t in sc.tasks.iter_mut() {
                if t.st == St::Join(id) {
                    t.st = St::Run;
                }
            }
            reschedule();
            CUR.with(|c| c.set(usize::MAX));
        })
        .expect("spawn");
    while ready.load(Acquire) == 0 {
        sys::futex_wait(ready, 0);
    }
    s().handles.push(h);
    crate::alloc::set_in_lib(was);
    id
}

/// Wait for a task to end.
pub fn join(id: usize) {
    let was = crate::alloc::in_lib();
    crate::alloc::set_in_lib(false);
    let me = current();
    while s().tasks[id].st != St::Done {
        s().tasks[me].st = St::Join(id);
        reschedule();
    }
    crate::alloc::set_in_lib(was);
}

/// Interposed futex. None: not ours, do the real thing.
pub fn futex(addr: usize, op: i32, val: u32, timeout: bool) -> Option<i64> {
    if !active() {
        return None;
    }
    let was = crate::alloc::in_lib();
    crate::alloc::set_in_lib(false);
    let cmd = op & 0x7f;
    let r = match cmd {
        0 | 9 => {
            let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
            if cur != val {
                Some(-(libc::EAGAIN as i64))
            } else {
                let me = current();
                let sc = s();
                sc.tasks[me].st = St::Futex(addr);
                sc.tasks[me].timed = timeout;
                sc.tasks[me].woken = false;
                reschedule();
                if s().tasks[me].woken || !timeout {
                    Some(0)
                } else {
                    Some(-(libc::ETIMEDOUT as i64))
                }
            }
        }
        1 | 10 => {
            let mut n = 0i64;
            let sc = s();
            for t in sc.tasks.iter_mut() {
                if n >= val as i64 {
                    break;
                }
                if t.st == St::Futex(addr) {
                    t.st = St::Run;
                    t.woken = true;
                    n += 1;
                }
            }
            Some(n)
        }
        _ => None,
    };
    crate::alloc::set_in_lib(was);
    r
}

static START: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub struct Report {
    pub tape: Vec<u32>,
    pub switches: u64,
    pub preempts: u64,
    pub tasks: usize,
    pub max_live: usize,
    pub hash: u64,
}

/// Run `f` under the scheduler on this thread (task 0).
#[allow(static_mut_refs)]
pub fn run<R>(tape: Tape, width: usize, qmax: u32, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Report) {
    assert!(!ACTIVE.load(Relaxed));
    let baton: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    unsafe {
        S = Some(Box::new(Sched {
            tasks: vec![Task { st: St::Run, baton, timed: false, woken: false }],
            cur: 0,
            tape,
            rec: vec![],
            switches: 0,
            preempts: 0,
            hash: 0,
            width,
            qmax,
            handles: vec![],
            live: 1,
            max_live: 1,
        }));
    }
    set_width(width);
    START.store(crate::clock::steps(), Relaxed);
    CUR.with(|c| c.set(0));
    s().new_quantum();
    ACTIVE.store(true, SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    // let every task still there finish
    loop {
        let rest = s().tasks.iter().skip(1).position(|t| t.st != St::Done);
        match rest {
            Some(i) => join(i + 1),
            None => break,
        }
    }
    ACTIVE.store(false, SeqCst);
    CUR.with(|c| c.set(usize::MAX));
    let sc = unsafe { S.take().unwrap() };
    let sc = *sc;
    let n = sc.tasks.len();
    for h in sc.handles {
        let _ = h.join();
    }
    set_width(1);
    let _ = sc.width;
    (r, Report { tape: sc.rec, switches: sc.switches, preempts: sc.preempts, tasks: n, max_live: sc.max_live, hash: sc.hash })
}

/// Seed of this thread's hash keys (served through getrandom).
pub fn set_hash_seed(x: u64) {
    HASHSEED.with(|h| h.set(x));
}
pub fn hash_seed() -> u64 {
    HASHSEED.with(|h| h.get())
}
