//! Deterministic stand-in for rayon-core: the same API, scheduled by simrt.
//! Outside a simulation everything runs sequentially on the calling thread.
use std::any::Any;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static RR: AtomicUsize = AtomicUsize::new(0);
fn next_worker() -> usize {
    RR.fetch_add(1, Relaxed) % current_num_threads().max(1)
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _p: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _p: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

struct Ptr<T>(*mut T);
unsafe impl<T> Send for Ptr<T> {}
impl<T> Ptr<T> {
    fn get(&self) -> *mut T {
        self.0
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    // decision: is b stolen by another worker?
    if !simrt::sched::active() || current_num_threads() < 2 || simrt::sched::choose(4) == 0 {
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(false))));
        let rb = match ra {
            // rayon runs b (already queued) before it propagates the panic of a
            Err(e) => {
                let _ = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(false))));
                resume_unwind(e)
            }
            Ok(ra) => (ra, b(FnContext::new(false))),
        };
        return rb;
    }
    let mut slot: Option<std::thread::Result<RB>> = None;
    let p = Ptr(&mut slot as *mut _);
    let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
        let r = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(true))));
        unsafe { *p.get() = Some(r) };
    });
    let job: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(job) };
    let id = simrt::sched::spawn(job, simrt::alloc::in_lib(), next_worker());
    let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(false))));
    simrt::sched::join(id);
    match (ra, slot.take().unwrap()) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) | (_, Err(e)) => resume_unwind(e),
    }
}

type PanicSlot = std::sync::Mutex<Option<Box<dyn Any + Send>>>;

macro_rules! scope_impl {
    ($S:ident, $spawn:ident, $scope:ident, $inplace:ident) => {
        pub struct $S<'scope> {
            tasks: std::sync::Mutex<Vec<usize>>,
            panic: PanicSlot,
            _p: PhantomData<Box<dyn FnOnce(&$S<'scope>) + Send + Sync + 'scope>>,
        }
        impl<'scope> fmt::Debug for $S<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($S))
            }
        }
        impl<'scope> $S<'scope> {
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$S<'scope>) + Send + 'scope,
            {
                let me = Ptr(self as *const Self as *mut Self);
                let run = move || {
                    let s = unsafe { &*me.get() };
                    if let Err(e) = catch_unwind(AssertUnwindSafe(|| body(s))) {
                        *s.panic.lock().unwrap() = Some(e);
                    }
                };
                if simrt::sched::active() {
                    let job: Box<dyn FnOnce() + Send + '_> = Box::new(run);
                    let job: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(job) };
                    let id = simrt::sched::spawn(job, simrt::alloc::in_lib(), next_worker());
                    simrt::alloc::harness(|| self.tasks.lock().unwrap().push(id));
                } else {
                    run();
                }
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$S<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                for i in 0..current_num_threads() {
                    body(self, BroadcastContext { i, _p: PhantomData });
                }
            }
        }
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$S<'scope>) -> R + Send,
            R: Send,
        {
            $inplace(op)
        }
        pub fn $inplace<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$S<'scope>) -> R,
        {
            let s = $S { tasks: Default::default(), panic: Default::default(), _p: PhantomData };
            let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
            loop {
                let t = s.tasks.lock().unwrap().pop();
                match t {
                    Some(id) => simrt::sched::join(id),
                    None => break,
                }
            }
            let p = s.panic.lock().unwrap().take();
            match (r, p) {
                (Err(e), _) | (_, Some(e)) => resume_unwind(e),
                (Ok(r), None) => r,
            }
        }
    };
}
scope_impl!(Scope, spawn, scope, in_place_scope);
scope_impl!(ScopeFifo, spawn_fifo, scope_fifo, in_place_scope_fifo);

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    if simrt::sched::active() {
        simrt::sched::spawn(Box::new(f), simrt::alloc::in_lib(), next_worker());
    } else {
        f()
    }
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn(f)
}

pub struct BroadcastContext<'a> {
    i: usize,
    _p: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.i
    }
    pub fn num_threads(&self) -> usize {
        current_num_threads()
    }
}
impl<'a> fmt::Debug for BroadcastContext<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "BroadcastContext({})", self.i)
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    (0..current_num_threads()).map(|i| op(BroadcastContext { i, _p: PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

pub fn current_num_threads() -> usize {
    simrt::sched::width()
}
pub fn max_num_threads() -> usize {
    65535
}
pub fn current_thread_index() -> Option<usize> {
    simrt::sched::worker()
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    current_thread_index().map(|_| false)
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    simrt::sched::yield_now();
    current_thread_index().map(|_| Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    yield_now()
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

#[derive(Debug)]
pub struct ThreadBuilder;
#[derive(Default, Debug)]
pub struct ThreadPoolBuilder {
    n: usize,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: self.n })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
#[derive(Debug)]
pub struct ThreadPool {
    n: usize,
}
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        if self.n == 0 {
            current_num_threads()
        } else {
            self.n
        }
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope(op)
    }
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) {
        spawn(f)
    }
}
