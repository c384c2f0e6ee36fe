//! Deterministic, single-threaded replacement for rayon-core used by the simulator.
//!
//! `join` runs its two halves in an order chosen by the simulator and tells either half it was
//! "migrated" when the simulator says the job was stolen (which makes rayon split further).
//! `scope` queues spawned bodies and runs them in a simulator-chosen order.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};

type ChoiceFn = unsafe extern "C" fn(kind: u32, n: u32) -> u32;
extern "C" {
    fn dlsym(handle: *mut std::ffi::c_void, name: *const std::ffi::c_char) -> *mut std::ffi::c_void;
}

static CHOICE: AtomicUsize = AtomicUsize::new(0); // 0 = unresolved, 1 = absent, else fn pointer

/// Ask the simulator for a choice in 0..n. Without a simulator: always 0.
fn choice(kind: u32, n: u32) -> u32 {
    let mut p = CHOICE.load(Ordering::Relaxed);
    if p == 0 {
        let s = unsafe { dlsym(std::ptr::null_mut(), c"sim_pool_choice".as_ptr()) } as usize;
        p = if s == 0 { 1 } else { s };
        CHOICE.store(p, Ordering::Relaxed);
    }
    if p == 1 {
        return 0;
    }
    let f: ChoiceFn = unsafe { std::mem::transmute(p) };
    unsafe { f(kind, n) }
}

const K_NUM_THREADS: u32 = 0;
const K_ORDER: u32 = 1;
const K_STOLEN: u32 = 2;
const K_TASK: u32 = 3;

thread_local! { static WORKER: Cell<usize> = const { Cell::new(0) }; }

fn as_worker<R>(f: impl FnOnce() -> R) -> R {
    let n = current_num_threads();
    let w = choice(K_TASK, n as u32) as usize;
    let old = WORKER.with(|c| c.replace(w + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    WORKER.with(|c| c.set(old));
    match r {
        Ok(r) => r,
        Err(e) => resume_unwind(e),
    }
}

pub fn max_num_threads() -> usize {
    (1 << 16) - 1
}
pub fn current_num_threads() -> usize {
    choice(K_NUM_THREADS, 0).max(1) as usize
}
pub fn current_thread_index() -> Option<usize> {
    WORKER.with(|c| c.get()).checked_sub(1)
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    current_thread_index().map(|_| false)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    current_thread_index().map(|_| Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    current_thread_index().map(|_| Yield::Idle)
}

pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let stolen = choice(K_STOLEN, 2) == 1;
    let b_first = choice(K_ORDER, 2) == 1;
    let ca = FnContext { migrated: false, _m: PhantomData };
    let cb = FnContext { migrated: stolen, _m: PhantomData };
    let run_b = |b: B| {
        catch_unwind(AssertUnwindSafe(|| if stolen { as_worker(|| b(cb)) } else { b(cb) }))
    };
    let run_a = |a: A| catch_unwind(AssertUnwindSafe(|| a(ca)));
    let (ra, rb) = if b_first {
        let rb = run_b(oper_b);
        (run_a(oper_a), rb)
    } else {
        let ra = run_a(oper_a);
        (ra, run_b(oper_b))
    };
    match (ra, rb) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) => resume_unwind(e),
        (_, Err(e)) => resume_unwind(e),
    }
}

type Job<'s> = Box<dyn FnOnce() + 's>;

struct Queue {
    jobs: RefCell<Vec<Job<'static>>>,
    panic: RefCell<Option<Box<dyn Any + Send>>>,
}
impl Queue {
    fn new() -> Self {
        Queue { jobs: RefCell::new(Vec::new()), panic: RefCell::new(None) }
    }
    fn push(&self, job: Job<'_>) {
        // The scope does not return before the queue is drained, so 'scope outlives the job.
        let job: Job<'static> = unsafe { std::mem::transmute(job) };
        self.jobs.borrow_mut().push(job);
    }
    fn drain(&self) {
        loop {
            let n = self.jobs.borrow().len();
            if n == 0 {
                break;
            }
            let i = choice(K_ORDER, n as u32) as usize % n;
            let job = self.jobs.borrow_mut().remove(i);
            if let Err(e) = catch_unwind(AssertUnwindSafe(|| as_worker(job))) {
                self.panic.borrow_mut().get_or_insert(e);
            }
        }
    }
}

macro_rules! scope_type {
    ($name:ident, $spawn:ident) => {
        pub struct $name<'scope> {
            q: Queue,
            _m: PhantomData<Box<dyn FnOnce(&$name<'scope>) + Send + Sync + 'scope>>,
        }
        unsafe impl<'scope> Sync for $name<'scope> {}
        unsafe impl<'scope> Send for $name<'scope> {}
        impl<'scope> $name<'scope> {
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                let me: *const Self = self;
                self.q.push(Box::new(move || body(unsafe { &*me })));
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let me: *const Self = self;
                let n = current_num_threads();
                self.q.push(Box::new(move || {
                    for i in 0..n {
                        body(unsafe { &*me }, BroadcastContext { index: i, n, _m: PhantomData })
                    }
                }));
            }
            fn run<OP, R>(op: OP) -> R
            where
                OP: FnOnce(&$name<'scope>) -> R,
            {
                let s = $name { q: Queue::new(), _m: PhantomData };
                let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
                s.q.drain();
                let p = s.q.panic.borrow_mut().take();
                match (r, p) {
                    (Ok(r), None) => r,
                    (Err(e), _) => resume_unwind(e),
                    (_, Some(e)) => resume_unwind(e),
                }
            }
        }
        impl fmt::Debug for $name<'_> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($name))
            }
        }
    };
}
scope_type!(Scope, spawn);
scope_type!(ScopeFifo, spawn_fifo);

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    Scope::run(op)
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    ScopeFifo::run(op)
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    Scope::run(op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    ScopeFifo::run(op)
}

pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    as_worker(func)
}
pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    as_worker(func)
}

pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    (0..n).map(|index| op(BroadcastContext { index, n, _m: PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("simulated pool")
    }
}
impl Error for ThreadPoolBuildError {}

pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadBuilder")
    }
}

#[derive(Default, Debug)]
pub struct ThreadPoolBuilder;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn thread_name<F>(self, _f: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}

#[derive(Debug)]
pub struct ThreadPool;
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        as_worker(op)
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn(op)
    }
}
