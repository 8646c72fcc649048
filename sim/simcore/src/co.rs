//! Coroutine pool: in multi-threaded mode every task poll runs on a coroutine, so that it can be
//! suspended in the middle, at a lock operation, while other tasks run.  This reproduces what a
//! multi-threaded executor does at the granularity of lock operations.
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};

type Job = Box<dyn FnOnce()>;
#[derive(Clone, Copy, PartialEq)]
enum Y {
    Idle,
    Ready,
    Blocked(usize),
}
type Input = Option<Job>;
type Co = Coroutine<Input, Y, (), DefaultStack>;

struct Worker {
    co: Co,
    blocked: Option<usize>,
    node: u32,
    tls: [u64; 4],
    id: u64,
}

#[derive(Default)]
struct Pool {
    idle: Vec<Co>,
    suspended: Vec<Worker>,
}

thread_local! {
    static POOL: RefCell<Pool> = RefCell::new(Pool::default());
    static YIELDER: Cell<*const Yielder<Input, Y>> = const { Cell::new(std::ptr::null()) };
    static NO_PREEMPT: Cell<u32> = const { Cell::new(0) };
    static HOOKS: Cell<Option<(fn() -> [u64; 4], fn([u64; 4]))>> = const { Cell::new(None) };
    static PREEMPTIONS: Cell<u64> = const { Cell::new(0) };
}

/// How the executor saves and restores its own thread-local state around a suspension.
pub fn set_hooks(save: fn() -> [u64; 4], restore: fn([u64; 4])) {
    HOOKS.with(|h| h.set(Some((save, restore))));
}

fn new_co() -> Co {
    let stack = DefaultStack::new(512 * 1024).expect("stack");
    Coroutine::with_stack(stack, |y: &Yielder<Input, Y>, first: Input| {
        YIELDER.with(|c| c.set(y as *const _));
        let mut job = first;
        loop {
            match job.take() {
                Some(j) => j(),
                None => return,
            }
            job = y.suspend(Y::Idle);
            YIELDER.with(|c| c.set(y as *const _));
        }
    })
}

struct Resume {
    co: Co,
    node: u32,
    tls: Option<[u64; 4]>,
    id: u64,
    input: Input,
}

fn drive(mut r: Resume) {
    let hooks = HOOKS.with(|h| h.get());
    let outer_tls = hooks.map(|(s, _)| s());
    let outer_node = super::set_node(r.node);
    let outer_yielder = YIELDER.with(|y| y.get());
    if let (Some(t), Some((_, restore))) = (r.tls, hooks) {
        restore(t);
    }
    let res = r.co.resume(r.input.take());
    YIELDER.with(|y| y.set(outer_yielder));
    let node = super::set_node(outer_node);
    let tls = hooks.map(|(s, _)| s()).unwrap_or_default();
    if let (Some(t), Some((_, restore))) = (outer_tls, hooks) {
        restore(t);
    }
    match res {
        CoroutineResult::Yield(Y::Idle) => POOL.with(|p| p.borrow_mut().idle.push(r.co)),
        CoroutineResult::Yield(y) => POOL.with(|p| {
            p.borrow_mut().suspended.push(Worker {
                co: r.co,
                blocked: if let Y::Blocked(a) = y { Some(a) } else { None },
                node,
                tls,
                id: r.id,
            })
        }),
        CoroutineResult::Return(()) => {}
    }
}

/// Runs `job` on a coroutine until it finishes or is pre-empted.
pub fn run(id: u64, job: Job) {
    let co = POOL.with(|p| p.borrow_mut().idle.pop()).unwrap_or_else(new_co);
    drive(Resume { co, node: super::current_node(), tls: None, id, input: Some(job) });
}

pub fn runnable() -> usize {
    POOL.with(|p| p.borrow().suspended.iter().filter(|w| w.blocked.is_none()).count())
}
pub fn suspended() -> usize {
    POOL.with(|p| p.borrow().suspended.len())
}
pub fn runnable_id(i: usize) -> u64 {
    POOL.with(|p| p.borrow().suspended.iter().filter(|w| w.blocked.is_none()).nth(i).map(|w| w.id).unwrap_or(0))
}
/// Resumes the i-th runnable suspended poll.
pub fn resume(i: usize) {
    let w = POOL.with(|p| {
        let mut p = p.borrow_mut();
        let pos = p.suspended.iter().enumerate().filter(|(_, w)| w.blocked.is_none()).nth(i).map(|(k, _)| k);
        pos.map(|k| p.suspended.remove(k))
    });
    if let Some(w) = w {
        drive(Resume { co: w.co, node: w.node, tls: Some(w.tls), id: w.id, input: None });
    }
}

fn do_suspend(y: Y) {
    let p = YIELDER.with(|c| c.get());
    // SAFETY: a yielder lives as long as its coroutine, and this code runs on that coroutine.
    let yielder = unsafe { &*p };
    let _ = yielder.suspend(y);
    YIELDER.with(|c| c.set(p));
}

fn can_suspend() -> bool {
    !YIELDER.with(|c| c.get()).is_null() && !std::thread::panicking()
}

/// A point at which a multi-threaded executor may run other tasks.
pub fn lock_point() {
    if !super::mt() || NO_PREEMPT.with(|n| n.get()) > 0 || !can_suspend() {
        return;
    }
    if super::flip("lk", super::strategy_lock()) {
        PREEMPTIONS.with(|p| p.set(p.get() + 1));
        do_suspend(Y::Ready);
    }
}

/// The lock at `addr` is held by a suspended poll: let others run until it may be free.
pub fn blocked_on(addr: usize) {
    if !can_suspend() {
        // the root task or the driver: run the holders from here
        if runnable() > 0 {
            resume(0);
            return;
        }
        super::fatal("deadlock: a lock is held for ever");
        panic!("simulated deadlock");
    }
    do_suspend(Y::Blocked(addr));
}

/// The lock at `addr` was released.
pub fn unlocked(addr: usize) {
    POOL.with(|p| {
        if let Ok(mut p) = p.try_borrow_mut() {
            for w in p.suspended.iter_mut() {
                if w.blocked == Some(addr) {
                    w.blocked = None;
                }
            }
        }
    });
}

pub fn preemptions() -> u64 {
    PREEMPTIONS.with(|p| p.replace(0))
}

/// At the end of a run: whatever is still suspended runs to its end without further pre-emption.
/// False if tasks are deadlocked on locks, which then stay locked.
pub fn drain() -> bool {
    let mut leaked = false;
    NO_PREEMPT.with(|n| n.set(n.get() + 1));
    let mut guard = 0;
    while suspended() > 0 {
        guard += 1;
        if runnable() > 0 && guard < 10_000 {
            resume(0);
        } else {
            // deadlocked on locks: leak the stacks, the run is over
            leaked = true;
            POOL.with(|p| {
                for w in std::mem::take(&mut p.borrow_mut().suspended) {
                    std::mem::forget(w.co);
                }
            });
        }
    }
    NO_PREEMPT.with(|n| n.set(n.get() - 1));
    let idle = POOL.with(|p| std::mem::take(&mut p.borrow_mut().idle));
    for mut co in idle {
        co.resume(None);
    }
    // a coroutine sets it whenever it is resumed, and these are gone
    YIELDER.with(|y| y.set(std::ptr::null()));
    !leaked
}
