//! Core of the deterministic simulator.
//!
//! Everything a run depends on is decided here: one seeded source of decisions (`choose`), one
//! virtual clock, the table of simulated nodes, and the coroutine pool which lets the simulated
//! multi-threaded executor pre-empt a task at a lock operation.  All state is thread local: one
//! simulated run owns one OS thread.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::task::Waker;
use std::time::Duration;

pub mod atomics;
pub mod co;

/// xoshiro256** seeded by splitmix64.
#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(mut seed: u64) -> Rng {
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            seed = seed.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = seed;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            *v = z ^ (z >> 31);
        }
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

/// How the decisions of a run are biased; drawn from the run's seed.
#[derive(Clone, Debug)]
pub struct Strategy {
    /// probability (in 1/1000) that the scheduler departs from FIFO order at a step
    pub sched: u32,
    /// PCT style: number of priority change points (0 = off)
    pub pct: u32,
    /// probability (in 1/1000) of a pre-emption at a lock operation
    pub lock: u32,
    /// probability (in 1/1000) that select! starts at a random branch
    pub select: u32,
    /// probability (in 1/1000) of a non-default latency/chunking choice
    pub net: u32,
    /// probability (in 1/1000) of a non-default outcome of an operation that may fail
    pub fault: u32,
}
impl Default for Strategy {
    fn default() -> Self {
        Strategy { sched: 1000, pct: 0, lock: 0, select: 1000, net: 1000, fault: 0 }
    }
}

pub type Trace = BTreeMap<String, BTreeMap<u32, u32>>;

enum Source {
    Random(Rng, Strategy),
    Replay(Trace),
}

pub struct Fatal {
    pub what: String,
}

struct World {
    source: Source,
    counters: HashMap<&'static str, u32>,
    recorded: HashMap<&'static str, BTreeMap<u32, u32>>,
    decisions: u64,
    nondefault: u64,
    hash: u64,
    sched_steps: u64,
    step_limit: u64,
    now_ns: u64,
    wall_skew_ns: i64,
    fatal: Option<Fatal>,
    faults: BTreeMap<String, u64>,
    waits: Vec<(u64, u64)>,
    nodes: HashMap<u32, NodeState>,
    node_tasks: HashMap<u32, Vec<Box<dyn FnOnce()>>>,
    pct_prio: HashMap<u64, u64>,
    pct_changes: Vec<u64>,
    task_base: Option<u64>,
    mt: bool,
    os_entropy: Rng,
}

#[derive(Default)]
struct NodeState {
    dead: bool,
    stalled_until_ns: u64,
    stalled_wakers: Vec<Waker>,
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static NODE: Cell<u32> = const { Cell::new(0) };
    /// set while simulator code performs operating system calls of its own
    static HOST: Cell<u32> = const { Cell::new(0) };
}

/// Epoch of the virtual wall clock: 2023-11-14T22:13:20Z.
pub const WALL_EPOCH_NS: i64 = 1_700_000_000_000_000_000;
/// Value of the virtual monotonic clock at the start of a run.
pub const MONO_EPOCH_NS: u64 = 1_000_000_000_000;

pub struct RunSummary {
    pub decisions: u64,
    pub nondefault: u64,
    pub hash: u64,
    pub steps: u64,
    pub now: Duration,
    pub trace: Trace,
    pub fatal: Option<String>,
    pub faults: BTreeMap<String, u64>,
    /// The spells a blocking operation was held up.
    pub waits: Vec<(u64, u64)>,
}

pub fn begin_random(seed: u64, strategy: Strategy, step_limit: u64, mt: bool) {
    begin(Source::Random(Rng::new(seed), strategy), seed, step_limit, mt)
}
pub fn begin_replay(seed: u64, trace: &Trace, step_limit: u64, mt: bool) {
    let m = trace.clone();
    begin(Source::Replay(m), seed, step_limit, mt)
}
fn begin(source: Source, seed: u64, step_limit: u64, mt: bool) {
    let mut pct_changes = vec![];
    let mut source = source;
    if let Source::Random(rng, s) = &mut source {
        for _ in 0..s.pct {
            pct_changes.push(rng.below(600));
        }
    }
    WORLD.with(|w| {
        *w.borrow_mut() = Some(World {
            source,
            counters: HashMap::new(),
            recorded: HashMap::new(),
            decisions: 0,
            nondefault: 0,
            hash: 0xcbf29ce484222325,
            sched_steps: 0,
            step_limit,
            now_ns: 0,
            wall_skew_ns: 0,
            fatal: None,
            faults: BTreeMap::new(),
            waits: vec![],
            nodes: HashMap::new(),
            node_tasks: HashMap::new(),
            pct_prio: HashMap::new(),
            pct_changes,
            task_base: None,
            mt,
            os_entropy: Rng::new(seed ^ 0x05_E17_0B7),
        })
    });
    NODE.with(|n| n.set(0));
    ACTIVE.with(|a| a.set(true));
}

pub fn end() -> RunSummary {
    ACTIVE.with(|a| a.set(false));
    let w = WORLD.with(|w| w.borrow_mut().take()).expect("no world");
    RunSummary {
        decisions: w.decisions,
        nondefault: w.nondefault,
        hash: w.hash,
        steps: w.sched_steps,
        now: Duration::from_nanos(w.now_ns),
        trace: w.recorded.into_iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (k.to_string(), v)).collect(),
        fatal: w.fatal.map(|f| f.what),
        faults: w.faults,
        waits: w.waits,
    }
}

pub fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

fn with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    if !active() {
        return None;
    }
    WORLD.with(|w| w.borrow_mut().as_mut().map(f))
}

/// Marks a section in which system calls belong to the simulator, not to the code under test.
pub struct HostGuard;
impl HostGuard {
    pub fn new() -> HostGuard {
        HOST.with(|h| h.set(h.get() + 1));
        HostGuard
    }
}
impl Default for HostGuard {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for HostGuard {
    fn drop(&mut self) {
        HOST.with(|h| h.set(h.get() - 1));
    }
}
pub fn in_host() -> bool {
    HOST.try_with(|h| h.get() > 0).unwrap_or(true)
}

impl World {
    fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    fn record(&mut self, label: &'static str, n: usize, v: usize) -> usize {
        let c = self.counters.entry(label).or_insert(0);
        let idx = *c;
        *c += 1;
        self.decisions += 1;
        if v != 0 {
            self.nondefault += 1;
            self.recorded.entry(label).or_default().insert(idx, v as u32);
        }
        self.mix((n as u64) << 32 | v as u64);
        v
    }
    fn replayed(&mut self, label: &'static str, n: usize) -> Option<usize> {
        match &self.source {
            Source::Random(..) => None,
            Source::Replay(m) => {
                let idx = self.counters.get(label).copied().unwrap_or(0);
                Some(m.get(label).and_then(|t| t.get(&idx)).map(|v| *v as usize % n).unwrap_or(0))
            }
        }
    }
}

/// The decision source: a value below `n`; 0 is the undisturbed choice.
/// `p` is the probability, in 1/1000, of drawing a value at all (otherwise 0).
pub fn choose_p(label: &'static str, n: usize, p: u32) -> usize {
    if n <= 1 {
        return 0;
    }
    with(|w| {
        let v = match w.replayed(label, n) {
            Some(v) => v,
            None => match &mut w.source {
                Source::Random(rng, _) => {
                    if p >= 1000 || rng.below(1000) < p as u64 {
                        rng.below(n as u64) as usize
                    } else {
                        0
                    }
                }
                _ => 0,
            },
        };
        w.record(label, n, v)
    })
    .unwrap_or(0)
}
pub fn choose(label: &'static str, n: usize) -> usize {
    choose_p(label, n, 1000)
}
/// true with probability p/1000; false is the undisturbed choice
pub fn flip(label: &'static str, p: u32) -> bool {
    with(|w| {
        let v = match w.replayed(label, 2) {
            Some(v) => v,
            None => match &mut w.source {
                Source::Random(rng, _) => (rng.below(1000) < p as u64) as usize,
                _ => 0,
            },
        };
        w.record(label, 2, v)
    })
    .unwrap_or(0)
        == 1
}

pub fn strategy() -> Strategy {
    with(|w| match &w.source {
        Source::Random(_, s) => s.clone(),
        _ => Strategy::default(),
    })
    .unwrap_or_default()
}

/// Which of `ids` (the runnable tasks, in FIFO order) runs next.
pub fn choose_task(ids: &dyn Fn(usize) -> u64, n: usize) -> usize {
    // `ids` may look at the world: evaluate it before borrowing it
    let ids: Vec<u64> = if n > 1 { (0..n).map(ids).collect() } else { vec![] };
    let r = with(|w| {
        w.sched_steps += 1;
        let step = w.sched_steps;
        if step > w.step_limit && w.fatal.is_none() {
            w.fatal = Some(Fatal { what: "step limit exceeded (livelock)".into() });
        }
        if n <= 1 {
            return 0;
        }
        let v = match w.replayed("sched", n) {
            Some(v) => v,
            None => {
                let World { source, pct_prio, pct_changes, .. } = w;
                match source {
                    Source::Random(rng, s) => {
                        if s.pct > 0 {
                            let mut best = 0;
                            let mut best_p = 0;
                            for i in 0..n {
                                let p = *pct_prio.entry(ids[i]).or_insert_with(|| 1000 + rng.below(1 << 40));
                                if p > best_p {
                                    best_p = p;
                                    best = i;
                                }
                            }
                            if pct_changes.contains(&step) {
                                let low = rng.below(1000);
                                pct_prio.insert(ids[best], low);
                            }
                            // a little randomness keeps low-priority tasks from starving for ever
                            if rng.below(16) == 0 {
                                best = rng.below(n as u64) as usize;
                            }
                            best
                        } else if rng.below(1000) < s.sched as u64 {
                            rng.below(n as u64) as usize
                        } else {
                            0
                        }
                    }
                    _ => 0,
                }
            }
        };
        w.record("sched", n, v)
    });
    let v = r.unwrap_or(0);
    if n > 1 && active() {
        // make the interleaving itself (who ran) part of the run's identity
        let id = ids[v];
        with(|w| w.mix(id.wrapping_mul(0x9E3779B97F4A7C15)));
    }
    v
}

pub(crate) fn strategy_lock() -> u32 {
    with(|w| match &w.source {
        Source::Random(_, s) => s.lock,
        _ => 0,
    })
    .unwrap_or(0)
}

pub fn select_start(n: u32) -> u32 {
    let p = with(|w| match &w.source {
        Source::Random(_, s) => s.select,
        _ => 1000,
    })
    .unwrap_or(1000);
    choose_p("sel", n as usize, p) as u32
}

pub fn fatal(what: impl Into<String>) {
    let what = what.into();
    with(|w| {
        if w.fatal.is_none() {
            w.fatal = Some(Fatal { what });
        }
    });
}
pub fn is_fatal() -> bool {
    with(|w| w.fatal.is_some()).unwrap_or(false)
}

pub fn mt() -> bool {
    with(|w| w.mt).unwrap_or(false)
}

/// To be called at every spawn.
pub fn note_task(id: u64) {
    with(|w| {
        w.task_base.get_or_insert(id);
    });
}
/// Executor task ids come from a process-wide counter; this makes them relative to the run.
pub fn relative_task_id(id: u64) -> u64 {
    with(|w| id.wrapping_sub(*w.task_base.get_or_insert(id))).unwrap_or(id)
}

// ---- time -----------------------------------------------------------------------------------

pub fn now_ns() -> u64 {
    with(|w| w.now_ns).unwrap_or(0)
}
pub fn now() -> Duration {
    Duration::from_nanos(now_ns())
}
pub fn advance(d: Duration) {
    with(|w| w.now_ns += d.as_nanos() as u64);
}
pub fn wall_ns() -> i64 {
    with(|w| WALL_EPOCH_NS + w.now_ns as i64 + w.wall_skew_ns).unwrap_or(WALL_EPOCH_NS)
}
pub fn wall_jump(delta_ns: i64) {
    with(|w| w.wall_skew_ns += delta_ns);
}
pub fn entropy(buf: &mut [u8]) {
    with(|w| {
        for b in buf.iter_mut() {
            *b = w.os_entropy.next() as u8;
        }
    });
}

// ---- fault accounting -----------------------------------------------------------------------

pub fn fault(kind: &str) {
    with(|w| {
        *w.faults.entry(kind.to_string()).or_insert(0) += 1;
        let h = kind.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
        w.mix(h);
    });
}

/// A blocking operation takes this long.
pub fn note_wait(d: Duration) {
    with(|w| w.waits.push((w.now_ns, w.now_ns + d.as_nanos() as u64)));
}

// ---- nodes ----------------------------------------------------------------------------------

pub fn current_node() -> u32 {
    NODE.with(|n| n.get())
}
pub fn set_node(n: u32) -> u32 {
    NODE.with(|c| c.replace(n))
}
pub fn node_dead(n: u32) -> bool {
    with(|w| w.nodes.get(&n).map(|s| s.dead).unwrap_or(false)).unwrap_or(false)
}
pub fn node_stalled(n: u32, waker: &Waker) -> bool {
    with(|w| {
        let now = w.now_ns;
        match w.nodes.get_mut(&n) {
            Some(s) if s.stalled_until_ns > now => {
                s.stalled_wakers.push(waker.clone());
                true
            }
            _ => false,
        }
    })
    .unwrap_or(false)
}
pub fn stall_node(n: u32, until_ns: u64) {
    with(|w| {
        let s = w.nodes.entry(n).or_default();
        s.stalled_until_ns = s.stalled_until_ns.max(until_ns);
    });
}
/// To be called when virtual time has reached the end of a stall.
pub fn unstall_node(n: u32) {
    let wakers = with(|w| {
        let now = w.now_ns;
        match w.nodes.get_mut(&n) {
            Some(s) if s.stalled_until_ns <= now => std::mem::take(&mut s.stalled_wakers),
            _ => vec![],
        }
    })
    .unwrap_or_default();
    for w in wakers {
        w.wake();
    }
}
/// The process of this node stops here: none of its tasks runs again.
pub fn kill_node(n: u32) {
    with(|w| w.nodes.entry(n).or_default().dead = true);
    let hooks = with(|w| w.node_tasks.remove(&n)).flatten().unwrap_or_default();
    for h in hooks {
        h();
    }
}
/// Registered by the executor for every task of a node other than 0.
pub fn register_task(n: u32, abort: Box<dyn FnOnce()>) {
    with(|w| w.node_tasks.entry(n).or_default().push(abort));
}
