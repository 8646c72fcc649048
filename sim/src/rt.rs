//! One simulated run: a fresh thread, a virtual clock, the real code, one seed.
use crate::hist::{self, ObsInfo, Rec};
use crate::scen::{Scenario, World};
use simcore::{RunSummary, Trace};
use std::cell::RefCell;
use std::future::Future;
use std::sync::Arc;
use std::task::Poll;
use std::time::Duration;

pub struct RunOut {
    pub recs: Vec<Rec>,
    pub obs: Vec<ObsInfo>,
    pub sum: RunSummary,
    pub panics: Vec<String>,
    pub hung: bool,
    pub preemptions: u64,
    pub net: (u64, u64, u64),
    pub fs: Option<crate::os::FsWorld>,
    pub fs_end: crate::local::FsEnd,
}

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

pub fn install_panic_hook() {
    let verbose = std::env::var("ASTROSIM_PANICS").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        let msg = info.to_string();
        if verbose || !simcore::active() {
            eprintln!("panic: {}\n{}", msg, if std::env::var("ASTROSIM_BT").is_ok() { std::backtrace::Backtrace::force_capture().to_string() } else { String::new() });
        }
        let _ = PANICS.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                p.push(msg);
            }
        });
    }));
}

pub const STEP_LIMIT: u64 = 600_000;

pub fn execute(sc: &Scenario, seed: u64, trace: Option<&Trace>) -> RunOut {
    try_execute(sc, seed, trace).unwrap_or_else(|| {
        eprintln!("astrosim: the run's thread panicked (harness error), seed {}", seed);
        std::process::exit(2)
    })
}
pub fn try_execute(sc: &Scenario, seed: u64, trace: Option<&Trace>) -> Option<RunOut> {
    let sc = Arc::new(sc.clone());
    let trace = trace.cloned();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || on_thread(sc, seed, trace))
        .expect("thread")
        .join()
        .ok()
}

fn on_thread(sc: Arc<Scenario>, seed: u64, trace: Option<Trace>) -> RunOut {
    crate::os::set_thread_entropy(seed);
    hist::reset(sc.capture);
    simnet::reset_world();
    crate::local::prepare(&sc);
    match &trace {
        Some(t) => simcore::begin_replay(seed, t, STEP_LIMIT, sc.mt),
        None => simcore::begin_random(seed, sc.strat.to_core(), STEP_LIMIT, sc.mt),
    }
    let rt = {
        let _h = simcore::HostGuard::new();
        tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .build()
            .expect("runtime")
    };
    let mut hung = false;
    let mut drained = true;
    {
        let hung = &mut hung;
        let drained = &mut drained;
        let sc = sc.clone();
        rt.block_on(async move {
            let horizon = Duration::from_millis(sc.horizon_ms);
            let main = async {
                if sc.world == World::Micro {
                    crate::micro::run(sc.clone()).await
                } else {
                    crate::engine::run_system(sc.clone()).await
                }
            };
            let mut main = Box::pin(tokio::time::timeout(horizon, main));
            let done = std::future::poll_fn(|cx| {
                if simcore::is_fatal() {
                    return Poll::Ready(None);
                }
                main.as_mut().poll(cx).map(Some)
            })
            .await;
            if let Some(Err(_)) = done {
                *hung = true;
            }
            hist::freeze();
            *drained = simcore::co::drain();
        });
    }
    let preemptions = simcore::co::preemptions();
    let net = simnet::stats();
    let fs_end = crate::local::end_of_run(&sc);
    // the runtime is dropped inside the simulated world: destructors must not reach the real one
    if drained {
        drop(rt);
    } else {
        std::mem::forget(rt);
    }
    simnet::reset_world();
    let sum = simcore::end();
    let fs = crate::local::cleanup();
    tokio::process::sim::set_handler(None);
    octocrate_core::sim::set_handler(None);
    let (recs, obs) = hist::take();
    let panics = PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()));
    RunOut { recs, obs, sum, panics, hung, preemptions, net, fs, fs_end }
}

/// A fingerprint of everything that was observed.
pub fn fingerprint(o: &RunOut) -> u64 {
    use std::hash::{Hash, Hasher};
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    o.sum.hash.hash(&mut h);
    o.sum.steps.hash(&mut h);
    o.sum.decisions.hash(&mut h);
    for r in &o.recs {
        (r.seq, r.t, r.node).hash(&mut h);
        anonymous(serde_json::to_string(&r.ev).unwrap_or_default()).hash(&mut h);
    }
    h.finish()
}
/// Without the name of the scratch directory, which differs between processes.
fn anonymous(mut s: String) -> String {
    let mut at = 0;
    while let Some(i) = s[at..].find("astrosim-") {
        let from = at + i + "astrosim-".len();
        let to = s[from..].find(|c: char| !c.is_ascii_digit() && c != '-').map(|k| from + k).unwrap_or(s.len());
        s.replace_range(from..to, "");
        at = from;
    }
    s
}
/// The interleaving: which events happened in which order, whatever their times.
pub fn shape(o: &RunOut) -> u64 {
    use std::hash::{Hash, Hasher};
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    for r in &o.recs {
        r.node.hash(&mut h);
        std::mem::discriminant(&r.ev).hash(&mut h);
        match &r.ev {
            crate::hist::Ev::Hook { o, h: k } => {
                (*o, k.id()).hash(&mut h);
                std::mem::discriminant(k).hash(&mut h);
            }
            crate::hist::Ev::Exit { of, .. } => of.hash(&mut h),
            crate::hist::Ev::Proc { what, detail, .. } => (what, detail["tag"].as_str()).hash(&mut h),
            crate::hist::Ev::Note { what, detail } => (what, detail.to_string()).hash(&mut h),
            e => anonymous(serde_json::to_string(e).unwrap_or_default()).hash(&mut h),
        }
    }
    h.finish()
}
