//! The recorded history of one simulated run.  Everything the oracles judge is in here.
use astro_run::{RunResult, Signal, WorkflowState};
use serde::Serialize;
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::sync::Arc;
use tokio::sync::Notify;

/// A hook call as an observer (a plugin or a runner) received it.
#[derive(Clone, Debug, PartialEq, Serialize)]
pub enum H {
    RunWf { id: String, def: Value },
    RunJob { id: String, def: Value },
    Before { id: String, def: Value },
    BeforeOut { id: String, def: Option<Value> },
    RunStep { id: String, def: Value },
    State { lvl: char, id: String, state: WorkflowState },
    Log { id: String, err: bool, msg: String },
    StepDone { id: String, res: Value },
    JobDone { id: String, res: Value },
    WfDone { id: String, res: Value },
}
impl H {
    pub fn id(&self) -> &str {
        match self {
            H::RunWf { id, .. }
            | H::RunJob { id, .. }
            | H::Before { id, .. }
            | H::BeforeOut { id, .. }
            | H::RunStep { id, .. }
            | H::State { id, .. }
            | H::Log { id, .. }
            | H::StepDone { id, .. }
            | H::JobDone { id, .. }
            | H::WfDone { id, .. } => id,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize)]
pub enum Ev {
    Built { w: usize, ok: bool, err: String },
    Begin { w: usize },
    End { w: usize, res: Value },
    /// observer `o` entered a hook
    Hook { o: usize, h: H },
    /// the hook entered at record `of` returned
    Exit { o: usize, of: usize, failed: bool },
    /// the engine handed a step to its runner
    Run { id: String, def: Value },
    RunRet { id: String, ok: bool },
    /// what the (scripted) runner at `site` did
    Start { site: usize, id: String, def: Value },
    /// (`of` is the record of its start)
    Emit { site: usize, of: usize, id: String, err: bool, msg: String },
    Sig { site: usize, of: usize, id: String, kind: String },
    EndCall { site: usize, of: usize, id: String, res: String },
    CancelReq { n: usize, job: String },
    CancelRes { n: usize, job: String, ok: bool },
    Fault { what: String },
    Sched { id: String, docker: bool, runners: Vec<String>, choice: Option<String>, cont: Option<String> },
    Api { n: usize, url: String, auth: bool, outcome: String },
    Proc { pid: u32, what: String, detail: Value },
    Local { site: usize, what: String, id: String, detail: Value },
    Note { what: String, detail: Value },
}

#[derive(Clone, Debug, Serialize)]
pub struct Rec {
    pub seq: usize,
    pub t: u64,
    pub node: u32,
    pub ev: Ev,
}
impl Rec {
    pub fn ms(&self) -> f64 {
        self.t as f64 / 1e6
    }
}

#[derive(Clone, Debug, Serialize)]
pub struct ObsInfo {
    /// 0: the engine; k > 0: the k-th incarnation of a remote runner
    pub site: usize,
    /// -1: the runner
    pub idx: i32,
}

#[derive(Default)]
struct Hist {
    recs: Vec<Rec>,
    obs: Vec<ObsInfo>,
    waits: HashMap<String, Vec<(u32, Arc<Notify>)>>,
    frozen: bool,
}
thread_local! {
    static HIST: RefCell<Hist> = RefCell::new(Hist::default());
    static CAPTURE: Cell<bool> = const { Cell::new(false) };
}

pub fn reset(capture: bool) {
    HIST.with(|h| *h.borrow_mut() = Hist::default());
    CAPTURE.with(|c| c.set(capture));
}
pub fn capture() -> bool {
    CAPTURE.with(|c| c.get())
}
pub fn freeze() {
    HIST.with(|h| h.borrow_mut().frozen = true)
}
pub fn take() -> (Vec<Rec>, Vec<ObsInfo>) {
    HIST.with(|h| {
        let mut h = h.borrow_mut();
        (std::mem::take(&mut h.recs), std::mem::take(&mut h.obs))
    })
}
pub fn register_obs(site: usize, idx: i32) -> usize {
    HIST.with(|h| {
        let mut h = h.borrow_mut();
        h.obs.push(ObsInfo { site, idx });
        h.obs.len() - 1
    })
}
/// A notification for the nth (from 0) record with this key.
pub fn wait_for(key: &str, nth: u32) -> Arc<Notify> {
    let n = Arc::new(Notify::new());
    HIST.with(|h| h.borrow_mut().waits.entry(key.to_string()).or_default().push((nth, n.clone())));
    n
}

pub fn state_str(s: &WorkflowState) -> &'static str {
    match s {
        WorkflowState::Pending => "pending",
        WorkflowState::Queued => "queued",
        WorkflowState::InProgress => "in_progress",
        WorkflowState::Succeeded => "succeeded",
        WorkflowState::Failed => "failed",
        WorkflowState::Cancelled => "cancelled",
        WorkflowState::Skipped => "skipped",
    }
}
pub fn result_str(r: &RunResult) -> String {
    match r {
        RunResult::Succeeded => "succeeded".into(),
        RunResult::Failed { exit_code } => format!("failed:{}", exit_code),
        RunResult::Cancelled => "cancelled".into(),
    }
}
pub fn sig_str(s: Signal) -> &'static str {
    match s {
        Signal::Cancel => "cancel",
        Signal::Timeout => "timeout",
    }
}

/// Keys by which controls can wait for a moment of the run (engine side, first observer only).
fn key_of(ev: &Ev) -> Option<String> {
    Some(match ev {
        Ev::Hook { o: 0, h } => match h {
            H::RunWf { id, .. } => format!("wf:{}", id),
            H::RunJob { id, .. } => format!("job:{}", id),
            H::RunStep { id, .. } => format!("step:{}", id),
            H::State { id, state, .. } => format!("state:{}:{}", id, state_str(state)),
            H::Log { id, .. } => format!("log:{}", id),
            H::StepDone { id, .. } => format!("done:{}", id),
            H::JobDone { id, .. } => format!("done:{}", id),
            H::WfDone { id, .. } => format!("done:{}", id),
            _ => return None,
        },
        Ev::Run { id, .. } => format!("run:{}", id),
        Ev::Start { id, .. } => format!("start:{}", id),
        Ev::Emit { id, .. } => format!("emit:{}", id),
        Ev::Sig { id, .. } => format!("sig:{}", id),
        Ev::EndCall { id, .. } => format!("end:{}", id),
        Ev::CancelRes { job, ok: true, .. } => format!("cancelled:{}", job),
        Ev::Api { n, .. } => format!("api:{}", n),
        Ev::Begin { w } => format!("begin:{}", w),
        Ev::End { w, .. } => format!("ended:{}", w),
        _ => return None,
    })
}

pub fn rec(ev: Ev) -> usize {
    HIST.with(|h| {
        let mut h = h.borrow_mut();
        if h.frozen {
            return 0;
        }
        if !h.waits.is_empty() {
            if let Some(k) = key_of(&ev) {
                if let Some(v) = h.waits.get_mut(&k) {
                    v.retain_mut(|(nth, n)| {
                        if *nth == 0 {
                            n.notify_one();
                            false
                        } else {
                            *nth -= 1;
                            true
                        }
                    });
                }
            }
        }
        let seq = h.recs.len();
        h.recs.push(Rec { seq, t: simcore::now_ns(), node: simcore::current_node(), ev });
        seq
    })
}
pub fn len() -> usize {
    HIST.with(|h| h.borrow().recs.len())
}
