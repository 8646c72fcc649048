//! Component worlds: one data structure of the real code, many simulated tasks around it.
use crate::hist::{self, rec, Ev};
use crate::scen::*;
use astro_run::{AstroRunSignal, RunResult, Signal, StreamExt};
use astro_run_protocol::RunnerMetadata;
use astro_run_scheduler::{DefaultScheduler, Scheduler};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::Arc;
use std::time::Duration;
use tokio::time::sleep;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MicroSpec {
    Stream(StreamSpec),
    Signal(SignalSpec),
    Sched(SchedSpec),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SOp {
    Log(u32),
    Err(u32),
    Yield,
    Sleep(u64),
    End(End),
    TimeoutEnd,
    /// looks whether the stream has ended
    Look,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct StreamSpec {
    pub senders: Vec<Vec<SOp>>,
    /// the consumer pauses (ms) before each of its first polls
    pub pauses: Vec<u64>,
    /// the receiver moves to a new task after each of these many lines
    pub moves: Vec<u32>,
    /// the consumer polls inside a select that also has a timer of this period
    pub select_ms: Option<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SignalSpec {
    /// requests: (delay, is cancel, yields before)
    pub reqs: Vec<(u64, bool, u32)>,
    /// when the receiver begins to wait
    pub recv_ms: u64,
    pub recv_yields: u32,
    /// the receiver drops its future and makes a new one with this period
    pub select_ms: Option<u64>,
    /// the receiver moves to a new task after so many periods
    pub moves: Vec<u32>,
    /// after the last move it waits without a period
    #[serde(default)]
    pub rest: bool,
    /// tasks that look at the state
    pub observers: Vec<Vec<u64>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RunnerSpec {
    pub id: String,
    pub os: String,
    pub arch: String,
    pub docker: bool,
    pub host: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SchedSpec {
    pub runners: Vec<RunnerSpec>,
    /// jobs: (key, steps: (container, work ms), delay before start)
    pub jobs: Vec<SJob>,
    /// the set of runners connected changes at these times
    pub sets: Vec<(u64, Vec<usize>)>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SJob {
    pub key: String,
    pub start_ms: u64,
    pub steps: Vec<(Option<String>, u64)>,
}

fn note(what: &str, detail: Value) -> usize {
    rec(Ev::Note { what: what.into(), detail })
}

pub async fn run(sc: Arc<Scenario>) {
    match sc.micro.clone().expect("micro") {
        MicroSpec::Stream(s) => stream(s).await,
        MicroSpec::Signal(s) => signal(s).await,
        MicroSpec::Sched(s) => sched(s).await,
    }
    sleep(Duration::from_millis(sc.settle_ms)).await;
}

fn res_of(e: End) -> RunResult {
    match e {
        End::Ok => RunResult::Succeeded,
        End::Fail(c) | End::Killed(c) => RunResult::Failed { exit_code: c },
        End::Cancelled => RunResult::Cancelled,
    }
}

async fn stream(s: StreamSpec) {
    let (tx, rx) = astro_run::stream();
    let mut handles = vec![];
    for (k, ops) in s.senders.iter().enumerate() {
        let tx = tx.clone();
        let ops = ops.clone();
        handles.push(tokio::spawn(async move {
            let mut i = 0;
            for (n, op) in ops.into_iter().enumerate() {
                match op {
                    SOp::Log(c) | SOp::Err(c) => {
                        let err = matches!(op, SOp::Err(_));
                        for _ in 0..c {
                            let m = format!("{}:{}", k, i);
                            i += 1;
                            note("log", json!({"m": m, "err": err}));
                            if err {
                                tx.error(m.clone());
                            } else {
                                tx.log(m.clone());
                            }
                            note("logged", json!({"m": m}));
                        }
                    }
                    SOp::Yield => tokio::task::yield_now().await,
                    SOp::Sleep(ms) => sleep(Duration::from_millis(ms)).await,
                    SOp::TimeoutEnd => {
                        note("end", json!({"k": k, "n": n, "res": "timeout"}));
                        tx.timeout();
                        note("ended", json!({"k": k, "n": n, "is_ended": tx.is_ended()}));
                    }
                    SOp::End(e) => {
                        let r = res_of(e);
                        note("end", json!({"k": k, "n": n, "res": hist::result_str(&r)}));
                        match (&r, n % 2) {
                            (RunResult::Succeeded, 0) => tx.succeeded(),
                            (RunResult::Failed { exit_code }, 0) => tx.failed(*exit_code),
                            (RunResult::Cancelled, 0) => tx.cancelled(),
                            _ => tx.end(r),
                        }
                        note("ended", json!({"k": k, "n": n, "is_ended": tx.is_ended()}));
                    }
                    SOp::Look => {
                        let call = note("look", json!({}));
                        let r = tx.is_ended();
                        note("looked", json!({"call": call, "r": r}));
                    }
                }
            }
        }));
    }
    drop(tx);
    let (dtx, drx) = tokio::sync::oneshot::channel();
    tokio::spawn(consume(s, rx, 0, 0, dtx));
    let _ = drx.await;
    for h in handles {
        let _ = h.await;
    }
}

fn consume(
    s: StreamSpec,
    mut rx: astro_run::StreamReceiver,
    mut got: u32,
    mut leg: usize,
    done: tokio::sync::oneshot::Sender<()>,
) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>> {
    Box::pin(async move {
        let mut here = 0;
        loop {
            if let Some(ms) = s.pauses.get(got as usize) {
                if *ms > 0 {
                    sleep(Duration::from_millis(*ms)).await;
                }
            }
            let item = match s.select_ms {
                None => rx.next().await,
                Some(ms) => loop {
                    tokio::select! {
                        _ = sleep(Duration::from_millis(ms)) => {}
                        i = rx.next() => break i,
                    }
                },
            };
            match item {
                Some(l) => {
                    got += 1;
                    here += 1;
                    note("got", json!({"m": l.message, "err": l.is_error(), "res": rx.result().map(|r| hist::result_str(&r))}));
                }
                None => {
                    for i in 0..3 {
                        note("eos", json!({"res": rx.result().map(|r| hist::result_str(&r))}));
                        sleep(Duration::from_millis(i * 40)).await;
                    }
                    note("eos", json!({"res": rx.result().map(|r| hist::result_str(&r))}));
                    done.send(()).ok();
                    return;
                }
            }
            if s.moves.get(leg) == Some(&here) {
                leg += 1;
                tokio::spawn(consume(s, rx, got, leg, done));
                return;
            }
        }
    })
}

async fn signal(s: SignalSpec) {
    let sig = AstroRunSignal::new();
    let mut hs = vec![];
    for (k, (ms, cancel, yields)) in s.reqs.iter().cloned().enumerate() {
        let sig = sig.clone();
        hs.push(tokio::spawn(async move {
            sleep(Duration::from_millis(ms)).await;
            for _ in 0..yields {
                tokio::task::yield_now().await;
            }
            note("req", json!({"k": k, "kind": if cancel { "cancel" } else { "timeout" }}));
            let ok = if cancel { sig.cancel() } else { sig.timeout() }.is_ok();
            note("res", json!({"k": k, "ok": ok}));
        }));
    }
    for (k, times) in s.observers.iter().cloned().enumerate() {
        let sig = sig.clone();
        hs.push(tokio::spawn(async move {
            for t in times {
                if t > 0 {
                    sleep(Duration::from_millis(t)).await;
                } else {
                    tokio::task::yield_now().await;
                }
                for kind in ["cancel", "timeout"] {
                    let call = note("look", json!({"k": k}));
                    let r = if kind == "cancel" { sig.is_cancelled() } else { sig.is_timeout() };
                    note("looked", json!({"k": k, "kind": kind, "r": r, "call": call}));
                }
            }
        }));
    }
    let (dtx, drx) = tokio::sync::oneshot::channel();
    tokio::spawn(wait_signal(s.clone(), sig, 0, true, dtx));
    let _ = drx.await;
    for h in hs {
        let _ = h.await;
    }
}
fn wait_signal(
    s: SignalSpec,
    sig: AstroRunSignal,
    leg: usize,
    first: bool,
    done: tokio::sync::oneshot::Sender<()>,
) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>> {
    Box::pin(async move {
        if first {
            if s.recv_ms > 0 {
                sleep(Duration::from_millis(s.recv_ms)).await;
            }
            for _ in 0..s.recv_yields {
                tokio::task::yield_now().await;
            }
        }
        note("wait", json!({}));
        let mut periods = 0;
        let got: Signal = match s.select_ms {
            Some(_) if s.rest && leg > 0 && leg == s.moves.len() => sig.recv().await,
            None => sig.recv().await,
            Some(ms) => loop {
                tokio::select! {
                    _ = sleep(Duration::from_millis(ms)) => { periods += 1; }
                    g = sig.recv() => break g,
                }
                if s.moves.get(leg) == Some(&periods) {
                    tokio::spawn(wait_signal(s, sig, leg + 1, false, done));
                    return;
                }
            },
        };
        note("got", json!(hist::sig_str(got)));
        // exactly once: a second wait never gets anything
        tokio::select! {
            g = sig.recv() => { note("got", json!(hist::sig_str(g))); }
            _ = sleep(Duration::from_millis(500)) => {}
        }
        done.send(()).ok();
    })
}

pub fn meta(r: &RunnerSpec) -> RunnerMetadata {
    RunnerMetadata {
        id: r.id.clone(),
        os: r.os.clone(),
        arch: r.arch.clone(),
        support_docker: r.docker,
        support_host: r.host,
        ..Default::default()
    }
}

pub fn context(wf: &str, key: &str, n: usize, cont: &Option<String>) -> astro_run::Context {
    let mut v = json!({
        "id": [wf, key, n], "name": null, "run": "true", "continue_on_error": false, "environments": {}, "secrets": [],
        "timeout": {"secs": 60, "nanos": 0}, "container": null,
    });
    if let Some(c) = cont {
        v["container"] = json!({"name": c, "volumes": null, "security-opts": null});
    }
    let command: astro_run::Command = serde_json::from_value(v).expect("command");
    astro_run::Context { id: command.id.clone(), signal: AstroRunSignal::new(), command, event: None, payload: None }
}

async fn sched(s: SchedSpec) {
    let sch = Arc::new(DefaultScheduler::new());
    let set = Arc::new(std::sync::Mutex::new((0..s.runners.len()).collect::<Vec<_>>()));
    for (ms, v) in s.sets.iter().cloned() {
        let set = set.clone();
        tokio::spawn(async move {
            sleep(Duration::from_millis(ms)).await;
            *set.lock().unwrap() = v;
        });
    }
    let mut hs = vec![];
    for j in s.jobs.iter().cloned() {
        let (sch, set, runners) = (sch.clone(), set.clone(), s.runners.clone());
        hs.push(tokio::spawn(async move {
            sleep(Duration::from_millis(j.start_ms)).await;
            for (n, (cont, work)) in j.steps.iter().enumerate() {
                let ctx = context("w", &j.key, n, cont);
                let avail: Vec<RunnerMetadata> = set.lock().unwrap().iter().map(|i| meta(&runners[*i])).collect();
                let names: Vec<String> = avail.iter().map(|r| r.id.clone()).collect();
                note("ask", json!({"id": ctx.id.to_string(), "job": j.key, "cont": cont, "runners": names}));
                let choice = sch.schedule(&avail, &ctx).await.map(|r| r.id.clone());
                note("choice", json!({"id": ctx.id.to_string(), "job": j.key, "choice": choice}));
                if *work > 0 {
                    sleep(Duration::from_millis(*work)).await;
                } else {
                    tokio::task::yield_now().await;
                }
                let res: astro_run::StepRunResult = serde_json::from_value(json!({
                    "id": ["w", j.key, n], "state": "succeeded", "exit_code": null, "started_at": null, "completed_at": null
                }))
                .expect("step result");
                note("done", json!({"id": ctx.id.to_string(), "job": j.key}));
                sch.on_step_completed(res);
                note("done-ret", json!({"id": ctx.id.to_string(), "job": j.key}));
            }
            let res: astro_run::JobRunResult = serde_json::from_value(json!({
                "id": ["w", j.key], "state": "succeeded", "steps": [], "started_at": null, "completed_at": null
            }))
            .expect("job result");
            note("job-done", json!({"job": j.key}));
            sch.on_job_completed(res);
        }));
    }
    for h in hs {
        let _ = h.await;
    }
    probe(&*sch, &s.runners.iter().map(meta).collect::<Vec<_>>(), s.jobs.iter().map(|j| ("w".to_string(), j.key.clone())).collect()).await;
}

/// When all work is over: every choice from here on must be that of a scheduler that has never
/// done any work.
pub async fn probe(sch: &dyn Scheduler, runners: &[RunnerMetadata], jobs: Vec<(String, String)>) {
    let capable: Vec<&RunnerMetadata> = runners.iter().filter(|r| r.support_docker).collect();
    if capable.is_empty() {
        return;
    }
    let mut count = std::collections::BTreeMap::new();
    let mut done = vec![];
    for i in 0..capable.len() * 3 {
        let key = format!("probe{}", i);
        let ctx = context("probe", &key, 0, &None);
        let c = sch.schedule(runners, &ctx).await.map(|r| r.id.clone()).unwrap_or_default();
        *count.entry(c).or_insert(0) += 1;
        done.push(key);
    }
    note("probe-balance", json!(count));
    // load every runner but one; the jobs of the run go to the free one if nothing ties them
    for key in &done {
        finish(sch, "probe", key);
    }
    for (w, k) in jobs {
        for free in &capable {
            let mut held = vec![];
            for (i, r) in capable.iter().enumerate() {
                if r.id != free.id {
                    for n in 0..2 {
                        let key = format!("load{}-{}", i, n);
                        let ctx = context("probe", &key, 0, &None);
                        sch.schedule(std::slice::from_ref(*r), &ctx).await;
                        held.push(key);
                    }
                }
            }
            let ctx = context(&w, &k, 999, &None);
            let c = sch.schedule(runners, &ctx).await.map(|r| r.id.clone());
            note("probe-tie", json!({"job": format!("{}/{}", w, k), "free": free.id, "choice": c}));
            held.push(String::new());
            for key in held {
                if key.is_empty() {
                    let step: astro_run::StepRunResult = serde_json::from_value(json!({
                        "id": [w, k, 999], "state": "succeeded", "exit_code": null, "started_at": null, "completed_at": null
                    }))
                    .unwrap();
                    sch.on_step_completed(step);
                    let job: astro_run::JobRunResult = serde_json::from_value(json!({
                        "id": [w, k], "state": "succeeded", "steps": [], "started_at": null, "completed_at": null
                    }))
                    .unwrap();
                    sch.on_job_completed(job);
                } else {
                    finish(sch, "probe", &key);
                }
            }
        }
    }
}
fn finish(sch: &dyn Scheduler, w: &str, k: &str) {
    let step: astro_run::StepRunResult = serde_json::from_value(json!({
        "id": [w, k, 0], "state": "succeeded", "exit_code": null, "started_at": null, "completed_at": null
    }))
    .unwrap();
    sch.on_step_completed(step);
    let job: astro_run::JobRunResult = serde_json::from_value(json!({
        "id": [w, k], "state": "succeeded", "steps": [], "started_at": null, "completed_at": null
    }))
    .unwrap();
    sch.on_job_completed(job);
}
