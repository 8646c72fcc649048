//! The parts of the simulated system the harness supplies: observers, the scripted runner, the
//! recorder in front of whichever runner is under test, and the worlds which put them together
//! with the real engine.
use crate::hist::{self, rec, Ev, H};
use crate::scen::*;
use astro_run::{
    AstroRun, AstroRunPlugin, Context, Error, HookBeforeRunStepResult, HookNoopResult, JobRunResult, Plugin, RunJobEvent,
    RunResult, RunStepEvent, RunWorkflowEvent, Runner, Signal, Step, StepRunResult, StreamSender, Workflow, WorkflowLog,
    WorkflowRunResult, WorkflowStateEvent,
};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::sleep;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct SimPayload {
    pub msg: String,
}
#[typetag::serde]
impl astro_run::ContextPayloadExt for SimPayload {
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
}

pub fn val<T: serde::Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap_or(Value::Null)
}
fn cap<T: serde::Serialize>(t: &T) -> Value {
    if hist::capture() {
        val(t)
    } else {
        Value::Null
    }
}

/// Spawns a task belonging to a node.
pub fn spawn_on<F>(node: u32, f: F) -> tokio::task::JoinHandle<F::Output>
where
    F: std::future::Future + Send + 'static,
    F::Output: Send + 'static,
{
    let old = simcore::set_node(node);
    let h = tokio::spawn(f);
    simcore::set_node(old);
    h
}

// ---- observers ----------------------------------------------------------------------------------

pub fn state_h(e: WorkflowStateEvent) -> H {
    match e {
        WorkflowStateEvent::WorkflowStateUpdated { id, state } => H::State { lvl: 'w', id: id.to_string(), state },
        WorkflowStateEvent::JobStateUpdated { id, state } => H::State { lvl: 'j', id: id.to_string(), state },
        WorkflowStateEvent::StepStateUpdated { id, state } => H::State { lvl: 's', id: id.to_string(), state },
    }
}
fn h_run_wf(e: &RunWorkflowEvent) -> H {
    H::RunWf { id: e.source.id.to_string(), def: cap(e) }
}
fn h_run_job(e: &RunJobEvent) -> H {
    H::RunJob { id: e.source.id.to_string(), def: cap(e) }
}
fn h_run_step(e: &RunStepEvent) -> H {
    H::RunStep { id: e.source.id.to_string(), def: cap(e) }
}
fn h_log(l: WorkflowLog) -> H {
    H::Log { id: l.step_id.to_string(), err: l.is_error(), msg: l.message }
}
fn h_step_done(r: &StepRunResult) -> H {
    H::StepDone { id: r.id.to_string(), res: val(r) }
}
fn h_job_done(r: &JobRunResult) -> H {
    H::JobDone { id: r.id.to_string(), res: val(r) }
}
fn h_wf_done(r: &WorkflowRunResult) -> H {
    H::WfDone { id: r.id.to_string(), res: val(r) }
}

/// One observer's behaviour: slow or failing as the run's decisions say.
#[derive(Clone)]
pub struct Watch {
    pub o: usize,
    pub spec: ObsSpec,
}
impl Watch {
    fn fails(&self, p: u32) -> bool {
        p > 0 && simcore::choose_p("obsf", 2, p) == 1
    }
    async fn seen(&self, h: H) -> HookNoopResult {
        let of = rec(Ev::Hook { o: self.o, h });
        let slow = self.spec.delay_ms > 0 && simcore::choose_p("obsd", 2, self.spec.delay_p) == 1;
        let fails = self.fails(self.spec.fail_p);
        if slow {
            sleep(Duration::from_millis(self.spec.delay_ms)).await;
        }
        if slow || fails {
            rec(Ev::Exit { o: self.o, of, failed: fails });
        }
        if fails {
            simcore::fault("hook-error");
            return Err(Error::error("observer failed"));
        }
        Ok(())
    }
    fn seen_sync(&self, h: H) -> HookNoopResult {
        let of = rec(Ev::Hook { o: self.o, h });
        if self.fails(self.spec.fail_p) {
            rec(Ev::Exit { o: self.o, of, failed: true });
            simcore::fault("hook-error");
            return Err(Error::error("observer failed"));
        }
        Ok(())
    }
    fn before_sync(&self, step: Step) -> HookBeforeRunStepResult {
        let id = step.id.to_string();
        let fails = self.fails(self.spec.before_fail);
        let mut s = step;
        for t in &self.spec.before {
            apply(t, &mut s);
        }
        rec(Ev::Hook { o: self.o, h: H::BeforeOut { id, def: if fails { None } else { Some(cap(&s)) } } });
        if fails {
            simcore::fault("before-hook-error");
            return Err(Error::error("before hook failed"));
        }
        Ok(s)
    }
    fn before_in(&self, step: &Step) {
        rec(Ev::Hook { o: self.o, h: H::Before { id: step.id.to_string(), def: cap(step) } });
    }
    async fn before(&self, step: Step) -> HookBeforeRunStepResult {
        self.before_in(&step);
        if self.spec.before_delay > 0 {
            sleep(Duration::from_millis(self.spec.before_delay)).await;
        }
        self.before_sync(step)
    }
}
pub fn apply(t: &Transform, s: &mut Step) {
    match t {
        Transform::Append(x) => s.run.push_str(x),
        Transform::Env(k, v) => {
            s.environments.insert(k.clone(), astro_run::EnvironmentVariable::String(v.clone()));
        }
        Transform::Secret(x) => s.secrets.push(x.clone()),
        Transform::Image(x) => {
            s.container = Some(astro_run::ContainerOptions { name: x.clone(), volumes: None, security_opts: None })
        }
        Transform::Timeout(ms) => s.timeout = Duration::from_millis(*ms),
        Transform::Name(x) => s.name = Some(x.clone()),
        Transform::Cont => s.continue_on_error = !s.continue_on_error,
        Transform::Mount(x) => {
            let volumes = Some(vec![format!("/{}:/{}", x, x), "data:/data:ro".to_string()]);
            s.container = Some(astro_run::ContainerOptions { name: "alpine".into(), volumes, security_opts: Some(vec![x.clone(), "no-new-privileges".into()]) })
        }
        Transform::Bare => {
            s.name = None;
            s.environments.clear();
            s.secrets.clear();
            s.container = None;
        }
        Transform::Run(x) => s.run = x.clone(),
    }
}

pub struct Obs {
    w: Watch,
    actions: Arc<Actions>,
}
#[astro_run::async_trait]
impl Plugin for Obs {
    fn name(&self) -> &'static str {
        "obs"
    }
    async fn on_resolve_dynamic_action(&self, step: astro_run::UserActionStep) -> astro_run::HookResolveActionResult {
        self.actions.resolve(&step)
    }
    async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult {
        self.w.seen(h_run_wf(&e)).await
    }
    async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
        self.w.seen(h_run_job(&e)).await
    }
    async fn on_before_run_step(&self, step: Step) -> HookBeforeRunStepResult {
        self.w.before(step).await
    }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult {
        self.w.seen(h_run_step(&e)).await
    }
    async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
        self.w.seen(state_h(e)).await
    }
    async fn on_log(&self, l: WorkflowLog) -> HookNoopResult {
        self.w.seen(h_log(l)).await
    }
    async fn on_step_completed(&self, r: StepRunResult) -> HookNoopResult {
        self.w.seen(h_step_done(&r)).await
    }
    async fn on_job_completed(&self, r: JobRunResult) -> HookNoopResult {
        self.w.seen(h_job_done(&r)).await
    }
    async fn on_workflow_completed(&self, r: WorkflowRunResult) -> HookNoopResult {
        self.w.seen(h_wf_done(&r)).await
    }
}

/// The same observer built with the library's own plugin builder.
pub fn built_plugin(w: Watch, actions: Arc<Actions>) -> AstroRunPlugin {
    let (a, b, c, d, e, f, g, h, i) = (
        w.clone(),
        w.clone(),
        w.clone(),
        w.clone(),
        w.clone(),
        w.clone(),
        w.clone(),
        w.clone(),
        w,
    );
    AstroRunPlugin::builder("built")
        .on_resolve_dynamic_action(move |s| actions.resolve(&s))
        .on_run_workflow(move |e| a.seen_sync(h_run_wf(&e)))
        .on_run_job(move |e| b.seen_sync(h_run_job(&e)))
        .on_before_run_step(move |s| {
            c.before_in(&s);
            c.before_sync(s)
        })
        .on_run_step(move |e| d.seen_sync(h_run_step(&e)))
        .on_state_change(move |e2| e.seen_sync(state_h(e2)))
        .on_log(move |l| f.seen_sync(h_log(l)))
        .on_step_completed(move |r| g.seen_sync(h_step_done(&r)))
        .on_job_completed(move |r| h.seen_sync(h_job_done(&r)))
        .on_workflow_completed(move |r| i.seen_sync(h_wf_done(&r)))
        .build()
}

/// Actions, by name.
#[derive(Default)]
pub struct Actions {
    fixed: Vec<(String, astro_run::ActionSteps)>,
    dynamic: HashMap<String, astro_run::ActionSteps>,
}
#[derive(Clone)]
struct Act1(astro_run::ActionSteps);
impl astro_run::Action for Act1 {
    fn normalize(&self, _s: astro_run::UserActionStep) -> astro_run::Result<astro_run::ActionSteps> {
        Ok(self.0.clone())
    }
}
impl Actions {
    pub fn of(sc: &Scenario) -> Arc<Actions> {
        let mut a = Actions::default();
        for w in &sc.wfs {
            for j in &w.jobs {
                for s in &j.steps {
                    if let UStep::Action { pre, run, post, dynamic } = s {
                        let name = format!("act-{}", run.tag);
                        let steps = astro_run::ActionSteps {
                            pre: pre.as_ref().map(|p| p.user()),
                            run: run.user(),
                            post: post.as_ref().map(|p| p.user()),
                        };
                        if *dynamic && !sc.plugins.is_empty() {
                            a.dynamic.insert(name, steps);
                        } else if !a.fixed.iter().any(|(n, _)| *n == name) {
                            a.fixed.push((name, steps));
                        }
                    }
                }
            }
        }
        Arc::new(a)
    }
    fn resolve(&self, s: &astro_run::UserActionStep) -> astro_run::HookResolveActionResult {
        Ok(self.dynamic.get(&s.uses).map(|a| Box::new(Act1(a.clone())) as Box<dyn astro_run::Action>))
    }
}

// ---- runners ------------------------------------------------------------------------------------

/// Records what reaches the runner it wraps, then passes it on.
pub struct Recorder<R> {
    pub w: Watch,
    pub site: usize,
    pub inner: R,
}
impl<R> Recorder<R> {
    async fn after(&self, of: usize, inner: HookNoopResult) -> HookNoopResult {
        let spec = &self.w.spec;
        let slow = spec.delay_ms > 0 && simcore::choose_p("obsd", 2, spec.delay_p) == 1;
        let fails = self.w.fails(spec.fail_p);
        if slow {
            sleep(Duration::from_millis(spec.delay_ms)).await;
        }
        if slow || fails {
            rec(Ev::Exit { o: self.w.o, of, failed: fails });
        }
        if fails {
            simcore::fault("hook-error");
            return Err(Error::error("runner hook failed"));
        }
        inner
    }
    fn saw(&self, h: H) -> usize {
        rec(Ev::Hook { o: self.w.o, h })
    }
}
#[astro_run::async_trait]
impl<R: Runner> Runner for Recorder<R> {
    async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult {
        let of = self.saw(h_run_wf(&e));
        let r = self.inner.on_run_workflow(e).await;
        self.after(of, r).await
    }
    async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
        let of = self.saw(h_run_job(&e));
        let r = self.inner.on_run_job(e).await;
        self.after(of, r).await
    }
    async fn on_before_run_step(&self, step: Step) -> HookBeforeRunStepResult {
        self.w.before_in(&step);
        let id = step.id.to_string();
        match self.inner.on_before_run_step(step).await {
            Ok(s) => self.w.before_sync(s),
            Err(e) => {
                rec(Ev::Hook { o: self.w.o, h: H::BeforeOut { id, def: None } });
                Err(e)
            }
        }
    }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult {
        let of = self.saw(h_run_step(&e));
        let r = self.inner.on_run_step(e).await;
        self.after(of, r).await
    }
    async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
        let of = self.saw(state_h(e.clone()));
        let r = self.inner.on_state_change(e).await;
        self.after(of, r).await
    }
    async fn on_log(&self, l: WorkflowLog) -> HookNoopResult {
        let of = self.saw(h_log(l.clone()));
        let r = self.inner.on_log(l).await;
        self.after(of, r).await
    }
    async fn on_step_completed(&self, res: StepRunResult) -> HookNoopResult {
        let of = self.saw(h_step_done(&res));
        let r = self.inner.on_step_completed(res).await;
        self.after(of, r).await
    }
    async fn on_job_completed(&self, res: JobRunResult) -> HookNoopResult {
        let of = self.saw(h_job_done(&res));
        let r = self.inner.on_job_completed(res).await;
        self.after(of, r).await
    }
    async fn on_workflow_completed(&self, res: WorkflowRunResult) -> HookNoopResult {
        let of = self.saw(h_wf_done(&res));
        let r = self.inner.on_workflow_completed(res).await;
        self.after(of, r).await
    }
    async fn run(&self, ctx: Context) -> astro_run::RunResponse {
        let id = ctx.id.to_string();
        let site = self.site;
        if site == 0 {
            rec(Ev::Run { id: id.clone(), def: cap(&ctx) });
            if ctx.command.id != ctx.id {
                rec(Ev::Note { what: "id-mismatch".into(), detail: json!([id, ctx.command.id.to_string()]) });
            }
            crate::local::watch_signal(&id, &ctx.signal);
        }
        let r = self.inner.run(ctx).await;
        if site == 0 {
            rec(Ev::RunRet { id, ok: r.is_ok() });
        }
        r
    }
}

/// Plays the scripts of the scenario.
pub struct ScriptedRunner {
    pub site: usize,
    pub sc: Arc<Scenario>,
}
#[astro_run::async_trait]
impl Runner for ScriptedRunner {
    async fn run(&self, ctx: Context) -> astro_run::RunResponse {
        let id = ctx.id.to_string();
        let of = rec(Ev::Start { site: self.site, id: id.clone(), def: cap(&ctx) });
        let Some((tag, script, hang_ms)) = self.sc.step(&id).map(|(_, _, s)| (s.tag.clone(), s.script.clone(), s.hang_ms())) else {
            rec(Ev::Note { what: "unknown-step".into(), detail: json!(id) });
            return Err(Error::error("unknown step"));
        };
        if script.run_ms > 0 {
            sleep(Duration::from_millis(script.run_ms)).await;
        }
        if script.run_err {
            return Err(Error::error("scripted failure to start"));
        }
        let (tx, rx) = astro_run::stream();
        tokio::spawn(play(self.site, of, id, tag, script, hang_ms, ctx.signal.clone(), tx));
        Ok(rx)
    }
}

pub fn line(tag: &str, i: u32, flavour: u8) -> String {
    match flavour {
        1 => format!("{}#{} ünïcødé ☃ \t end ", tag, i),
        2 => format!("{}#{} {}", tag, i, "x".repeat(200 + (i as usize % 7) * 700)),
        3 if i % 3 == 0 => String::new(),
        4 => format!("{} again", tag),
        5 => " ".repeat(i as usize % 3 + 1),
        6 => format!("{}#{} {}", tag, i, "y".repeat(100_000)),
        9 => format!("\r{}#{}\r", tag, i),
        7 => format!("{}#{}\n  second line\r\n\n", tag, i),
        // more than any default limit of a message
        8 => format!("{}#{} {}", tag, i, "z".repeat(5 << 20)),
        _ => format!("{}#{}", tag, i),
    }
}

async fn play(site: usize, of: usize, id: String, tag: String, script: Script, hang_ms: u64, signal: astro_run::AstroRunSignal, tx: StreamSender) {
    let (stx, mut srx) = tokio::sync::watch::channel(None::<Signal>);
    {
        let id = id.clone();
        tokio::spawn(async move {
            for _ in 0..3 {
                let s = signal.recv().await;
                rec(Ev::Sig { site, of, id: id.clone(), kind: hist::sig_str(s).into() });
                stx.send(Some(s)).ok();
            }
        });
    }
    let mut count = 0;
    let emit = |err: bool, msg: String| {
        rec(Ev::Emit { site, of, id: id.clone(), err, msg: msg.clone() });
        if err {
            tx.error(msg)
        } else {
            tx.log(msg)
        }
    };
    let mut signalled = None;
    for op in &script.ops {
        if script.react.is_some() && srx.borrow().is_some() {
            signalled = *srx.borrow();
            break;
        }
        let wait = match op {
            Op::Log { n, err, flavour } => {
                for _ in 0..*n {
                    emit(*err, line(&tag, count, *flavour));
                    count += 1;
                }
                continue;
            }
            Op::Yield => {
                tokio::task::yield_now().await;
                continue;
            }
            Op::Sleep(ms) => *ms,
            Op::Hang => hang_ms,
            _ => continue,
        };
        let deadline = tokio::time::Instant::now() + Duration::from_millis(wait);
        if script.react.is_some() || matches!(op, Op::Hang) {
            tokio::select! {
                _ = tokio::time::sleep_until(deadline) => {}
                Ok(s) = srx.wait_for(|s| s.is_some()) => { signalled = *s; }
            }
            if signalled.is_some() {
                break;
            }
        } else {
            tokio::time::sleep_until(deadline).await;
        }
    }
    let mut end = script.end;
    let mut timeout_end = false;
    if let (Some(s), Some(r)) = (signalled, &script.react) {
        if r.delay_ms > 0 {
            sleep(Duration::from_millis(r.delay_ms)).await;
        }
        for _ in 0..r.logs {
            emit(false, line(&tag, count, 0));
            count += 1;
        }
        match r.end {
            Some(e) => end = e,
            None if s == Signal::Cancel => end = End::Cancelled,
            None => timeout_end = true,
        }
    }
    let (res, how) = match end {
        _ if timeout_end => (RunResult::Failed { exit_code: 123 }, 1),
        End::Ok => (RunResult::Succeeded, 0),
        End::Fail(c) => (RunResult::Failed { exit_code: c }, 0),
        End::Cancelled => (RunResult::Cancelled, 0),
        End::Killed(_) => (RunResult::Failed { exit_code: 1 }, 0),
    };
    rec(Ev::EndCall { site, of, id: id.clone(), res: hist::result_str(&res) });
    let variant = (tag.len() as u32 + count) % 2;
    match (&res, variant) {
        _ if how == 1 => tx.timeout(),
        (RunResult::Succeeded, 0) => tx.succeeded(),
        (RunResult::Failed { exit_code }, 0) => tx.failed(*exit_code),
        (RunResult::Cancelled, 0) => tx.cancelled(),
        _ => tx.end(res),
    }
    if count % 3 == 1 {
        // a runner may well report twice; the first report counts
        tx.failed(99);
    }
}

// ---- scheduler seam -----------------------------------------------------------------------------

/// The real scheduler, with its decisions on record.
pub struct Sched {
    inner: Arc<astro_run_scheduler::DefaultScheduler>,
}
#[astro_run::async_trait]
impl astro_run_scheduler::Scheduler for Sched {
    fn on_run_workflow(&self, w: Workflow) {
        self.inner.on_run_workflow(w)
    }
    fn on_run_job(&self, j: astro_run::Job) {
        self.inner.on_run_job(j)
    }
    fn on_run_step(&self, s: Step) {
        self.inner.on_run_step(s)
    }
    fn on_step_completed(&self, r: StepRunResult) {
        self.inner.on_step_completed(r)
    }
    fn on_job_completed(&self, r: JobRunResult) {
        self.inner.on_job_completed(r)
    }
    fn on_workflow_completed(&self, r: WorkflowRunResult) {
        self.inner.on_workflow_completed(r)
    }
    async fn schedule<'a, 'b: 'a>(
        &'b self,
        runners: &'a [astro_run_protocol::RunnerMetadata],
        ctx: &Context,
    ) -> Option<&'a astro_run_protocol::RunnerMetadata> {
        let choice = self.inner.schedule(runners, ctx).await;
        let cont = ctx.command.container.as_ref().map(|c| c.name.clone());
        rec(Ev::Sched {
            id: ctx.command.id.to_string(),
            docker: !cont.as_ref().map(|c| c.starts_with("host/")).unwrap_or(false),
            runners: runners.iter().map(|r| r.id.clone()).collect(),
            choice: choice.map(|c| c.id.clone()),
            cont,
        });
        choice
    }
}

// ---- worlds ---------------------------------------------------------------------------------------

pub struct Sys {
    pub sc: Arc<Scenario>,
    pub engine: AstroRun,
    /// (current node, incarnation) per server
    pub servers: Mutex<Vec<(u32, usize)>>,
    pub next_node: Mutex<(u32, usize)>,
    /// ends the calls of the client's `start`
    pub stops: Vec<Arc<tokio::sync::Semaphore>>,
}

pub fn addr(i: usize) -> String {
    format!("127.0.0.1:{}", 7000 + i)
}

fn start_server(sc: &Arc<Scenario>, i: usize, node: u32, site: usize) {
    let spec = sc.servers[i].clone();
    simnet::set_link(1, node, simnet::Link { base_ms: spec.base_ms, jitter_ms: spec.jitter_ms });
    let sc = sc.clone();
    let actions = Arc::new(Actions::default());
    let plugins: Vec<Watch> = spec
        .plugins
        .iter()
        .enumerate()
        .map(|(k, p)| Watch { o: hist::register_obs(site, k as i32), spec: p.clone() })
        .collect();
    let runner = Watch { o: hist::register_obs(site, -1), spec: spec.runner.clone() };
    spawn_on(node, async move {
        let mut b = astro_run_remote_runner::AstroRunRemoteRunnerServer::builder()
            .id(spec.id.clone())
            .support_docker(spec.docker)
            .support_host(spec.host)
            .runner(Recorder { w: runner, site, inner: ScriptedRunner { site, sc: sc.clone() } });
        for w in plugins {
            if w.spec.builder {
                b = b.plugin(built_plugin(w, actions.clone()));
            } else {
                b = b.plugin(Obs { w, actions: actions.clone() });
            }
        }
        let server = match b.build() {
            Ok(s) => s,
            Err(e) => {
                rec(Ev::Note { what: "server-build".into(), detail: json!(e.to_string()) });
                return;
            }
        };
        if let Err(e) = server.serve(&addr(i)).await {
            rec(Ev::Note { what: "server-end".into(), detail: json!(e.to_string()) });
        }
    });
}

/// When workflows begin, relative to the start of the run, in a world with a network.
pub const REMOTE_START_MS: u64 = 20_000;

pub async fn run_system(sc: Arc<Scenario>) {
    let actions = Actions::of(&sc);
    let mut b = AstroRun::builder();
    for (k, p) in sc.plugins.iter().enumerate() {
        let w = Watch { o: hist::register_obs(0, k as i32), spec: p.clone() };
        if p.builder {
            b = b.plugin(built_plugin(w, actions.clone()));
        } else {
            b = b.plugin(Obs { w, actions: actions.clone() });
        }
    }
    for (name, steps) in &actions.fixed {
        b = b.action(name.clone(), Act1(steps.clone()));
    }
    let w = Watch { o: hist::register_obs(0, -1), spec: sc.runner.clone() };
    let mut servers = vec![];
    let mut next = (2u32, 1usize);
    let mut client = None;
    let scheduler = Arc::new(astro_run_scheduler::DefaultScheduler::new());
    match sc.world {
        World::Engine => b = b.runner(Recorder { w, site: 0, inner: ScriptedRunner { site: 0, sc: sc.clone() } }),
        World::Remote => {
            for i in 0..sc.servers.len() {
                start_server(&sc, i, next.0, next.1);
                servers.push(next);
                next = (next.0 + 1, next.1 + 1);
            }
            let c = astro_run_remote_runner::AstroRunRemoteRunnerClient::builder()
                .scheduler(Sched { inner: scheduler.clone() })
                .build()
                .expect("client");
            client = Some(c.clone());
            b = b.runner(Recorder { w, site: 0, inner: c });
        }
        World::Local => {
            let r = crate::local::runner(&sc);
            b = b.runner(Recorder { w, site: 0, inner: r });
        }
        World::Micro => unreachable!(),
    }
    if let Some(g) = &sc.github {
        crate::github::install(&sc, g.clone());
        if g.auth {
            if g.app {
                b = b.github_app(4711, crate::github::TEST_KEY);
            } else {
                b = b.github_personal_token("sim-token");
            }
        }
    }
    let engine = b.build();
    let sys = Arc::new(Sys { sc: sc.clone(), engine, servers: Mutex::new(servers), next_node: Mutex::new(next), stops: (0..32).map(|_| Arc::new(tokio::sync::Semaphore::new(0))).collect() });

    let mut base = 0;
    if let Some(c) = client {
        let calls = sc.servers.iter().fold(0, |a, s| a | s.calls);
        let stops = sys.stops.clone();
        for k in (0..32).filter(|k| calls & (1 << k) != 0) {
            let urls: Vec<String> =
                (0..sc.servers.len()).filter(|i| sc.servers[*i].calls & (1 << k) != 0).map(|i| format!("http://{}", addr(i))).collect();
            let mut c = c.clone();
            // the first two at once, any further one later
            let at = 500 + 700 * (k as u64 / 2);
            let stop = stops[k as usize].clone();
            spawn_on(1, async move {
                sleep(Duration::from_millis(at)).await;
                tokio::select! {
                    biased;
                    r = c.start(urls) => {
                        if let Err(e) = r {
                            rec(Ev::Note { what: "client-end".into(), detail: json!(e.to_string()) });
                        }
                    }
                    _ = stop.acquire() => {}
                }
            });
        }
        base = REMOTE_START_MS;
    }
    for (n, c) in sc.controls.iter().enumerate() {
        let c = c.clone();
        let sys = sys.clone();
        let wait = match &c.trig {
            Trig::On { key, nth, .. } => Some(hist::wait_for(key, *nth)),
            _ => None,
        };
        tokio::spawn(async move {
            match &c.trig {
                Trig::At(ms) => sleep(Duration::from_millis(base + *ms)).await,
                Trig::On { delay_ms, .. } => {
                    wait.unwrap().notified().await;
                    if *delay_ms > 0 {
                        sleep(Duration::from_millis(*delay_ms)).await;
                    }
                }
            }
            act(n, &sys, &c.act).await;
        });
    }
    let mut handles = vec![];
    let ends: Vec<Arc<tokio::sync::Semaphore>> = sc.wfs.iter().map(|_| Arc::new(tokio::sync::Semaphore::new(0))).collect();
    let node = if sc.world == World::Remote { 1 } else { 0 };
    for (i, spec) in sc.wfs.iter().enumerate() {
        let spec = spec.clone();
        let sys = sys.clone();
        let ends = ends.clone();
        let h = spawn_on(node, async move {
            match spec.after {
                Some(a) => {
                    let _ = ends[a].acquire().await;
                    ends[a].add_permits(1);
                    if spec.start_ms > 0 {
                        sleep(Duration::from_millis(spec.start_ms)).await;
                    }
                }
                None => sleep(Duration::from_millis(base + spec.start_ms)).await,
            }
            run_workflow(&sys, i, &spec).await;
            ends[i].add_permits(1);
        });
        handles.push(h);
    }
    for h in handles {
        if let Err(e) = h.await {
            rec(Ev::Note { what: "workflow-task".into(), detail: json!(e.to_string()) });
        }
    }
    // what has been set in motion comes to its end
    loop {
        let n = crate::hist::len();
        sleep(Duration::from_millis(sc.settle_ms)).await;
        if crate::hist::len() == n {
            break;
        }
    }
    if sc.prop == "C15" && sc.world == World::Remote {
        // nothing is left to do: the scheduler must choose like one that never did anything
        let runners: Vec<astro_run_protocol::RunnerMetadata> = sc
            .servers
            .iter()
            .map(|s| {
                crate::micro::meta(&crate::micro::RunnerSpec {
                    id: s.id.clone(),
                    os: std::env::consts::OS.into(),
                    arch: std::env::consts::ARCH.into(),
                    docker: s.docker,
                    host: s.host,
                })
            })
            .collect();
        let mut jobs: Vec<(String, String)> = sc.wfs.iter().flat_map(|w| w.jobs.iter().map(|j| (w.id.clone(), j.key.clone()))).collect();
        jobs.sort();
        jobs.dedup();
        crate::micro::probe(&*scheduler, &runners, jobs).await;
    }
}

pub async fn run_workflow(sys: &Sys, i: usize, spec: &WfSpec) {
    let built = Workflow::builder().id(spec.id.clone()).config(spec.yaml()).build(&sys.engine).await;
    let wf = match built {
        Ok(w) => {
            rec(Ev::Built { w: i, ok: true, err: String::new() });
            w
        }
        Err(e) => {
            rec(Ev::Built { w: i, ok: false, err: e.to_string() });
            return;
        }
    };
    let mut ctx = sys.engine.execution_context();
    if let Some(e) = spec.real_event() {
        ctx = ctx.event(e);
    }
    if let Some(p) = &spec.payload {
        ctx = ctx.payload(SimPayload { msg: p.clone() });
    }
    let ctx = ctx.build();
    rec(Ev::Begin { w: i });
    let res = wf.run(ctx).await;
    rec(Ev::End { w: i, res: val(&res) });
}

async fn act(n: usize, sys: &Arc<Sys>, a: &Act) {
    match a {
        Act::Cancel { job } => {
            let (w, k) = job.split_once('/').unwrap_or((job, ""));
            let id = astro_run::JobId::new(w, k);
            rec(Ev::CancelReq { n, job: job.clone() });
            let ok = sys.engine.cancel_job(&id).is_ok();
            rec(Ev::CancelRes { n, job: job.clone(), ok });
            if ok {
                simcore::fault("cancel");
            }
        }
        Act::WallJump { ms } => {
            rec(Ev::Fault { what: format!("wall-jump {}ms", ms) });
            simcore::fault("wall-clock-jump");
            simcore::wall_jump(ms * 1_000_000);
        }
        Act::Crash { server, abrupt, restart_ms } => {
            let (node, site) = sys.servers.lock().unwrap()[*server];
            if simcore::node_dead(node) {
                return;
            }
            rec(Ev::Fault { what: format!("crash {} site {}", server, site) });
            simcore::fault(if *abrupt { "crash-abrupt" } else { "crash-graceful" });
            simcore::kill_node(node);
            simnet::node_crashed(node, *abrupt);
            if let Some(ms) = restart_ms {
                sleep(Duration::from_millis(*ms)).await;
                let (node, site) = {
                    let mut n = sys.next_node.lock().unwrap();
                    let cur = *n;
                    *n = (cur.0 + 1, cur.1 + 1);
                    cur
                };
                rec(Ev::Fault { what: format!("restart {} site {}", server, site) });
                simcore::fault("restart");
                sys.servers.lock().unwrap()[*server] = (node, site);
                start_server(&sys.sc, *server, node, site);
            }
        }
        Act::Reset { server } => {
            let (node, _) = sys.servers.lock().unwrap()[*server];
            let k = simnet::reset_links(1, node);
            rec(Ev::Fault { what: format!("reset {} ({} connections)", server, k) });
            simcore::fault("connection-reset");
        }
        Act::Partition { server, ms } => {
            let (node, _) = sys.servers.lock().unwrap()[*server];
            rec(Ev::Fault { what: format!("partition {} for {}ms", server, ms) });
            simcore::fault("partition");
            simnet::partition(1, node, simcore::now() + Duration::from_millis(*ms));
            sleep(Duration::from_millis(*ms)).await;
            rec(Ev::Fault { what: format!("heal {}", server) });
        }
        Act::Refuse { server, ms } => {
            let (node, _) = sys.servers.lock().unwrap()[*server];
            rec(Ev::Fault { what: format!("refuse {} for {}ms", server, ms) });
            simcore::fault("connection-refused");
            simnet::refuse(addr(*server).parse().unwrap(), simcore::now() + Duration::from_millis(*ms));
            simnet::reset_links(1, node);
            sleep(Duration::from_millis(*ms)).await;
            rec(Ev::Fault { what: format!("accept {}", server) });
        }
        Act::StopCall { call } => {
            rec(Ev::Fault { what: format!("stop call {}", call) });
            simcore::fault("start-dropped");
            sys.stops[*call as usize].add_permits(1);
        }
        Act::Stall { server, ms } => {
            let (node, _) = sys.servers.lock().unwrap()[*server];
            rec(Ev::Fault { what: format!("stall {} for {}ms", server, ms) });
            simcore::fault("node-stall");
            simcore::stall_node(node, simcore::now_ns() + ms * 1_000_000);
            sleep(Duration::from_millis(*ms)).await;
            tokio::time::sleep(Duration::from_millis(1)).await;
            simcore::unstall_node(node);
        }
    }
}
