//! The world of the local runner: processes and containers played by the scenario's scripts, and
//! a scratch directory for the files of the run.
use crate::engine::line;
use crate::hist::{self, rec, Ev};
use crate::os::{self, FsWorld};
use crate::scen::*;
use astro_run::{AstroRunSignal, Context, Error, HookNoopResult};
use serde_json::{json, Value};
use simcore::HostGuard;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::ExitStatus;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::process::sim::{PipeWriter, ProcIo, SpawnReq};
use tokio::sync::Notify;
use tokio::time::sleep;

#[derive(Default, Debug)]
pub struct FsEnd {
    /// every path left in the scratch directory, with contents
    pub left: BTreeMap<String, String>,
}

#[derive(Default)]
struct Container {
    killed: bool,
    done: Option<i32>,
    /// the daemon keeps it, and its name, when it is over
    stays: bool,
    notify: Arc<Notify>,
}
#[derive(Default)]
struct Local {
    sc: Option<Arc<Scenario>>,
    scratch: PathBuf,
    work: PathBuf,
    signals: HashMap<String, AstroRunSignal>,
}
thread_local! {
    static LOCAL: RefCell<Local> = RefCell::new(Local::default());
}
static RUNS: AtomicU64 = AtomicU64::new(0);

pub fn watch_signal(id: &str, s: &AstroRunSignal) {
    LOCAL.with(|l| {
        l.borrow_mut().signals.insert(id.to_string(), s.clone());
    });
}
pub fn signal_state(id: &str) -> &'static str {
    let s = LOCAL.with(|l| l.borrow().signals.get(id).cloned());
    match s {
        Some(s) if s.is_cancelled() => "cancel",
        Some(s) if s.is_timeout() => "timeout",
        Some(_) => "none",
        None => "absent",
    }
}
fn base_dir() -> PathBuf {
    let shm = Path::new("/dev/shm");
    if shm.is_dir() && std::fs::metadata(shm).map(|m| !m.permissions().readonly()).unwrap_or(false) {
        let probe = shm.join(format!(".astrosim-{}", std::process::id()));
        if std::fs::write(&probe, b"x").is_ok() {
            let _ = std::fs::remove_file(&probe);
            return shm.to_path_buf();
        }
    }
    std::env::temp_dir()
}

pub fn prepare(sc: &Arc<Scenario>) {
    LOCAL.with(|l| *l.borrow_mut() = Local { sc: Some(sc.clone()), ..Default::default() });
    if sc.world != World::Local {
        os::fs_install(None);
        tokio::process::sim::set_handler(None);
        return;
    }
    let _h = HostGuard::new();
    // the path takes part in the run (it appears in commands): keep its length constant
    let n = RUNS.fetch_add(1, Ordering::SeqCst);
    let scratch = base_dir().join(format!("astrosim-{:08}-{:08}", std::process::id() % 100_000_000, n));
    let _ = std::fs::remove_dir_all(&scratch);
    let work = scratch.join("work");
    std::fs::create_dir_all(&work).expect("scratch");
    std::fs::create_dir_all(scratch.join("victim")).expect("scratch");
    std::fs::write(scratch.join("victim/keep"), "outside").expect("scratch");
    if sc.local.decoys {
        for d in decoys(sc) {
            std::fs::create_dir_all(work.join(&d).parent().unwrap()).expect("scratch");
            std::fs::write(work.join(&d), "decoy").expect("scratch");
        }
    }
    if sc.local.stale {
        for w in &sc.wfs {
            let repo = w.event.as_ref().map(|e| format!("{}/{}/", e.owner, e.repo)).unwrap_or_default();
            for j in &w.jobs {
                for n in 0..j.resolved().len() {
                    let dir = work.join(format!("{}{}/{}/{}", repo, w.id, j.key, n));
                    std::fs::create_dir_all(&dir).expect("scratch");
                    let file = dir.join("entrypoint");
                    std::fs::write(&file, format!("#!/bin/sh\n{}", "echo of an earlier run\n".repeat(1000))).expect("scratch");
                    std::fs::set_permissions(&file, std::os::unix::fs::PermissionsExt::from_mode(0o777)).expect("scratch");
                }
            }
        }
    }
    let work = work.canonicalize().expect("scratch");
    let scratch = scratch.canonicalize().expect("scratch");
    os::fs_install(Some(FsWorld {
        scratch: scratch.clone(),
        work: work.clone(),
        fault_p: sc.local.fs_p,
        escapes: vec![],
        injected: vec![],
        ops: 0,
        log: vec![],
    }));
    LOCAL.with(|l| {
        let mut l = l.borrow_mut();
        l.scratch = scratch;
        l.work = work;
    });
    let containers: Arc<Mutex<HashMap<String, Container>>> = Default::default();
    let sc = sc.clone();
    tokio::process::sim::set_handler(Some((
        Rc::new(move |req, io| start_process(&sc, &containers, req, io)),
        Rc::new(|pid| {
            rec(Ev::Proc { pid, what: "killed".into(), detail: Value::Null });
        }),
    )));
}

/// The directory that this workflow's identifier shares with others in the working directory.
pub fn clash(w: &WfSpec) -> Option<String> {
    let repo = w.event.as_ref().map(|e| format!("{}/{}/", e.owner, e.repo)).unwrap_or_default();
    match w.id.as_str() {
        "caches" => Some(format!("{}caches/", repo)),
        "acme" | "octo" if repo.is_empty() => Some(format!("{}/", w.id)),
        _ => None,
    }
}

/// Files which belong to nobody in this run.
pub fn decoys(sc: &Scenario) -> Vec<String> {
    let mut v = vec![];
    for repo in ["", "acme/app", "acme/lib", "octo/app", "octo/lib"] {
        let p = if repo.is_empty() { String::new() } else { format!("{}/", repo) };
        v.push(format!("{}caches/cached-file", p));
        v.push(format!("{}other-workflow/j0/data/file", p));
        if let Some(w) = sc.wfs.first() {
            // an id that has this one as a prefix
            v.push(format!("{}{}9/j0/data/file", p, w.id));
        }
    }
    v
}

fn walk(dir: &Path, base: &Path, out: &mut BTreeMap<String, String>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let rel = p.strip_prefix(base).unwrap_or(&p).to_string_lossy().to_string();
        match e.file_type() {
            Ok(t) if t.is_dir() => {
                out.insert(format!("{}/", rel), String::new());
                walk(&p, base, out);
            }
            Ok(t) if t.is_symlink() => {
                out.insert(rel, "symlink".into());
            }
            _ => {
                out.insert(rel, String::from_utf8_lossy(&std::fs::read(&p).unwrap_or_default()).to_string());
            }
        }
    }
}
pub fn snapshot() -> BTreeMap<String, String> {
    let _h = HostGuard::new();
    let s = LOCAL.with(|l| l.borrow().scratch.clone());
    let mut m = BTreeMap::new();
    if !s.as_os_str().is_empty() {
        walk(&s, &s, &mut m);
    }
    m
}
pub fn end_of_run(sc: &Scenario) -> FsEnd {
    if sc.world != World::Local {
        return FsEnd::default();
    }
    FsEnd { left: snapshot() }
}
pub fn cleanup() -> Option<FsWorld> {
    let w = os::fs_install(None);
    let s = LOCAL.with(|l| std::mem::take(&mut *l.borrow_mut()).scratch);
    if !s.as_os_str().is_empty() && s.file_name().map(|n| n.to_string_lossy().starts_with("astrosim-")).unwrap_or(false) {
        let _ = std::fs::remove_dir_all(&s);
    }
    w
}

// ---- the runner under test ------------------------------------------------------------------------

struct LocalObs {
    k: usize,
    spec: ObsSpec,
}
#[astro_run::async_trait]
impl astro_runner::Plugin for LocalObs {
    fn name(&self) -> &'static str {
        "local-obs"
    }
    async fn on_before_run(&self, ctx: Context) -> astro_run::Result<Context> {
        let id = ctx.id.to_string();
        let capture = LOCAL.with(|l| l.borrow().sc.as_ref().is_some_and(|s| s.capture));
        let def = |ctx: &Context| if capture { json!(ctx.command) } else { Value::Null };
        rec(Ev::Local { site: self.k, what: "before".into(), id, detail: def(&ctx) });
        if self.spec.delay_ms > 0 && simcore::choose_p("obsd", 2, self.spec.delay_p) == 1 {
            sleep(Duration::from_millis(self.spec.delay_ms)).await;
        }
        if self.spec.fail_p > 0 && simcore::choose_p("obsf", 2, self.spec.fail_p) == 1 {
            simcore::fault("hook-error");
            return Err(Error::error("before-run failed"));
        }
        let mut ctx = ctx;
        if !self.spec.before.is_empty() {
            let mut step: astro_run::Step = ctx.command.into();
            for t in &self.spec.before {
                crate::engine::apply(t, &mut step);
            }
            ctx.command = step.into();
            rec(Ev::Local { site: self.k, what: "edited".into(), id: ctx.id.to_string(), detail: def(&ctx) });
        }
        Ok(ctx)
    }
    async fn on_after_run(&self, ctx: Context) -> HookNoopResult {
        let id = ctx.id.to_string();
        rec(Ev::Local {
            site: self.k,
            what: "after".into(),
            id: id.clone(),
            detail: json!({"sig": signal_state(&id), "private": private_files(&id)}),
        });
        if self.spec.delay_ms > 0 && simcore::choose_p("obsd", 2, self.spec.delay_p) == 1 {
            sleep(Duration::from_millis(self.spec.delay_ms)).await;
        }
        if self.spec.fail_p > 0 && simcore::choose_p("obsf", 2, self.spec.fail_p) == 1 {
            simcore::fault("hook-error");
            return Err(Error::error("after-run failed"));
        }
        Ok(())
    }
}

/// What is left of the files only this step used: its script, wherever it was put.
fn private_files(id: &str) -> Vec<String> {
    let Some(tag) = LOCAL.with(|l| l.borrow().sc.as_ref().and_then(|s| s.step(id).map(|(_, _, s)| s.run.clone()))) else {
        return vec![];
    };
    let parts: Vec<&str> = id.split('/').collect();
    let own = format!("/{}/{}/{}/", parts[0], parts[1], parts[2]);
    snapshot()
        .into_iter()
        .filter(|(p, c)| p.starts_with("work/") && (p.contains("entrypoint") && c.contains(&tag) || p.contains(&own)))
        .map(|(p, _)| p)
        .collect()
}

pub struct LocalRunner {
    inner: astro_runner::AstroRunner,
    sc: Arc<Scenario>,
}
pub fn runner(sc: &Arc<Scenario>) -> LocalRunner {
    let work = LOCAL.with(|l| l.borrow().work.clone());
    let mut b = astro_runner::AstroRunner::builder().working_directory(work);
    for (k, p) in sc.local.plugins.iter().enumerate() {
        b = b.plugin(LocalObs { k, spec: p.clone() });
    }
    LocalRunner { inner: b.build().expect("runner"), sc: sc.clone() }
}
#[astro_run::async_trait]
impl astro_run::Runner for LocalRunner {
    async fn on_run_workflow(&self, e: astro_run::RunWorkflowEvent) -> HookNoopResult {
        self.inner.on_run_workflow(e).await
    }
    async fn on_run_job(&self, e: astro_run::RunJobEvent) -> HookNoopResult {
        self.inner.on_run_job(e).await
    }
    async fn on_before_run_step(&self, s: astro_run::Step) -> astro_run::HookBeforeRunStepResult {
        self.inner.on_before_run_step(s).await
    }
    async fn on_run_step(&self, e: astro_run::RunStepEvent) -> HookNoopResult {
        self.inner.on_run_step(e).await
    }
    async fn on_state_change(&self, e: astro_run::WorkflowStateEvent) -> HookNoopResult {
        self.inner.on_state_change(e).await
    }
    async fn on_log(&self, l: astro_run::WorkflowLog) -> HookNoopResult {
        self.inner.on_log(l).await
    }
    async fn on_step_completed(&self, r: astro_run::StepRunResult) -> HookNoopResult {
        let id = r.id.to_string();
        rec(Ev::Local { site: 0, what: "sig-at-done".into(), id: id.clone(), detail: json!(signal_state(&id)) });
        self.inner.on_step_completed(r).await
    }
    async fn on_job_completed(&self, r: astro_run::JobRunResult) -> HookNoopResult {
        self.inner.on_job_completed(r).await
    }
    async fn on_workflow_completed(&self, r: astro_run::WorkflowRunResult) -> HookNoopResult {
        let id = r.id.to_string();
        let res = self.inner.on_workflow_completed(r).await;
        let left = owned_by(&self.sc, &id);
        rec(Ev::Local { site: 0, what: "wf-cleaned".into(), id, detail: json!(left) });
        res
    }
    async fn run(&self, ctx: Context) -> astro_run::RunResponse {
        let id = ctx.id.to_string();
        rec(Ev::Start { site: 0, id: id.clone(), def: Value::Null });
        if let Some((_, kind)) = self.sc.local_preraise().into_iter().find(|(s, _)| *s == id) {
            simcore::fault("signal-before-run");
            let ok = if kind == "cancel" { ctx.signal.cancel() } else { ctx.signal.timeout() }.is_ok();
            rec(Ev::Local { site: 0, what: "preraised".into(), id: id.clone(), detail: json!([kind, ok]) });
        }
        self.inner.run(ctx).await
    }
}

/// Files and directories of this workflow that exist now (caches aside).
fn owned_by(sc: &Scenario, wid: &str) -> Vec<String> {
    let tags: Vec<String> = sc
        .wfs
        .iter()
        .filter(|w| w.id == wid)
        .flat_map(|w| w.jobs.iter().flat_map(|j| j.resolved().into_iter().map(|s| format!("<{}>", s.tag))))
        .collect();
    snapshot()
        .into_iter()
        .filter(|(p, c)| {
            p.starts_with("work/")
                && !p.contains("caches/")
                && (p.split('/').any(|seg| seg == wid) || tags.iter().any(|t| c.contains(t.as_str())))
        })
        .map(|(p, _)| p)
        .collect()
}

// ---- processes --------------------------------------------------------------------------------------

type Containers = Arc<Mutex<HashMap<String, Container>>>;

/// What a shell makes of a command: its words, and whether it would do more than run one program.
fn tokens(s: &str) -> (Vec<String>, bool) {
    let mut out = vec![];
    let mut cur = String::new();
    let (mut any, mut more) = (false, false);
    let mut quote = None;
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match (quote, c) {
            (Some('\''), '\'') | (Some('"'), '"') => quote = None,
            (Some('\''), c) => cur.push(c),
            (None, '\'' | '"') => {
                quote = Some(c);
                any = true;
            }
            (Some(_), '\\') => match it.peek() {
                Some('\n') => {
                    it.next();
                }
                Some('$' | '`' | '"' | '\\') => cur.push(it.next().unwrap()),
                _ => cur.push('\\'),
            },
            (None, '\\') => match it.next() {
                Some('\n') | None => {}
                Some(c) => cur.push(c),
            },
            // expansions, which come to nothing here
            (_, '`') => {
                more = true;
                while it.next().map(|c| c != '`').unwrap_or(false) {}
            }
            (_, '$') => match it.peek() {
                Some('(' | '{') => {
                    more = true;
                    while it.next().map(|c| c != ')' && c != '}').unwrap_or(false) {}
                }
                Some(c) if c.is_ascii_alphanumeric() || matches!(c, '_' | '?' | '#' | '*' | '@' | '-' | '!' | '$') => {
                    it.next();
                    while it.peek().map(|c| c.is_ascii_alphanumeric() || *c == '_').unwrap_or(false) {
                        it.next();
                    }
                }
                _ => cur.push('$'),
            },
            (Some(_), c) => cur.push(c),
            (None, ';' | '&' | '|' | '<' | '>' | '(' | ')' | '\n') => {
                more = true;
                if any || !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
                any = false;
            }
            (None, c) if c.is_whitespace() => {
                if any || !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
                any = false;
            }
            (None, c) => cur.push(c),
        }
    }
    if any || !cur.is_empty() {
        out.push(cur);
    }
    (out, more || quote.is_some())
}

/// The step whose command this text is: commands carry their tag in angle brackets.
fn find<'a>(sc: &'a Scenario, text: &str) -> Option<(String, &'a StepSpec)> {
    for w in &sc.wfs {
        for j in &w.jobs {
            for s in j.resolved() {
                if text.contains(&format!("<{}>", s.tag)) {
                    return Some((s.tag.clone(), s));
                }
            }
        }
    }
    None
}

struct Played {
    raw: i32,
}

fn start_process(sc: &Arc<Scenario>, cs: &Containers, req: SpawnReq, io: ProcIo) -> std::io::Result<tokio::process::sim::ProcFuture> {
    let pid = req.pid;
    let args: Vec<String> = req.args.iter().map(|a| String::from_utf8_lossy(a.as_bytes()).to_string()).collect();
    let prog = String::from_utf8_lossy(req.program.as_bytes()).to_string();
    let text = args.last().cloned().unwrap_or_default();
    let cwd = req.cwd.clone();
    let envs: BTreeMap<String, String> = req
        .envs
        .iter()
        .filter_map(|(k, v)| v.as_ref().map(|v| (k.to_string_lossy().to_string(), v.to_string_lossy().to_string())))
        .collect();
    if sc.local.spawn_p > 0 && simcore::choose_p("spawn", 2, sc.local.spawn_p) == 1 {
        simcore::fault("spawn-error");
        rec(Ev::Proc { pid, what: "spawn-failed".into(), detail: json!(text) });
        return Err(std::io::Error::from_raw_os_error(libc::EAGAIN));
    }
    let shell = prog == "sh" || prog.ends_with("/sh");
    let (words, more) = if shell && args.first().map(|a| a == "-c").unwrap_or(false) {
        tokens(&text)
    } else {
        (std::iter::once(prog.clone()).chain(args.iter().cloned()).collect(), false)
    };
    let w: Vec<&str> = words.iter().map(|s| s.as_str()).collect();
    match w.as_slice() {
        ["docker", "run", rest @ ..] => Ok(docker_run(sc.clone(), cs.clone(), pid, rest.iter().map(|s| s.to_string()).collect(), more, envs, io)),
        ["docker", "kill", rest @ ..] | ["docker", "stop", rest @ ..] | ["docker", "rm", rest @ ..] => {
            let name = rest.iter().rev().find(|s| !s.starts_with('-')).map(|s| s.to_string()).unwrap_or_default();
            rec(Ev::Proc { pid, what: "docker-kill".into(), detail: json!(name) });
            let (cs, ms) = (cs.clone(), sc.local.kill_ms);
            Ok(Box::pin(async move {
                if ms > 0 {
                    sleep(Duration::from_millis(ms)).await;
                }
                let n = cs.lock().unwrap().get_mut(&name).and_then(|c| {
                    if c.done.is_some() {
                        return None;
                    }
                    c.killed = true;
                    Some(c.notify.clone())
                });
                let ok = n.is_some();
                if let Some(n) = n {
                    n.notify_waiters();
                    n.notify_one();
                    io.stdout.write(name.as_bytes()).await.ok();
                } else {
                    io.stderr.write(b"Error response from daemon: No such container\n").await.ok();
                }
                ExitStatus::from_raw(if ok { 0 } else { 1 << 8 })
            }))
        }
        _ => {
            let Some((tag, spec)) = find(sc, &text) else {
                rec(Ev::Proc { pid, what: "unknown".into(), detail: json!([prog, args]) });
                return Err(std::io::Error::from_raw_os_error(libc::ENOENT));
            };
            if cwd.as_ref().map(|d| !d.is_dir()).unwrap_or(false) {
                rec(Ev::Proc { pid, what: "spawn-failed".into(), detail: json!(text) });
                return Err(std::io::Error::from_raw_os_error(libc::ENOENT));
            }
            rec(Ev::Proc {
                pid,
                what: "start".into(),
                detail: json!({"tag": tag, "kind": "host", "text": text, "envs": envs, "cwd": cwd}),
            });
            let script = spec.script.clone();
            let sc = sc.clone();
            Ok(Box::pin(async move {
                let p = play(&sc, pid, &tag, &script, cwd, None, Some(io.stdout), Some(io.stderr)).await;
                rec(Ev::Proc { pid, what: "exit".into(), detail: json!({"tag": tag, "raw": p.raw}) });
                ExitStatus::from_raw(p.raw)
            }))
        }
    }
}

fn docker_run(
    sc: Arc<Scenario>,
    cs: Containers,
    pid: u32,
    words: Vec<String>,
    more: bool,
    client: BTreeMap<String, String>,
    io: ProcIo,
) -> tokio::process::sim::ProcFuture {
    let (mut name, mut volumes, mut envs, mut entry, mut image, mut tty) = (None, vec![], BTreeMap::new(), None, None, false);
    let (mut dir, mut opts, mut other, mut remove, mut command) = (None, vec![], vec![], false, vec![]);
    let mut it = words.into_iter();
    while let Some(t) = it.next() {
        match t.as_str() {
            "--name" => name = it.next(),
            _ if image.is_some() => command.push(t),
            "-v" | "--volume" => volumes.extend(it.next()),
            "-e" | "--env" => {
                let e = it.next().unwrap_or_default();
                match e.split_once('=') {
                    Some((k, v)) => {
                        envs.insert(k.to_string(), v.to_string());
                    }
                    // from the environment of the client
                    None => {
                        if let Some(v) = client.get(&e) {
                            envs.insert(e, v.clone());
                        }
                    }
                }
            }
            "--entrypoint" => entry = it.next(),
            "-w" | "--workdir" => dir = it.next(),
            "--security-opt" => opts.extend(it.next()),
            "--tty" | "-t" => tty = true,
            "--rm" => remove = true,
            _ => match t.split_once('=') {
                Some(("--name", v)) => name = Some(v.to_string()),
                Some(("-v" | "--volume", v)) => volumes.push(v.to_string()),
                Some(("--entrypoint", v)) => entry = Some(v.to_string()),
                Some(("-w" | "--workdir", v)) => dir = Some(v.to_string()),
                Some(("--security-opt", v)) => opts.push(v.to_string()),
                Some(("-e" | "--env", v)) => {
                    if let Some((k, v)) = v.split_once('=') {
                        envs.insert(k.to_string(), v.to_string());
                    }
                }
                _ if t.starts_with('-') => other.push(t),
                _ => image = Some(t),
            },
        }
    }
    let name = name.unwrap_or_default();
    let mounts: Vec<(String, String)> =
        volumes.iter().filter_map(|v| v.split_once(':').map(|(a, b)| (a.to_string(), b.split(':').next().unwrap().to_string()))).collect();
    let host_path = |c: &str| mounts.iter().find(|(_, b)| b == c).map(|(a, _)| PathBuf::from(a));
    let entry_path = entry.as_deref().and_then(host_path);
    let data = dir.as_deref().and_then(host_path);
    let caches = host_path("/home/work/caches");
    Box::pin(async move {
        // until the client has asked the daemon there is nothing but the client
        match simcore::choose_p("dockerd", 6, simcore::strategy().net) {
            0 | 1 => {}
            2 | 3 => tokio::task::yield_now().await,
            n => sleep(Duration::from_millis([1, 40][n - 4])).await,
        }
        let (content, mode) = {
            let _h = HostGuard::new();
            // the daemon creates missing mount points
            for d in [&data, &caches].into_iter().flatten() {
                if d.starts_with(LOCAL.with(|l| l.borrow().scratch.clone())) {
                    let _ = std::fs::create_dir_all(d);
                }
            }
            let c = entry_path.as_ref().and_then(|p| std::fs::read(p).ok()).map(|b| String::from_utf8_lossy(&b).to_string());
            use std::os::unix::fs::PermissionsExt;
            let m = entry_path.as_ref().and_then(|p| std::fs::metadata(p).ok()).map(|m| m.permissions().mode()).unwrap_or(0);
            (c, m)
        };
        let found = content.as_ref().and_then(|c| find(&sc, c).map(|(t, s)| (t, s.script.clone(), s.run.clone())));
        rec(Ev::Proc {
            pid,
            what: "start".into(),
            detail: json!({"tag": found.as_ref().map(|f| f.0.clone()), "kind": "docker", "name": name, "envs": envs, "image": image,
                "content": content, "mode": mode, "data": data, "volumes": volumes, "tty": tty,
                "dir": dir, "opts": opts, "other": other, "command": command, "more": more}),
        });
        let started = {
            let mut c = cs.lock().unwrap();
            let busy = c.get(&name).map(|c| c.done.is_none() || c.stays).unwrap_or(false);
            if busy || content.is_none() || mode & 0o111 == 0 {
                None
            } else {
                c.insert(name.clone(), Container { stays: !remove, ..Container::default() });
                Some(c[&name].notify.clone())
            }
        };
        let Some(notify) = started else {
            rec(Ev::Proc { pid, what: "exit".into(), detail: json!({"tag": found.map(|f| f.0), "raw": 125 << 8, "daemon": true}) });
            io.stderr.write(b"docker: Error response from daemon.\n").await.ok();
            return ExitStatus::from_raw(125 << 8);
        };
        // the container lives on its own; the client only waits for it
        let (tx, rx) = tokio::sync::oneshot::channel();
        let cs2 = cs.clone();
        let name2 = name.clone();
        tokio::spawn(async move {
            let (out, err) = if tty { (io.stdout.clone(), io.stdout.clone()) } else { (io.stdout.clone(), io.stderr.clone()) };
            let (tag, raw, killed) = match found {
                Some((tag, script, _)) => {
                    tokio::select! {
                        p = play(&sc, pid, &tag, &script, data, caches, Some(out), Some(err)) => (tag.clone(), p.raw, false),
                        _ = notify.notified() => (tag.clone(), 137 << 8, true),
                    }
                }
                // the script is not the command of any step
                None => (String::new(), 0, false),
            };
            rec(Ev::Proc {
                pid,
                what: if killed { "killed".into() } else { "exit".into() },
                detail: json!({"tag": tag, "raw": raw, "container": name2}),
            });
            if let Some(c) = cs2.lock().unwrap().get_mut(&name2) {
                c.done = Some(raw);
            }
            tx.send(raw).ok();
        });
        let raw = rx.await.unwrap_or(1 << 8);
        // a container's exit status, as the client reports it: 128 + n for a signal
        let raw = if raw & 0x7f != 0 { (128 + (raw & 0x7f)) << 8 } else { raw };
        ExitStatus::from_raw(raw)
    })
}

#[allow(clippy::too_many_arguments)]
async fn play(
    sc: &Scenario,
    pid: u32,
    tag: &str,
    script: &Script,
    cwd: Option<PathBuf>,
    caches: Option<PathBuf>,
    out: Option<PipeWriter>,
    err: Option<PipeWriter>,
) -> Played {
    let scratch = LOCAL.with(|l| l.borrow().scratch.clone());
    let hang_ms = sc
        .wfs
        .iter()
        .flat_map(|w| w.jobs.iter())
        .flat_map(|j| j.resolved())
        .find(|s| s.tag == tag)
        .map(|s| s.hang_ms())
        .unwrap_or(3 * 3_600_000);
    let (mut out, mut err) = (out, err);
    let mut count = 0;
    let chunk = sc.local.chunk.max(1) as usize;
    for op in &script.ops {
        match op {
            Op::Log { n, err: e, flavour } => {
                for _ in 0..*n {
                    let l = line(tag, count, *flavour);
                    count += 1;
                    if !write_bytes(pid, *e, if *e { &err } else { &out }, format!("{}\n", l).as_bytes(), chunk).await {
                        return Played { raw: 13 };
                    }
                }
            }
            Op::Raw { err: e, bytes } => {
                if !write_bytes(pid, *e, if *e { &err } else { &out }, bytes, chunk).await {
                    return Played { raw: 13 };
                }
            }
            Op::Sleep(ms) => sleep(Duration::from_millis(*ms)).await,
            Op::Yield => tokio::task::yield_now().await,
            Op::Hang => sleep(Duration::from_millis(hang_ms)).await,
            Op::CloseOut => out = None,
            Op::CloseErr => err = None,
            Op::Write(f) | Op::LinkOut(f) | Op::Cache(f) => {
                let dir = if matches!(op, Op::Cache(_)) { caches.clone() } else { cwd.clone() };
                let Some(d) = dir else { continue };
                let _h = HostGuard::new();
                let p = d.join(f);
                let ok = p.starts_with(&scratch)
                    && match op {
                        Op::LinkOut(_) => std::os::unix::fs::symlink(scratch.join("victim"), &p).is_ok(),
                        _ => std::fs::write(&p, format!("<{}>", tag)).is_ok(),
                    };
                rec(Ev::Proc { pid, what: "write".into(), detail: json!({"tag": tag, "file": f, "ok": ok, "op": format!("{:?}", op)}) });
            }
            Op::Read(f) => {
                let Some(d) = &cwd else { continue };
                let _h = HostGuard::new();
                let c = std::fs::read_to_string(d.join(f)).ok();
                rec(Ev::Proc { pid, what: "read".into(), detail: json!({"tag": tag, "file": f, "content": c}) });
            }
        }
    }
    let raw = match script.end {
        End::Ok => 0,
        End::Cancelled => 1 << 8,
        End::Fail(c) => (c & 0xff) << 8,
        End::Killed(s) => s,
    };
    Played { raw }
}

async fn write_bytes(pid: u32, err: bool, w: &Option<PipeWriter>, bytes: &[u8], chunk: usize) -> bool {
    let Some(w) = w else { return true };
    rec(Ev::Proc { pid, what: "out".into(), detail: json!({"err": err, "bytes": bytes}) });
    for c in bytes.chunks(chunk) {
        if w.write(c).await.is_err() {
            return false;
        }
        if chunk < 64 && bytes.len() < 400 && simcore::choose_p("wr", 2, simcore::strategy().net / 4) == 1 {
            sleep(Duration::from_millis(1)).await;
        }
    }
    true
}
