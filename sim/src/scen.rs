//! Scenarios: what a simulated run executes, as data.  A scenario, a seed and a decision trace
//! identify one run completely.
use serde::{Deserialize, Serialize};
use simcore::Rng;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub world: World,
    pub mt: bool,
    pub strat: Strat,
    pub capture: bool,
    pub wfs: Vec<WfSpec>,
    pub plugins: Vec<ObsSpec>,
    pub runner: ObsSpec,
    pub servers: Vec<ServerSpec>,
    pub controls: Vec<Control>,
    pub github: Option<GithubSpec>,
    pub local: LocalSpec,
    pub micro: Option<crate::micro::MicroSpec>,
    /// virtual time after which an unfinished run counts as hung
    pub horizon_ms: u64,
    pub settle_ms: u64,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum World {
    Engine,
    Remote,
    Local,
    Micro,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Strat {
    pub sched: u32,
    pub pct: u32,
    pub lock: u32,
    pub select: u32,
    pub net: u32,
    pub fault: u32,
}
impl Strat {
    pub fn calm() -> Strat {
        Strat { sched: 0, pct: 0, lock: 0, select: 0, net: 0, fault: 0 }
    }
    pub fn to_core(&self) -> simcore::Strategy {
        simcore::Strategy {
            sched: self.sched,
            pct: self.pct,
            lock: self.lock,
            select: self.select,
            net: self.net,
            fault: self.fault,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WfSpec {
    pub id: String,
    pub name: Option<String>,
    pub start_ms: u64,
    /// start when this other workflow has ended (a re-run when the id is the same)
    pub after: Option<usize>,
    pub on: Option<CondSpec>,
    pub event: Option<EventSpec>,
    pub payload: Option<String>,
    pub jobs: Vec<JobSpec>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct EventSpec {
    pub event: String,
    pub owner: String,
    pub repo: String,
    pub pr: Option<i64>,
    pub sha: String,
    pub branch: String,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CondSpec {
    Events(Vec<String>),
    Config { push: Option<BP>, pr: Option<BP> },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BP {
    pub branches: Option<Vec<String>>,
    pub paths: Option<Vec<String>>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct JobSpec {
    pub key: String,
    pub name: Option<String>,
    pub depends: Vec<String>,
    pub on: Option<CondSpec>,
    pub container: Option<ContSpec>,
    pub steps: Vec<UStep>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ContSpec {
    pub name: String,
    pub volumes: Option<Vec<String>>,
    pub opts: Option<Vec<String>>,
    /// written as a mapping in the configuration
    pub full: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum UStep {
    Cmd(StepSpec),
    Action { pre: Option<StepSpec>, run: StepSpec, post: Option<StepSpec>, dynamic: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct StepSpec {
    pub tag: String,
    pub name: Option<String>,
    pub run: String,
    pub on: Option<CondSpec>,
    pub cont: bool,
    pub timeout_ms: Option<u64>,
    pub container: Option<ContSpec>,
    pub env: Vec<(String, EnvVal)>,
    pub secrets: Vec<String>,
    pub script: Script,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EnvVal {
    S(String),
    N(f64),
    /// a number given by its bits: any finite double
    F(u64),
    B(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Script {
    /// how long `run` takes before it returns
    pub run_ms: u64,
    /// `run` itself fails
    pub run_err: bool,
    pub ops: Vec<Op>,
    pub end: End,
    pub react: Option<React>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Log { n: u32, err: bool, flavour: u8 },
    Sleep(u64),
    Yield,
    /// until a signal comes (or, as a backstop, three hours)
    Hang,
    /// local world: a file operation by the command in its working directory
    Write(String),
    Read(String),
    /// close standard output (or standard error) and go on
    CloseOut,
    CloseErr,
    /// raw bytes, not a line of their own
    Raw { err: bool, bytes: Vec<u8> },
    /// a symbolic link to somewhere outside
    LinkOut(String),
    Cache(String),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Ok,
    Fail(i32),
    Cancelled,
    /// killed by a signal (local world)
    Killed(i32),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct React {
    pub delay_ms: u64,
    pub logs: u32,
    /// None: cancelled for a cancel signal, timeout for a timeout signal
    pub end: Option<End>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct ObsSpec {
    /// built with AstroRunPlugin::builder (synchronous callbacks)
    pub builder: bool,
    pub delay_ms: u64,
    pub delay_p: u32,
    pub fail_p: u32,
    pub before: Vec<Transform>,
    pub before_fail: u32,
    pub before_delay: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Transform {
    Append(String),
    Env(String, String),
    Secret(String),
    Image(String),
    Timeout(u64),
    Name(String),
    /// the other `continue_on_error`
    Cont,
    /// an image with volumes and options
    Mount(String),
    /// without name, environment, secrets and image
    Bare,
    /// another script
    Run(String),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ServerSpec {
    pub id: String,
    pub docker: bool,
    pub host: bool,
    pub base_ms: u64,
    pub jitter_ms: u64,
    /// which calls of the client's `start` name it, a set of bits
    #[serde(default = "one")]
    pub calls: u32,
    pub plugins: Vec<ObsSpec>,
    pub runner: ObsSpec,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Control {
    pub trig: Trig,
    pub act: Act,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Trig {
    At(u64),
    On { key: String, nth: u32, delay_ms: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Cancel { job: String },
    WallJump { ms: i64 },
    Crash { server: usize, abrupt: bool, restart_ms: Option<u64> },
    Reset { server: usize },
    Partition { server: usize, ms: u64 },
    Refuse { server: usize, ms: u64 },
    Stall { server: usize, ms: u64 },
    /// the future of one call of `start` is dropped
    StopCall { call: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct GithubSpec {
    pub app: bool,
    pub auth: bool,
    pub delay_ms: u64,
    /// per request number: None answers, Some(status) fails; 0 = transport error; 1 = malformed body
    pub fails: Vec<Option<u16>>,
    /// changed files by (repo)
    pub files: Vec<(String, Vec<String>)>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct LocalSpec {
    /// probability (1/1000) of an error per file-system mutation
    pub fs_p: u32,
    /// probability (1/1000) that a process cannot be started
    pub spawn_p: u32,
    pub plugins: Vec<ObsSpec>,
    /// processes ignore the kill for this long (docker kill takes time)
    pub kill_ms: u64,
    /// how a process writes: bytes per chunk
    pub chunk: u32,
    /// pre-existing files of other workflows, and caches
    pub decoys: bool,
    /// scripts of an earlier run with these ids that did not come to its end
    #[serde(default)]
    pub stale: bool,
    /// steps whose signal is already raised when the runner is asked to run them
    pub preraise: Vec<(String, String)>,
}

impl Scenario {
    pub fn empty(prop: &str, world: World) -> Scenario {
        Scenario {
            prop: prop.into(),
            world,
            mt: false,
            strat: Strat::calm(),
            capture: false,
            wfs: vec![],
            plugins: vec![],
            runner: ObsSpec::default(),
            servers: vec![],
            controls: vec![],
            github: None,
            local: LocalSpec::default(),
            micro: None,
            horizon_ms: 90 * 24 * 3_600_000,
            settle_ms: 5_000,
        }
    }
    pub fn local_preraise(&self) -> Vec<(String, String)> {
        self.local.preraise.clone()
    }
    pub fn job(&self, jid: &str) -> Option<(&WfSpec, &JobSpec)> {
        let (w, k) = jid.split_once('/')?;
        let wf = self.wfs.iter().find(|x| x.id == w)?;
        let job = wf.jobs.iter().find(|j| j.key == k)?;
        Some((wf, job))
    }
    pub fn step(&self, sid: &str) -> Option<(&WfSpec, &JobSpec, &StepSpec)> {
        let (jid, n) = sid.rsplit_once('/')?;
        let (w, j) = self.job(jid)?;
        let n: usize = n.parse().ok()?;
        let s = j.resolved().get(n).copied()?;
        Some((w, j, s))
    }
}
impl JobSpec {
    /// The order in which the documentation says the steps run: the setup steps of actions first,
    /// the teardown steps last, in reverse order of their actions.
    pub fn resolved(&self) -> Vec<&StepSpec> {
        let mut pre = vec![];
        let mut run = vec![];
        let mut post = vec![];
        for s in &self.steps {
            match s {
                UStep::Cmd(s) => run.push(s),
                UStep::Action { pre: p, run: r, post: q, .. } => {
                    if let Some(p) = p {
                        pre.push(p);
                    }
                    run.push(r);
                    if let Some(q) = q {
                        post.push(q);
                    }
                }
            }
        }
        post.reverse();
        pre.into_iter().chain(run).chain(post).collect()
    }
    pub fn step_specs_mut(&mut self) -> Vec<&mut StepSpec> {
        let mut v = vec![];
        for s in self.steps.iter_mut() {
            match s {
                UStep::Cmd(s) => v.push(s),
                UStep::Action { pre, run, post, .. } => {
                    if let Some(p) = pre {
                        v.push(p)
                    }
                    v.push(run);
                    if let Some(p) = post {
                        v.push(p)
                    }
                }
            }
        }
        v
    }
}

// ---- rendering to configuration text ---------------------------------------------------------

use serde_yaml::{Mapping, Value as Y};
fn ys(s: &str) -> Y {
    Y::String(s.to_string())
}
fn yl(v: &[String]) -> Y {
    Y::Sequence(v.iter().map(|s| ys(s)).collect())
}
impl CondSpec {
    pub fn yaml(&self) -> Y {
        match self {
            CondSpec::Events(e) => yl(e),
            CondSpec::Config { push, pr } => {
                let mut m = Mapping::new();
                for (k, v) in [("push", push), ("pull_request", pr)] {
                    if let Some(v) = v {
                        let mut b = Mapping::new();
                        if let Some(x) = &v.branches {
                            b.insert(ys("branches"), yl(x));
                        }
                        if let Some(x) = &v.paths {
                            b.insert(ys("paths"), yl(x));
                        }
                        m.insert(ys(k), Y::Mapping(b));
                    }
                }
                Y::Mapping(m)
            }
        }
    }
    pub fn real(&self) -> astro_run::Condition {
        serde_yaml::from_value(self.yaml()).expect("condition")
    }
}
impl ContSpec {
    fn yaml(&self) -> Y {
        if !self.full {
            return ys(&self.name);
        }
        let mut m = Mapping::new();
        m.insert(ys("name"), ys(&self.name));
        if let Some(v) = &self.volumes {
            m.insert(ys("volumes"), yl(v));
        }
        if let Some(v) = &self.opts {
            m.insert(ys("security-opts"), yl(v));
        }
        Y::Mapping(m)
    }
    pub fn json(&self) -> serde_json::Value {
        serde_json::json!({
            "name": self.name,
            "volumes": if self.full { self.volumes.clone() } else { None },
            "security-opts": if self.full { self.opts.clone() } else { None },
        })
    }
    pub fn real(&self) -> astro_run::Container {
        serde_yaml::from_value(self.yaml()).expect("container")
    }
}
impl StepSpec {
    pub fn yaml(&self) -> Y {
        let mut m = Mapping::new();
        if let Some(n) = &self.name {
            m.insert(ys("name"), ys(n));
        }
        m.insert(ys("run"), ys(&self.run));
        if let Some(c) = &self.on {
            m.insert(ys("on"), c.yaml());
        }
        if self.cont {
            m.insert(ys("continue-on-error"), Y::Bool(true));
        }
        if let Some(t) = self.timeout_ms {
            m.insert(ys("timeout"), ys(&format!("{}ms", t)));
        }
        if let Some(c) = &self.container {
            m.insert(ys("container"), c.yaml());
        }
        if !self.env.is_empty() {
            let mut e = Mapping::new();
            for (k, v) in &self.env {
                e.insert(
                    ys(k),
                    match v {
                        EnvVal::S(s) => ys(s),
                        EnvVal::N(n) => Y::Number((*n).into()),
                        EnvVal::F(b) => Y::Number(f64::from_bits(*b).into()),
                        EnvVal::B(b) => Y::Bool(*b),
                    },
                );
            }
            m.insert(ys("environments"), Y::Mapping(e));
        }
        if !self.secrets.is_empty() {
            m.insert(ys("secrets"), yl(&self.secrets));
        }
        Y::Mapping(m)
    }
    pub fn user(&self) -> astro_run::UserStep {
        serde_yaml::from_value(self.yaml()).expect("step")
    }
    /// How long a step that hangs is there to stay.
    pub fn hang_ms(&self) -> u64 {
        (3 * 3_600_000).max(self.timeout() + 3_600_000)
    }
    pub fn timeout(&self) -> u64 {
        self.timeout_ms.unwrap_or(3_600_000)
    }
    /// The step as it must reach the runner.
    pub fn expected(&self, id: &str, job: &JobSpec) -> serde_json::Value {
        let parts: Vec<&str> = id.split('/').collect();
        let n: usize = parts[2].parse().unwrap();
        let t = self.timeout();
        let mut env = serde_json::Map::new();
        for (k, v) in &self.env {
            env.insert(
                k.clone(),
                match v {
                    EnvVal::S(s) => serde_json::json!(s),
                    EnvVal::N(n) => serde_json::json!(n),
                    EnvVal::F(b) => serde_json::json!(f64::from_bits(*b)),
                    EnvVal::B(b) => serde_json::json!(b),
                },
            );
        }
        serde_json::json!({
            "id": [parts[0], parts[1], n],
            "name": self.name,
            "container": self.container.as_ref().or(job.container.as_ref()).map(|c| c.json()),
            "run": self.run,
            "continue_on_error": self.cont,
            "environments": env,
            "secrets": self.secrets,
            "timeout": { "secs": t / 1000, "nanos": (t % 1000) * 1_000_000 },
        })
    }
}
impl WfSpec {
    pub fn yaml(&self) -> String {
        let mut m = Mapping::new();
        if let Some(n) = &self.name {
            m.insert(ys("name"), ys(n));
        }
        if let Some(c) = &self.on {
            m.insert(ys("on"), c.yaml());
        }
        let mut jobs = Mapping::new();
        for j in &self.jobs {
            let mut jm = Mapping::new();
            if let Some(n) = &j.name {
                jm.insert(ys("name"), ys(n));
            }
            if let Some(c) = &j.on {
                jm.insert(ys("on"), c.yaml());
            }
            if let Some(c) = &j.container {
                jm.insert(ys("container"), c.yaml());
            }
            if !j.depends.is_empty() {
                jm.insert(ys("depends-on"), yl(&j.depends));
            }
            let mut steps = vec![];
            for s in &j.steps {
                match s {
                    UStep::Cmd(s) => steps.push(s.yaml()),
                    UStep::Action { run, .. } => {
                        let mut a = Mapping::new();
                        a.insert(ys("uses"), ys(&format!("act-{}", run.tag)));
                        steps.push(Y::Mapping(a));
                    }
                }
            }
            jm.insert(ys("steps"), Y::Sequence(steps));
            jobs.insert(ys(&j.key), Y::Mapping(jm));
        }
        m.insert(ys("jobs"), Y::Mapping(jobs));
        serde_yaml::to_string(&Y::Mapping(m)).expect("yaml")
    }
    pub fn real_event(&self) -> Option<astro_run::TriggerEvent> {
        self.event.as_ref().map(|e| astro_run::TriggerEvent {
            event: e.event.clone(),
            repo_owner: e.owner.clone(),
            repo_name: e.repo.clone(),
            pr_number: e.pr,
            sha: e.sha.clone(),
            branch: e.branch.clone(),
            ref_name: format!("refs/heads/{}", e.branch),
        })
    }
    /// Whether every job can get to run: the dependencies exist and have no cycle.
    pub fn satisfiable(&self) -> bool {
        if self.jobs.is_empty() || self.jobs.iter().any(|j| j.steps.is_empty()) {
            return false;
        }
        let mut done: Vec<&str> = vec![];
        loop {
            let before = done.len();
            for j in &self.jobs {
                if !done.contains(&j.key.as_str()) && j.depends.iter().all(|d| done.contains(&d.as_str())) {
                    done.push(&j.key);
                }
            }
            if done.len() == self.jobs.len() {
                return true;
            }
            if done.len() == before {
                return false;
            }
        }
    }
}

// ---- generation -------------------------------------------------------------------------------

/// What a property's scenarios look like: knobs of the generator.
#[derive(Clone, Debug)]
pub struct K {
    /// numbers with many digits in environments
    pub floats: bool,
    pub wfs: (u64, u64),
    pub jobs: (u64, u64),
    pub steps: (u64, u64),
    pub dep: u64,
    pub bad_graph: u64,
    pub action: u64,
    pub on: u64,
    pub fail: u64,
    pub cancelled: u64,
    pub run_err: u64,
    pub cont: u64,
    pub timeout: u64,
    pub hang: u64,
    pub burst: u64,
    pub logs: u64,
    pub plugins: (u64, u64),
    pub slow_obs: u64,
    pub fail_obs: u64,
    pub cancels: (u64, u64),
    pub jumps: u64,
    pub mt: u64,
    pub servers: (u64, u64),
    pub containers: u64,
    pub net_faults: u64,
    pub slow_net: u64,
    pub rich: u64,
    pub before: u64,
    pub rerun: u64,
    pub github: u64,
    pub fs: u64,
    /// Now and then: many jobs, many steps
    pub wide: u64,
    /// Now and then: hours
    pub long: u64,
}
impl K {
    fn base() -> K {
        K {
            wfs: (1, 1),
            jobs: (1, 5),
            steps: (1, 4),
            dep: 45,
            bad_graph: 0,
            action: 8,
            on: 0,
            fail: 15,
            cancelled: 4,
            run_err: 5,
            cont: 20,
            timeout: 10,
            hang: 3,
            burst: 2,
            logs: 50,
            plugins: (0, 2),
            slow_obs: 25,
            fail_obs: 15,
            cancels: (0, 1),
            jumps: 5,
            mt: 35,
            servers: (1, 3),
            containers: 30,
            net_faults: 0,
            slow_net: 40,
            rich: 0,
            before: 0,
            rerun: 0,
            github: 0,
            fs: 0,
            wide: 3,
            long: 2,
            floats: false,
        }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub k: K,
    tagn: u32,
    style: u64,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng) -> Gen<'a> {
        Gen { r, k: K::base(), tagn: 0, style: 0 }
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.r.below(100) < p
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.r.below(v.len() as u64) as usize].clone()
    }
    pub fn rng(&mut self, r: (u64, u64)) -> u64 {
        self.r.range(r.0, r.1)
    }
    /// Names that are easily taken for one another.
    fn job_key(&self, i: u64) -> String {
        match self.style {
            1 => "j".repeat(i as usize + 1),
            2 => format!("build{}", "-1".repeat(i as usize)),
            3 => format!("{}ob{}", if i % 2 == 0 { "J" } else { "j" }, i / 2),
            4 => format!("jöb {}", i),
            // wf `a`, job `b-c`; wf `a-b`, job `c`
            5 => format!("{}c", "b-".repeat(i as usize)),
            _ => format!("j{}", i),
        }
    }
    pub fn wf_id(&self, i: u64) -> String {
        match self.style {
            1 => "w".repeat(i as usize + 1),
            2 => format!("wf{}", "-1".repeat(i as usize)),
            3 => format!("{}{}", if i % 2 == 0 { "W" } else { "w" }, i / 2),
            4 => format!("wörk {}", i),
            5 => format!("a{}", "-b".repeat(i as usize)),
            _ => format!("w{}", i),
        }
    }
    pub fn ms(&mut self) -> u64 {
        self.pick(&[0, 0, 1, 1, 2, 3, 5, 8, 10, 13, 20, 40, 50, 77, 100, 250, 500, 1000, 2500])
    }
    pub fn strat(&mut self, faulty: bool) -> Strat {
        let sched = self.pick(&[0, 0, 50, 200, 500, 1000]);
        Strat {
            sched,
            pct: if self.pct(25) { 1 + self.r.below(4) as u32 } else { 0 },
            lock: self.pick(&[0, 20, 60, 150, 300]),
            select: self.pick(&[0, 200, 1000, 1000]),
            net: self.pick(&[0, 100, 400, 1000]),
            fault: if faulty { self.pick(&[0, 20, 100]) } else { 0 },
        }
    }
    pub fn end(&mut self) -> End {
        if self.pct(self.k.fail) {
            End::Fail(self.pick(&[1, 1, 2, 3, 7, 42, 123, 126, 127, 255, -1, 0, 137, 256, 65_536, i32::MAX, i32::MIN]))
        } else if self.pct(self.k.cancelled) {
            End::Cancelled
        } else {
            End::Ok
        }
    }
    pub fn script(&mut self) -> Script {
        let mut ops = vec![];
        let n = self.r.below(5);
        for _ in 0..n {
            if self.pct(self.k.logs) {
                let cnt = if self.pct(self.k.burst) {
                    if self.pct(3) { 1100 } else { self.pick(&[31, 64, 90, 150, 260]) }
                } else {
                    1 + self.r.below(3) as u32
                };
                let flavour = self.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 9]);
                let flavour = if flavour == 6 && (cnt > 3 || self.pct(80)) { 0 } else { flavour };
                ops.push(Op::Log { n: cnt, err: self.pct(25), flavour });
            } else if self.pct(25) {
                ops.push(Op::Yield);
            } else {
                ops.push(Op::Sleep(self.ms()));
            }
        }
        if self.pct(self.k.long) {
            ops.push(Op::Sleep(self.pick(&[61_000, 3_599_000, 3_700_000, 30_000_000])));
        }
        if self.pct(self.k.hang) {
            ops.push(Op::Hang);
        }
        let react = if self.pct(80) {
            Some(React {
                delay_ms: self.pick(&[0, 0, 0, 1, 5, 50, 400]),
                logs: self.pick(&[0, 0, 1, 3]),
                end: if self.pct(15) { Some(self.end()) } else { None },
            })
        } else {
            None
        };
        Script {
            run_ms: if self.pct(30) { self.ms() } else { 0 },
            run_err: self.pct(self.k.run_err),
            ops,
            end: self.end(),
            react,
        }
    }
    pub fn cont_spec(&mut self) -> ContSpec {
        let name = self.pick(&["host/linux", "host/linux-x86_64", "ubuntu", "alpine:3", "node:18", "host/windows", "host/macos-aarch64"]);
        let full = self.pct(40);
        ContSpec {
            name: name.into(),
            volumes: if full && self.pct(60) { Some(vec!["/tmp/a:/b".into()]) } else { None },
            opts: if full && self.pct(40) { Some(vec!["seccomp=unconfined".into()]) } else { None },
            full,
        }
    }
    pub fn step(&mut self) -> StepSpec {
        self.tagn += 1;
        let tag = format!("s{}", self.tagn);
        let script = self.script();
        let rich = self.pct(self.k.rich);
        let timeout_ms = if self.pct(self.k.timeout) {
            // somewhere around the time the step takes
            let total: u64 = script.ops.iter().map(|o| if let Op::Sleep(t) = o { *t } else { 0 }).sum();
            let t = match self.r.below(7) {
                // hours and days
                6 if self.pct(30) => self.pick(&[5_400_000, 21_601_000, 90_000_000, 259_200_000]),
                0 => total.max(1),
                1 => total + 1,
                2 => (total / 2).max(1),
                3 => total.saturating_sub(1).max(1),
                4 => total * 2 + 5,
                5 if self.k.timeout > 70 && self.pct(10) => 0,
                _ => self.ms().max(1),
            };
            Some(t)
        } else if rich && self.pct(50) {
            Some(self.pick(&[3_600_000, 61_000, 86_400_000, 1_234_567]))
        } else {
            None
        };
        let mut env = vec![];
        let mut secrets = vec![];
        if rich {
            for i in 0..self.r.below(4) {
                let v = match self.r.below(6) {
                    0 => EnvVal::B(self.pct(50)),
                    1 if self.k.floats && self.pct(15) => {
                        let n = self.r.below(1 << 53) as f64 / (1u64 << self.r.below(60)) as f64;
                        EnvVal::F(n.to_bits())
                    }
                    1 => EnvVal::N(self.pick(&[0.0, 1.0, -2.5, 1e15, 0.1, 3.0e-7, 1e300, 5e-324, -1234567.25])),
                    2 => EnvVal::S("".into()),
                    3 => EnvVal::S("a \"quoted\" $value\nline2".into()),
                    4 => EnvVal::S("ünïcødé ☃".into()),
                    _ => EnvVal::S(format!("v{}", i)),
                };
                env.push((format!("K{}_{}", i, self.tagn), v));
            }
            for i in 0..self.r.below(3) {
                secrets.push(format!("SECRET_{}", i));
            }
        }
        StepSpec {
            name: if rich && self.pct(70) { Some(self.pick(&["Build", "", "näme: \"x\"", "a\nb", "  padded "]).to_string()) } else { None },
            run: if rich {
                format!("echo {} {}", tag, self.pick(&["", "\"$HOME\"", "a\nline2\n", "tab\there", "☃", "#! not", "- x: y"]))
            } else {
                format!("echo {}", tag)
            },
            tag,
            on: None,
            cont: self.pct(self.k.cont),
            timeout_ms,
            container: if self.pct(self.k.containers) { Some(self.cont_spec()) } else { None },
            env,
            secrets,
            script,
        }
    }
    pub fn job(&mut self, key: String, wide: bool) -> JobSpec {
        let n = match wide {
            true if self.pct(90) => 1,
            true => self.r.range(8, 24),
            false => self.rng(self.k.steps),
        };
        let mut steps = vec![];
        for _ in 0..n {
            if self.pct(self.k.action) {
                steps.push(UStep::Action {
                    pre: if self.pct(60) { Some(self.step()) } else { None },
                    run: self.step(),
                    post: if self.pct(60) { Some(self.step()) } else { None },
                    dynamic: self.pct(40),
                });
            } else {
                steps.push(UStep::Cmd(self.step()));
            }
        }
        JobSpec {
            key,
            name: if self.pct((self.k.rich / 2).max(12)) { Some("Job näme".into()) } else { None },
            depends: vec![],
            on: None,
            container: if self.pct(self.k.containers) { Some(self.cont_spec()) } else { None },
            steps,
        }
    }
    pub fn wf(&mut self, id: String) -> WfSpec {
        let wide = self.pct(self.k.wide);
        let n = match wide {
            true if self.pct(70) => self.r.range(11, 32),
            _ => self.rng(self.k.jobs),
        };
        let keys: Vec<String> = (0..n).map(|i| self.job_key(i)).collect();
        let mut jobs: Vec<JobSpec> = keys.iter().map(|k| self.job(k.clone(), wide)).collect();
        if wide && self.pct(50) {
            // all at the same moment
            for s in jobs.iter_mut().flat_map(|j| j.step_specs_mut()) {
                s.script.ops.clear();
                s.script.run_ms = 0;
            }
        }
        let dep = if n > 10 { self.pick(&[0, 0, 2, 10]) } else { self.k.dep };
        let most = if self.pct(90) { 3 } else { 16 };
        let dep = if most > 3 { dep.max(10) } else { dep };
        for i in 1..jobs.len() {
            for j in 0..i {
                if self.pct(dep) && jobs[i].depends.len() < most {
                    let k = jobs[j].key.clone();
                    jobs[i].depends.push(k);
                }
            }
        }
        if n > 10 && self.pct(35) {
            // one before all others, or layers of which each waits for the one before
            let layer = if self.pct(60) { n } else { self.r.range(4, 20) };
            for i in 1..jobs.len() {
                jobs[i].depends = match (i as u64 - 1) / layer {
                    0 => vec![jobs[0].key.clone()],
                    l => (1 + (l - 1) * layer..1 + l * layer).map(|j| jobs[j as usize].key.clone()).collect(),
                };
            }
        }
        if self.pct(self.k.bad_graph) {
            let i = self.r.below(jobs.len() as u64) as usize;
            match self.r.below(5) {
                0 => {
                    let k = jobs[i].key.clone();
                    jobs[i].depends.push(k);
                }
                1 => jobs[i].depends.push("nowhere".into()),
                _ => {
                    let j = self.r.below(jobs.len() as u64) as usize;
                    let k = jobs[j].key.clone();
                    if !jobs[i].depends.contains(&k) {
                        jobs[i].depends.push(k);
                    }
                }
            }
        } else if self.pct(if self.k.bad_graph > 0 { 5 } else { 3 }) {
            // a duplicate in the list is not a cycle
            if let Some(j) = jobs.iter_mut().find(|j| !j.depends.is_empty()) {
                let d = j.depends[0].clone();
                j.depends.push(d);
            }
        }
        // the order in the text means nothing
        if self.pct(50) {
            jobs.reverse();
        }
        WfSpec {
            id,
            name: None,
            start_ms: 0,
            after: None,
            on: None,
            event: None,
            payload: None,
            jobs,
        }
    }
    pub fn obs(&mut self) -> ObsSpec {
        let slow = self.pct(self.k.slow_obs);
        let very = slow && self.pct(10);
        let fails = self.pct(self.k.fail_obs);
        ObsSpec {
            builder: self.pct(25),
            delay_ms: if very { self.pick(&[2_000, 12_000, 40_000, 200_000, 900_000]) } else if slow { self.pick(&[1, 2, 5, 20, 80]) } else { 0 },
            delay_p: if very { self.pick(&[10, 50, 200]) } else if slow { self.pick(&[100, 300, 1000]) } else { 0 },
            fail_p: if fails { self.pick(&[100, 500, 1000]) } else { 0 },
            before: vec![],
            before_fail: 0,
            before_delay: 0,
        }
    }
    pub fn transforms(&mut self, who: &str) -> Vec<Transform> {
        let n = self.r.below(3);
        (0..n)
            .map(|i| match self.r.below(10) {
                6 => Transform::Cont,
                7 => Transform::Mount(format!("m-{}", who)),
                8 => Transform::Bare,
                9 => Transform::Run(self.pick(&["", "exit 0", "#!/bin/bash\nécho\n"]).to_string()),
                0 => Transform::Env(format!("T_{}", who), format!("{}", i)),
                1 => Transform::Secret(format!("S_{}", who)),
                2 => Transform::Image(self.pick(&["ubuntu", "alpine", "host/linux"]).to_string()),
                3 => Transform::Timeout(self.pick(&[5_000, 60_000, 7_200_000])),
                4 => Transform::Name(format!("named-{}", who)),
                _ => Transform::Append(format!("; {}{}", who, i)),
            })
            .collect()
    }
    pub fn event(&mut self) -> EventSpec {
        let pr = self.pct(50);
        EventSpec {
            event: if pr { "pull_request".into() } else { "push".into() },
            owner: self.pick(&["acme", "octo"]).to_string(),
            repo: self.pick(&["app", "lib"]).to_string(),
            pr: if pr { Some(self.pick(&[1, 7, 123456])) } else { None },
            sha: self.pick(&["abc123", "feed", "000"]).to_string(),
            branch: self.pick(&["main", "dev", "release/1", "feature/x-y"]).to_string(),
        }
    }
    pub fn cond(&mut self) -> CondSpec {
        if self.pct(25) {
            return CondSpec::Events(self.pick(&[
                vec!["push".to_string()],
                vec!["pull_request".to_string()],
                vec!["push".to_string(), "pull_request".to_string()],
                vec!["schedule".to_string()],
                vec![],
            ]));
        }
        let bp = |g: &mut Self| BP {
            branches: if g.pct(50) {
                Some(g.pick(&[
                    vec!["main".to_string()],
                    vec!["release/*".to_string()],
                    vec!["dev".to_string(), "main".to_string()],
                    vec!["feature/**".to_string()],
                    vec![],
                ]))
            } else {
                None
            },
            paths: if g.pct(60) {
                Some(g.pick(&[
                    vec!["src/*".to_string()],
                    vec!["*.md".to_string()],
                    vec!["docs/**".to_string(), "Cargo.toml".to_string()],
                    vec!["**/*.rs".to_string()],
                    vec!["[".to_string()],
                    vec![],
                ]))
            } else {
                None
            },
        };
        CondSpec::Config {
            push: if self.pct(70) { Some(bp(self)) } else { None },
            pr: if self.pct(70) { Some(bp(self)) } else { None },
        }
    }
    /// A moment of the run, most of them close to something happening to this job.
    pub fn trigger(&mut self, wf: &WfSpec, job: &JobSpec) -> Trig {
        let jid = format!("{}/{}", wf.id, job.key);
        let n = job.resolved().len() as u64;
        let sid = format!("{}/{}", jid, self.r.below(n));
        let delay_ms = if self.pct(60) { 0 } else { self.ms() };
        let key = match self.r.below(14) {
            0 => return Trig::At(self.ms()),
            1 => format!("job:{}", jid),
            2 => format!("state:{}:in_progress", jid),
            3 => format!("step:{}", sid),
            4 => format!("run:{}", sid),
            5 | 6 => format!("state:{}:in_progress", sid),
            7 => format!("start:{}", sid),
            8 => format!("log:{}", sid),
            9 => format!("end:{}", sid),
            10 | 11 => format!("done:{}", sid),
            12 => format!("emit:{}", sid),
            _ => format!("done:{}", jid),
        };
        Trig::On { key, nth: 0, delay_ms }
    }
    pub fn cancels(&mut self, sc: &mut Scenario) {
        let n = self.rng(self.k.cancels);
        for _ in 0..n {
            let w = self.r.below(sc.wfs.len() as u64) as usize;
            let wf = sc.wfs[w].clone();
            let j = self.r.below(wf.jobs.len() as u64) as usize;
            let job = wf.jobs[j].clone();
            let jid = format!("{}/{}", wf.id, job.key);
            let trig = if self.pct(85) {
                self.trigger(&wf, &job)
            } else {
                // at a moment of another job
                let o = self.r.below(wf.jobs.len() as u64) as usize;
                let other = wf.jobs[o].clone();
                self.trigger(&wf, &other)
            };
            let target = if self.pct(4) { format!("{}/nosuchjob", wf.id) } else { jid };
            sc.controls.push(Control { trig: trig.clone(), act: Act::Cancel { job: target.clone() } });
            if self.pct(25) {
                let trig = if self.pct(50) { trig } else { Trig::On { key: format!("cancelled:{}", target), nth: 0, delay_ms: self.ms() } };
                sc.controls.push(Control { trig, act: Act::Cancel { job: target } });
            }
        }
    }
    pub fn server(&mut self, i: usize) -> ServerSpec {
        let slow = self.pct(self.k.slow_net);
        let docker = self.pct(80);
        ServerSpec {
            id: format!("r{}", i),
            docker,
            host: if docker { self.pct(75) } else { true },
            base_ms: if slow { self.pick(&[0, 1, 5, 20, 60]) } else { 0 },
            jitter_ms: if slow { self.pick(&[0, 5, 40, 200]) } else { 0 },
            calls: 1,
            plugins: (0..self.r.below(2)).map(|_| self.obs()).collect(),
            runner: self.obs(),
        }
    }
    pub fn scenario(&mut self, prop: &str, world: World) -> Scenario {
        let mut sc = Scenario::empty(prop, world);
        let mut n = self.rng(self.k.wfs);
        if n > 2 && matches!(prop, "C19" | "C21") && self.pct(6) {
            n += self.r.range(2, 5);
        }
        self.style = match world {
            _ if self.pct(60) => 0,
            World::Local => self.pick(&[1, 2, 3, 5]),
            _ => self.r.range(1, 5),
        };
        for i in 0..n {
            let id = self.wf_id(i);
            let mut w = self.wf(id);
            if i > 0 {
                w.start_ms = self.ms();
            }
            if self.pct(self.k.rich) {
                w.event = if self.pct(80) { Some(self.event()) } else { None };
                w.payload = if self.pct(70) { Some(format!("payload-{}-{}", i, self.pick(&["", "☃\"", "x y"]))) } else { None };
                w.name = Some("Wf \"näme\"".into());
            }
            sc.wfs.push(w);
        }
        if self.pct(self.k.rerun) {
            let src = self.r.below(sc.wfs.len() as u64) as usize;
            let mut w = sc.wfs[src].clone();
            w.after = Some(src);
            w.start_ms = if self.pct(50) { 0 } else { self.ms() };
            sc.wfs.push(w);
        }
        let np = self.rng(self.k.plugins);
        for _ in 0..np {
            let o = self.obs();
            sc.plugins.push(o);
        }
        sc.runner = self.obs();
        sc.runner.builder = false;
        if world == World::Remote {
            let n = self.rng(self.k.servers);
            for i in 0..n {
                let s = self.server(i as usize);
                sc.servers.push(s);
            }
            if self.pct(15) {
                // names that differ only in their case, or start alike
                let names = self.pick(&[["builder", "Builder", "builder-1", "BUILDER"], ["1", "10", "01", "1 "]]);
                for (s, n) in sc.servers.iter_mut().zip(names) {
                    s.id = n.into();
                }
            }
            // the runners are named in several calls of `start`
            if self.pct(20) {
                for s in sc.servers.iter_mut() {
                    s.calls = self.pick(&[1, 2, 2, 4, 3, 7]);
                }
            }
            // the Recorder in front of the remote client stands for the client itself
            sc.runner = ObsSpec::default();
        }
        if self.pct(self.k.before) {
            for i in 0..sc.plugins.len() {
                let t = self.transforms(&format!("p{}", i));
                sc.plugins[i].before = t;
                sc.plugins[i].before_fail = self.pick(&[0, 0, 300, 1000]);
                sc.plugins[i].before_delay = if sc.plugins[i].builder { 0 } else { self.pick(&[0, 0, 3]) };
            }
            if world != World::Remote {
                sc.runner.before = self.transforms("run");
                sc.runner.before_fail = self.pick(&[0, 0, 0, 300, 1000]);
            }
            for s in 0..sc.servers.len() {
                for i in 0..sc.servers[s].plugins.len() {
                    let t = self.transforms(&format!("r{}p{}", s, i));
                    sc.servers[s].plugins[i].before = t;
                    sc.servers[s].plugins[i].before_fail = self.pick(&[0, 0, 300, 1000]);
                }
                let t = self.transforms(&format!("r{}", s));
                sc.servers[s].runner.before = t;
                sc.servers[s].runner.before_fail = self.pick(&[0, 0, 0, 0, 300]);
            }
        }
        if self.pct(self.k.jumps) {
            let at = self.ms() * 2;
            sc.controls.push(Control {
                trig: Trig::At(at),
                act: Act::WallJump { ms: self.pick(&[-3_600_000, 3_600_000, -86_400_000, 40_000]) },
            });
        }
        self.cancels(&mut sc);
        sc.mt = self.pct(self.k.mt);
        sc.strat = self.strat(false);
        if !sc.mt {
            sc.strat.lock = 0;
        }
        sc
    }
}

pub fn k_for(prop: &str) -> K {
    let mut k = K::base();
    k = match prop {
        "C01" => K { jobs: (1, 7), steps: (1, 2), dep: 40, action: 3, cancels: (0, 1), on: 8, ..k },
        "C02" => K { jobs: (1, 6), steps: (1, 2), dep: 40, bad_graph: 35, run_err: 10, wide: 8, cancels: (0, 2), on: 5, ..k },
        "C03" => K { jobs: (1, 3), steps: (1, 6), action: 25, fail: 25, cancelled: 10, run_err: 10, cont: 35, cancels: (0, 1), on: 5, ..k },
        "C04" => K { jobs: (1, 4), steps: (1, 4), fail: 30, cancelled: 12, run_err: 12, cont: 40, timeout: 20, cancels: (0, 2), on: 8, ..k },
        "C05" => K { jobs: (1, 4), steps: (1, 3), plugins: (1, 4), slow_obs: 45, fail_obs: 35, cancels: (0, 1), on: 5, timeout: 15, ..k },
        "C06" => K { jobs: (1, 3), steps: (1, 3), plugins: (1, 3), logs: 80, burst: 15, slow_obs: 40, fail_obs: 20, timeout: 25, hang: 10, cancels: (0, 2), ..k },
        "C07" => K { jobs: (1, 3), steps: (1, 3), timeout: 80, hang: 35, logs: 65, jumps: 30, fail_obs: 5, slow_obs: 10, cancels: (0, 1), ..k },
        "C08" => K { wfs: (1, 2), jobs: (1, 4), steps: (1, 4), hang: 20, cancels: (1, 4), logs: 40, rerun: 10, on: 10, ..k },
        "C11" => K { wfs: (1, 2), jobs: (1, 3), steps: (1, 3), plugins: (0, 1), cancels: (0, 0), timeout: 6, slow_net: 60, mt: 25, rich: 20, containers: 30, burst: 6, fail_obs: 10, rerun: 15, ..k },
        "C12" => K { wfs: (1, 2), jobs: (1, 4), steps: (1, 4), plugins: (0, 1), servers: (1, 3), net_faults: 100, cancels: (0, 1), timeout: 15, mt: 10, run_err: 3, fail: 8, containers: 40, hang: 5, rerun: 15, ..k },
        "C13" => K { wfs: (1, 2), jobs: (1, 4), steps: (1, 3), plugins: (0, 1), servers: (1, 3), logs: 75, burst: 22, slow_obs: 50, fail_obs: 35, slow_net: 60, mt: 10, cancels: (0, 1), rerun: 15, ..k },
        "C14" => K { wfs: (1, 2), jobs: (1, 3), steps: (1, 3), plugins: (0, 1), cancels: (0, 3), timeout: 45, hang: 30, logs: 65, mt: 10, slow_net: 60, rerun: 15, ..k },
        "C15" => K { wfs: (1, 3), jobs: (1, 4), steps: (1, 3), plugins: (0, 1), servers: (1, 4), containers: 55, mt: 10, cancels: (0, 1), run_err: 5, rerun: 15, ..k },
        "C16" => K { wfs: (1, 1), jobs: (1, 2), steps: (1, 3), plugins: (0, 1), cancels: (0, 0), timeout: 0, hang: 0, fail: 35, cancelled: 15, logs: 75, action: 0, burst: 8, ..k },
        "C17" => K { wfs: (1, 2), jobs: (1, 2), steps: (1, 3), plugins: (0, 1), cancels: (0, 1), timeout: 15, hang: 8, logs: 50, action: 0, ..k },
        "C18" => K { wfs: (1, 2), jobs: (1, 2), steps: (1, 3), plugins: (0, 1), cancels: (0, 2), timeout: 45, hang: 40, logs: 55, action: 0, ..k },
        "C19" => K { wfs: (1, 3), jobs: (1, 3), steps: (1, 4), plugins: (0, 1), cancels: (0, 1), timeout: 8, hang: 3, fail: 10, logs: 20, action: 5, rerun: 30, ..k },
        "C20" => K { wfs: (1, 2), jobs: (1, 4), steps: (1, 3), on: 45, github: 100, cancels: (0, 0), fail: 8, ..k },
        "C21" => K { wfs: (2, 4), jobs: (1, 3), steps: (1, 3), cancels: (0, 2), timeout: 15, rerun: 45, plugins: (0, 2), ..k },
        "C22" => K { wfs: (1, 2), jobs: (1, 2), steps: (1, 2), plugins: (0, 4), before: 100, rich: 60, slow_obs: 10, fail_obs: 20, cancels: (0, 0), timeout: 0, containers: 30, ..k },
        "C25" => K { wfs: (1, 2), jobs: (1, 3), steps: (1, 3), plugins: (0, 1), cancels: (0, 1), timeout: 8, hang: 3, logs: 20, action: 10, burst: 0, rerun: 15, long: 1, ..k },
        "C23" => K { floats: true, wfs: (1, 3), jobs: (1, 3), steps: (1, 3), plugins: (0, 2), rich: 95, cancels: (0, 0), containers: 50, action: 15, ..k },
        _ => k,
    };
    k
}

fn one() -> u32 {
    1
}
