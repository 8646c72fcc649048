//! The oracles: what the recorded history of a run must look like, per property.
pub mod engine;
pub mod local;
pub mod micro;
pub mod remote;

use crate::hist::*;
use crate::rt::RunOut;
use crate::scen::*;
use astro_run::WorkflowState;
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Viol {
    /// what kind of violation: stable under changes of the input
    pub sig: String,
    pub msg: String,
}
pub type Viols = Vec<Viol>;

#[macro_export]
macro_rules! viol {
    ($v:expr, $sig:expr, $($arg:tt)*) => {
        $v.push($crate::oracle::Viol { sig: $sig.to_string(), msg: format!($($arg)*) })
    };
}

/// Within this much simulated time, what happens "at once" has happened.
pub const SLACK_NS: u64 = 5_000_000;

pub struct StepF<'a> {
    pub sid: String,
    pub n: usize,
    pub spec: &'a StepSpec,
    pub runs: Vec<usize>,
    pub rets: Vec<(usize, bool)>,
    pub starts: Vec<(usize, usize)>,
    pub ends: Vec<(usize, usize, String)>,
    pub emits: Vec<(usize, usize, bool, String)>,
    pub sigs: Vec<(usize, usize, String)>,
    /// per observer of the engine: its records about this step
    pub hooks: BTreeMap<usize, Vec<usize>>,
    /// the step's entry in the returned result
    pub res: Option<Value>,
}
#[derive(Clone, Debug)]
pub struct Cancel {
    pub n: usize,
    pub job: String,
    pub req: usize,
    pub res: usize,
    pub ok: bool,
}
pub struct JobF<'a> {
    pub jid: String,
    pub key: String,
    pub spec: &'a JobSpec,
    pub steps: Vec<StepF<'a>>,
    pub hooks: BTreeMap<usize, Vec<usize>>,
    pub res: Option<Value>,
    pub cancels: Vec<Cancel>,
}
pub struct Inst<'a> {
    pub w: usize,
    pub id: String,
    pub spec: &'a WfSpec,
    pub begin: usize,
    pub end: Option<usize>,
    pub lim: usize,
    pub res: Value,
    pub hooks: BTreeMap<usize, Vec<usize>>,
    pub jobs: Vec<JobF<'a>>,
}
pub struct View<'a> {
    pub sc: &'a Scenario,
    pub out: &'a RunOut,
    pub recs: &'a [Rec],
    pub exits: HashMap<usize, usize>,
    /// observers of the engine, plugins first
    pub eng: Vec<usize>,
    pub insts: Vec<Inst<'a>>,
    pub cancels: Vec<Cancel>,
}

pub fn state_of(v: &Value) -> &str {
    v.get("state").and_then(|s| s.as_str()).unwrap_or("?")
}
pub fn is_terminal(s: &str) -> bool {
    matches!(s, "succeeded" | "failed" | "cancelled" | "skipped")
}
pub fn terminal(s: &WorkflowState) -> bool {
    is_terminal(state_str(s))
}

impl<'a> View<'a> {
    pub fn new(sc: &'a Scenario, out: &'a RunOut) -> View<'a> {
        let recs = &out.recs[..];
        let eng: Vec<usize> = out.obs.iter().enumerate().filter(|(_, o)| o.site == 0).map(|(i, _)| i).collect();
        let mut exits = HashMap::new();
        let mut begins: Vec<(usize, usize)> = vec![];
        let mut ends: HashMap<usize, (usize, Value)> = HashMap::new();
        let mut pend: HashMap<(usize, String), usize> = HashMap::new();
        let mut cancels: Vec<Cancel> = vec![];
        for r in recs {
            match &r.ev {
                Ev::Exit { of, .. } => {
                    exits.insert(*of, r.seq);
                }
                Ev::Begin { w } => begins.push((*w, r.seq)),
                Ev::End { w, res } => {
                    ends.insert(*w, (r.seq, res.clone()));
                }
                Ev::CancelReq { n, job } => {
                    pend.insert((*n, job.clone()), r.seq);
                }
                Ev::CancelRes { n, job, ok } => {
                    let req = pend.remove(&(*n, job.clone())).unwrap_or(r.seq);
                    cancels.push(Cancel { n: *n, job: job.clone(), req, res: r.seq, ok: *ok });
                }
                _ => {}
            }
        }
        let mut insts = vec![];
        for (w, begin) in &begins {
            let spec = &sc.wfs[*w];
            let lim = begins
                .iter()
                .filter(|(o, s)| s > begin && sc.wfs[*o].id == spec.id)
                .map(|(_, s)| *s)
                .min()
                .unwrap_or(recs.len());
            let (end, res) = match ends.get(w) {
                Some((s, r)) => (Some(*s), r.clone()),
                None => (None, Value::Null),
            };
            let jobs = spec
                .jobs
                .iter()
                .map(|j| {
                    let jid = format!("{}/{}", spec.id, j.key);
                    let jres = res.get("jobs").and_then(|m| m.get(&j.key)).cloned();
                    let steps = j
                        .resolved()
                        .into_iter()
                        .enumerate()
                        .map(|(n, s)| StepF {
                            sid: format!("{}/{}", jid, n),
                            n,
                            spec: s,
                            runs: vec![],
                            rets: vec![],
                            starts: vec![],
                            ends: vec![],
                            emits: vec![],
                            sigs: vec![],
                            hooks: BTreeMap::new(),
                            res: jres.as_ref().and_then(|r| r["steps"].as_array()).and_then(|a| a.get(n)).cloned(),
                        })
                        .collect();
                    JobF {
                        cancels: cancels.iter().filter(|c| c.job == jid && c.res > *begin && c.req < lim).cloned().collect(),
                        jid,
                        key: j.key.clone(),
                        spec: j,
                        steps,
                        hooks: BTreeMap::new(),
                        res: jres,
                    }
                })
                .collect();
            insts.push(Inst { w: *w, id: spec.id.clone(), spec, begin: *begin, end, lim, res, hooks: BTreeMap::new(), jobs });
        }
        // attribute the records
        enum At {
            Wf,
            Job(usize),
            Step(usize, usize),
        }
        let locate = |insts: &Vec<Inst<'a>>, id: &str, seq: usize| -> Option<(usize, At)> {
            let wid = id.split('/').next().unwrap_or(id);
            let i = insts.iter().position(|x| x.id == wid && x.begin < seq && seq < x.lim)?;
            let mut parts = id.split('/');
            parts.next();
            let Some(key) = parts.next() else { return Some((i, At::Wf)) };
            let j = insts[i].jobs.iter().position(|j| j.key == key)?;
            let Some(n) = parts.next() else { return Some((i, At::Job(j))) };
            let n: usize = n.parse().ok()?;
            if n >= insts[i].jobs[j].steps.len() {
                return None;
            }
            Some((i, At::Step(j, n)))
        };
        let mut is_eng = vec![false; out.obs.len()];
        for e in &eng {
            is_eng[*e] = true;
        }
        for r in recs {
            match &r.ev {
                Ev::Hook { o, h } if is_eng[*o] => match locate(&insts, h.id(), r.seq) {
                    Some((i, At::Wf)) => insts[i].hooks.entry(*o).or_default().push(r.seq),
                    Some((i, At::Job(j))) => insts[i].jobs[j].hooks.entry(*o).or_default().push(r.seq),
                    Some((i, At::Step(j, n))) => insts[i].jobs[j].steps[n].hooks.entry(*o).or_default().push(r.seq),
                    None => {}
                },
                Ev::Run { id, .. } => {
                    if let Some((i, At::Step(j, n))) = locate(&insts, id, r.seq) {
                        insts[i].jobs[j].steps[n].runs.push(r.seq)
                    }
                }
                Ev::RunRet { id, ok } => {
                    if let Some((i, At::Step(j, n))) = locate(&insts, id, r.seq) {
                        insts[i].jobs[j].steps[n].rets.push((r.seq, *ok))
                    }
                }
                Ev::Start { site, id, .. } => {
                    if let Some((i, At::Step(j, n))) = locate(&insts, id, r.seq) {
                        insts[i].jobs[j].steps[n].starts.push((r.seq, *site))
                    }
                }
                Ev::EndCall { site, of, id, res } => {
                    if let Some((i, At::Step(j, n))) = locate(&insts, id, *of) {
                        insts[i].jobs[j].steps[n].ends.push((r.seq, *site, res.clone()))
                    }
                }
                Ev::Emit { site, of, id, err, msg } => {
                    if let Some((i, At::Step(j, n))) = locate(&insts, id, *of) {
                        insts[i].jobs[j].steps[n].emits.push((r.seq, *site, *err, msg.clone()))
                    }
                }
                Ev::Sig { site, of, id, kind } => {
                    if let Some((i, At::Step(j, n))) = locate(&insts, id, *of) {
                        insts[i].jobs[j].steps[n].sigs.push((r.seq, *site, kind.clone()))
                    }
                }
                _ => {}
            }
        }
        View { sc, out, recs, exits, eng, insts, cancels }
    }
    /// A cancel call during which the same workflow ended and began anew: nobody can tell which of
    /// its runs was meant.
    pub fn ambiguous(&self) -> bool {
        self.cancels.iter().any(|c| {
            let id = c.job.split('/').next().unwrap_or("");
            self.insts.iter().any(|i| i.id == id && c.req < i.begin && i.begin < c.res && self.insts.iter().any(|e| e.id == id && e.begin < i.begin))
        })
    }
    pub fn t(&self, seq: usize) -> u64 {
        self.recs[seq].t
    }
    pub fn hook(&self, seq: usize) -> &'a H {
        match &self.recs[seq].ev {
            Ev::Hook { h, .. } => h,
            _ => unreachable!(),
        }
    }
    /// When the hook entered at `seq` returned.
    pub fn exit_t(&self, seq: usize) -> u64 {
        self.exits.get(&seq).map(|e| self.t(*e)).unwrap_or(self.t(seq))
    }
    pub fn exited(&self, seq: usize) -> usize {
        self.exits.get(&seq).copied().unwrap_or(seq)
    }
    pub fn runner_obs(&self) -> usize {
        *self.eng.iter().find(|o| self.out.obs[**o].idx == -1).expect("runner observer")
    }
    /// Every job of every workflow run.
    pub fn jobs(&self) -> impl Iterator<Item = (&Inst<'a>, &JobF<'a>)> {
        self.insts.iter().flat_map(|i| i.jobs.iter().map(move |j| (i, j)))
    }
    pub fn steps(&self) -> impl Iterator<Item = (&Inst<'a>, &JobF<'a>, &StepF<'a>)> {
        self.jobs().flat_map(|(i, j)| j.steps.iter().map(move |s| (i, j, s)))
    }
}

impl<'a> Inst<'a> {
    pub fn skipped(&self) -> bool {
        state_of(&self.res) == "skipped"
    }
    pub fn job(&self, key: &str) -> Option<&JobF<'a>> {
        self.jobs.iter().find(|j| j.key == key)
    }
    pub fn all_hooks(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.hooks.values().flatten().copied().collect();
        for j in &self.jobs {
            v.extend(j.all_hooks());
        }
        v.sort();
        v
    }
}
impl<'a> JobF<'a> {
    pub fn own_hooks(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.hooks.values().flatten().copied().collect();
        v.sort();
        v
    }
    pub fn all_hooks(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.hooks.values().flatten().copied().collect();
        for s in &self.steps {
            v.extend(s.hooks.values().flatten());
        }
        v.sort();
        v
    }
    pub fn first(&self) -> Option<usize> {
        let h = self.all_hooks().first().copied();
        let r = self.steps.iter().flat_map(|s| s.runs.first()).min().copied();
        h.into_iter().chain(r).min()
    }
    pub fn run_job(&self, v: &View) -> Option<usize> {
        self.own_hooks().into_iter().find(|s| matches!(v.hook(*s), H::RunJob { .. }))
    }
    pub fn terminal(&self, v: &View) -> Option<usize> {
        self.own_hooks().into_iter().find(|s| matches!(v.hook(*s), H::State { state, .. } if terminal(state)))
    }
    pub fn done(&self, v: &View) -> Option<usize> {
        self.own_hooks().into_iter().find(|s| matches!(v.hook(*s), H::JobDone { .. }))
    }
    pub fn state(&self) -> &str {
        self.res.as_ref().map(state_of).unwrap_or("?")
    }
    pub fn accepted(&self) -> Option<&Cancel> {
        self.cancels.iter().filter(|c| c.ok).min_by_key(|c| c.res)
    }
}
impl<'a> StepF<'a> {
    pub fn state(&self) -> &str {
        self.res.as_ref().map(state_of).unwrap_or("?")
    }
    pub fn all_hooks(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.hooks.values().flatten().copied().collect();
        v.sort();
        v
    }
    pub fn find(&self, v: &View, f: impl Fn(&H) -> bool) -> Option<usize> {
        self.all_hooks().into_iter().find(|s| f(v.hook(*s)))
    }
    pub fn last(&self, v: &View, f: impl Fn(&H) -> bool) -> Option<usize> {
        self.all_hooks().into_iter().rev().find(|s| f(v.hook(*s)))
    }
    pub fn first_event(&self) -> Option<usize> {
        self.all_hooks().first().copied().into_iter().chain(self.runs.first().copied()).min()
    }
    pub fn in_progress(&self, v: &View) -> Option<usize> {
        self.find(v, |h| matches!(h, H::State { state: WorkflowState::InProgress, .. }))
    }
    pub fn in_progress_last(&self, v: &View) -> Option<usize> {
        self.last(v, |h| matches!(h, H::State { state: WorkflowState::InProgress, .. }))
    }
    pub fn terminal(&self, v: &View) -> Option<usize> {
        self.find(v, |h| matches!(h, H::State { state, .. } if terminal(state)))
    }
    pub fn step_done(&self, v: &View) -> Option<usize> {
        self.find(v, |h| matches!(h, H::StepDone { .. }))
    }
    /// The first report of the runner.
    pub fn end(&self) -> Option<&(usize, usize, String)> {
        self.ends.first()
    }
    pub fn ran(&self) -> bool {
        !self.runs.is_empty()
    }
    pub fn start_failed(&self) -> bool {
        self.rets.iter().any(|(_, ok)| !ok)
    }
}

/// Time covered by log hooks of a step from `at` on: when they end, for gaps of at most 1 ms.
pub fn covered_until(v: &View, s: &StepF, at: u64) -> u64 {
    let mut iv: Vec<(u64, u64)> = s
        .all_hooks()
        .into_iter()
        .filter(|q| matches!(v.hook(*q), H::Log { .. }) || matches!(v.hook(*q), H::State { state, .. } if state.is_in_progress()))
        .map(|q| (v.t(q), v.exit_t(q)))
        .collect();
    iv.sort();
    let mut until = at;
    for (a, b) in iv {
        if a <= until + 1_000_000 && b > until {
            until = b;
        }
    }
    until
}

/// What a run is worth for the evidence: whether anything the property is about happened, and the
/// classes of situations it reached.
#[derive(Default, Clone, Debug)]
pub struct Worth {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}

pub fn check(prop: &str, sc: &Scenario, out: &RunOut) -> Viols {
    let mut v = vec![];
    if sc.world == World::Micro {
        match prop {
            "C09" => micro::c09(sc, out, &mut v),
            "C10" => micro::c10(sc, out, &mut v),
            "C15" => micro::c15(sc, out, &mut v),
            _ => {}
        }
        return v;
    }
    if let Some(f) = &out.sum.fatal {
        // an endless loop or a deadlock; nothing else can be said about such a run
        viol!(v, "no-progress", "the run stopped making progress: {}", f);
        return v;
    }
    let view = View::new(sc, out);
    if view.ambiguous() {
        return v;
    }
    match prop {
        "C01" => engine::c01(&view, &mut v),
        "C02" => engine::c02(&view, &mut v),
        "C03" => engine::c03(&view, &mut v),
        "C04" => engine::c04(&view, &mut v),
        "C05" => engine::c05(&view, &mut v),
        "C06" => engine::c06(&view, &mut v),
        "C07" => engine::c07(&view, &mut v),
        "C08" => engine::c08(&view, &mut v),
        "C11" => remote::c11(&view, &mut v),
        "C12" => remote::c12(&view, &mut v),
        "C13" => remote::c13(&view, &mut v),
        "C14" => remote::c14(&view, &mut v),
        "C15" => remote::c15(&view, &mut v),
        "C16" => local::c16(&view, &mut v),
        "C17" => local::c17(&view, &mut v),
        "C18" => local::c18(&view, &mut v),
        "C19" => local::c19(&view, &mut v),
        "C20" => engine::c20(&view, &mut v),
        "C21" => engine::c21(&view, &mut v),
        "C22" => engine::c22(&view, &mut v),
        "C23" => engine::c23(&view, &mut v),
        "C25" => local::c25(&view, &mut v),
        _ => {}
    }
    v
}
