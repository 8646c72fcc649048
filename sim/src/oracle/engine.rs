//! Properties of the engine itself.
use super::*;
use crate::viol;
use serde_json::json;

pub fn c01(v: &View, out: &mut Viols) {
    for inst in &v.insts {
        let remote = v.sc.world == World::Remote;
        let mut source_first: Vec<(u64, &str)> = vec![];
        for job in &inst.jobs {
            for o in &v.eng {
                let n = job.hooks.get(o).map(|h| h.iter().filter(|s| matches!(v.hook(**s), H::RunJob { .. })).count()).unwrap_or(0);
                if n > 1 {
                    viol!(out, "job-started-twice", "job {} was started {} times (observer {})", job.jid, n, o);
                }
            }
            for s in &job.steps {
                if s.runs.len() > 1 {
                    viol!(out, "step-run-twice", "step {} was handed to the runner {} times", s.sid, s.runs.len());
                }
                if s.starts.len() > 1 {
                    viol!(out, "step-executed-twice", "step {} was executed {} times", s.sid, s.starts.len());
                }
            }
            if inst.end.is_some() && !inst.skipped() {
                match &job.res {
                    None => viol!(out, "job-never-started", "job {} has no result: it did not run", job.jid),
                    Some(r) if state_of(r) != "skipped" => {
                        if job.run_job(v).is_none() {
                            viol!(out, "job-never-started", "job {} was never started but is reported {}", job.jid, state_of(r));
                        }
                        for s in &job.steps {
                            if s.state() != "skipped" && s.runs.is_empty() && !remote {
                                viol!(out, "step-never-run", "step {} is reported {} but was never handed to the runner", s.sid, s.state());
                            }
                        }
                    }
                    _ => {}
                }
            }
            // dependencies
            if let Some(first) = job.first() {
                let mut ready = Some(0u64);
                for d in &job.spec.depends {
                    let Some(dep) = inst.job(d) else { continue };
                    match dep.terminal(v) {
                        Some(t) if t < first => {
                            let last = dep.own_hooks().into_iter().map(|s| v.exit_t(s)).max().unwrap_or(v.t(t));
                            ready = ready.map(|r| r.max(last));
                        }
                        _ => {
                            viol!(
                                out,
                                "started-before-dependency",
                                "job {} started (record {}) before its dependency {} had finished",
                                job.jid,
                                first,
                                dep.jid
                            );
                            ready = None;
                            break;
                        }
                    }
                }
                if job.spec.on.is_none() {
                    if job.spec.depends.is_empty() {
                        source_first.push((v.t(first), &job.jid));
                    } else if let Some(r) = ready {
                        if v.t(first) > r + SLACK_NS {
                            viol!(
                                out,
                                "waited-for-other-job",
                                "job {} started at {:.3} ms though its last dependency finished at {:.3} ms",
                                job.jid,
                                v.t(first) as f64 / 1e6,
                                r as f64 / 1e6
                            );
                        }
                    }
                }
            } else if v.out.hung && !inst.skipped() && inst.end.is_none() {
                let ready = job.spec.depends.iter().all(|d| inst.job(d).map(|d| d.terminal(v).is_some()).unwrap_or(false));
                let started = inst.hooks.values().flatten().any(|s| matches!(v.hook(*s), H::State { .. }));
                if ready && started && job.spec.on.is_none() {
                    viol!(out, "job-never-started", "job {} never started although all it depends on has finished", job.jid);
                }
            }
        }
        if let Some(min) = source_first.iter().map(|x| x.0).min() {
            for (t, j) in &source_first {
                if *t > min + SLACK_NS {
                    viol!(out, "source-job-waited", "job {} has no dependencies but started {:.3} ms after the first job", j, (*t - min) as f64 / 1e6);
                }
            }
        }
    }
}

pub fn c02(v: &View, out: &mut Viols) {
    for r in v.recs {
        if let Ev::Built { w, ok, err } = &r.ev {
            let want = v.sc.wfs[*w].satisfiable();
            if *ok && !want {
                viol!(out, "unsatisfiable-accepted", "workflow {} was accepted although its dependencies cannot be satisfied", v.sc.wfs[*w].id);
            }
            if !*ok && want {
                viol!(out, "valid-rejected", "workflow {} was rejected: {}", v.sc.wfs[*w].id, err);
            }
        }
    }
    for inst in &v.insts {
        if !inst.spec.satisfiable() {
            continue;
        }
        match inst.end {
            None => {
                if v.out.hung {
                    let open: Vec<&str> = inst.jobs.iter().filter(|j| j.terminal(v).is_none()).map(|j| j.jid.as_str()).collect();
                    viol!(out, "never-ended", "workflow {} did not end; unfinished jobs: {:?}; panics: {:?}", inst.id, open, v.out.panics)
                }
            }
            Some(end) => {
                let got: Vec<String> = inst.res["jobs"].as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default();
                let mut want: Vec<String> = if inst.skipped() { vec![] } else { inst.jobs.iter().map(|j| j.key.clone()).collect() };
                want.sort();
                let mut got2 = got.clone();
                got2.sort();
                if got2 != want {
                    viol!(out, "result-jobs", "workflow {}: result lists the jobs {:?}, the workflow has {:?}", inst.id, got2, want);
                }
                if !is_terminal(state_of(&inst.res)) {
                    viol!(out, "not-terminal", "workflow {} returned in state {}", inst.id, state_of(&inst.res));
                }
                for j in &inst.jobs {
                    if j.res.is_some() && !is_terminal(j.state()) {
                        viol!(out, "not-terminal", "job {} returned in state {}", j.jid, j.state());
                    }
                }
                // nothing is waited for at the end
                let last = inst.all_hooks().into_iter().filter(|s| *s < end).map(|s| v.exit_t(s)).max();
                let ends = v.steps().filter(|(i, ..)| i.w == inst.w).flat_map(|(_, _, s)| s.ends.iter().map(|e| v.t(e.0))).max();
                let apis = v
                    .recs
                    .iter()
                    .filter(|r| r.seq < end && matches!(r.ev, Ev::Api { .. }))
                    .map(|r| r.t)
                    .max();
                if let Some(l) = [last, ends, apis].into_iter().flatten().max() {
                    if v.sc.world == World::Engine && v.t(end) > l + 100 * SLACK_NS {
                        viol!(out, "late-end", "workflow {} ended {:.3} ms after anything last happened in it", inst.id, (v.t(end) - l) as f64 / 1e6);
                    }
                }
            }
        }
    }
}

/// How the documented rules treat a job's steps, given how those that ran turned out.
/// Calls `f(step, must_skip, was_skipped)`.
pub fn fold_steps<'b, 'a>(job: &'b JobF<'a>, mut f: impl FnMut(&'b StepF<'a>, bool, bool)) -> &'static str {
    let mut st = "in_progress";
    for s in &job.steps {
        let must = match st {
            "failed" => !s.spec.cont,
            "cancelled" => true,
            _ => false,
        };
        let was = s.state() == "skipped";
        f(s, must, was);
        match s.state() {
            "failed" => st = "failed",
            "cancelled" => st = "cancelled",
            _ => {}
        }
    }
    if st == "in_progress" {
        "succeeded"
    } else {
        st
    }
}

pub fn c03(v: &View, out: &mut Viols) {
    for inst in &v.insts {
        for job in &inst.jobs {
            // order
            for o in &v.eng {
                let mut seqs: Vec<(usize, usize)> = vec![];
                for s in &job.steps {
                    seqs.extend(s.hooks.get(o).into_iter().flatten().map(|q| (*q, s.n)));
                }
                seqs.sort();
                if let Some(w) = seqs.windows(2).find(|w| w[1].1 < w[0].1) {
                    viol!(out, "step-order", "observer {}: an event of step {}/{} came after one of step {}", o, job.jid, w[1].1, w[0].1);
                }
            }
            for (i, a) in job.steps.iter().enumerate() {
                let Some(last) = a
                    .all_hooks()
                    .into_iter()
                    .chain(a.rets.iter().map(|x| x.0))
                    .chain(a.ends.iter().filter(|_| a.terminal(v).is_some() || true).map(|x| x.0))
                    .max()
                else {
                    continue;
                };
                for b in &job.steps[i + 1..] {
                    let first = b.first_event().into_iter().chain(b.starts.iter().map(|x| x.0)).min();
                    if let Some(f) = first {
                        if f < last {
                            viol!(out, "steps-overlap", "step {} began (record {}) before step {} was over (record {})", b.sid, f, a.sid, last);
                        }
                    }
                }
            }
            // results
            if let Some(res) = &job.res {
                if state_of(res) != "skipped" {
                    let ids: Vec<String> = res["steps"]
                        .as_array()
                        .map(|a| a.iter().map(|s| format!("{}/{}/{}", s["id"][0].as_str().unwrap_or("?"), s["id"][1].as_str().unwrap_or("?"), s["id"][2])).collect())
                        .unwrap_or_default();
                    let want: Vec<String> = job.steps.iter().map(|s| s.sid.clone()).collect();
                    if ids != want {
                        viol!(out, "step-results", "job {}: results for the steps {:?}, expected {:?}", job.jid, ids, want);
                        continue;
                    }
                    let cancelled = job.accepted().is_some();
                    fold_steps(job, |s, must, was| {
                        if must && !was {
                            viol!(out, "not-skipped", "step {} ended {} though an earlier step requires that it be skipped", s.sid, s.state());
                        }
                        if !must && was && s.spec.on.is_none() && !cancelled {
                            viol!(out, "wrongly-skipped", "step {} was skipped for no reason", s.sid);
                        }
                        if was && (!s.runs.is_empty() || !s.starts.is_empty()) {
                            viol!(out, "skipped-but-run", "step {} is reported skipped but was handed to the runner", s.sid);
                        }
                    });
                } else if job.steps.iter().any(|s| !s.runs.is_empty()) {
                    viol!(out, "skipped-but-run", "job {} is reported skipped but one of its steps was handed to the runner", job.jid);
                }
            }
            for s in &job.steps {
                for r in &s.runs {
                    if let Ev::Run { def, .. } = &v.recs[*r].ev {
                        if let Some(run) = def["command"]["run"].as_str() {
                            if run != s.spec.run {
                                viol!(out, "wrong-step", "step {} ran {:?}, it is {:?}", s.sid, run, s.spec.run);
                            }
                        }
                    }
                }
            }
        }
    }
}

/// What the first report of a step's runner means for its result: (state, exit code).
pub fn meaning(res: &str) -> (&'static str, Value) {
    match res {
        "succeeded" => ("succeeded", Value::Null),
        "cancelled" => ("cancelled", Value::Null),
        r => ("failed", r.strip_prefix("failed:").and_then(|c| c.parse::<i64>().ok()).map(|c| json!(c)).unwrap_or(Value::Null)),
    }
}

pub fn outcome_steps(v: &View, out: &mut Viols) {
    let timeout_code = json!(timeout_code());
    for (_, _, s) in v.steps() {
        if v.sc.world == World::Local {
            continue;
        }
        let results: Vec<&Value> = s
            .all_hooks()
            .into_iter()
            .filter_map(|q| match v.hook(q) {
                H::StepDone { res, .. } => Some(res),
                _ => None,
            })
            .chain(s.res.iter().filter(|r| state_of(r) != "skipped"))
            .collect();
        let want = if s.start_failed() {
            Some(("failed", json!(1)))
        } else {
            s.end().map(|(_, _, r)| meaning(r))
        };
        let Some((st, mut code)) = want else { continue };
        if code == json!(123) && s.end().map(|e| e.2 == "failed:123").unwrap_or(false) && s.sigs.iter().any(|x| x.2 == "timeout") && s.spec.script.react.as_ref().map(|r| r.end.is_none()).unwrap_or(false) {
            code = timeout_code.clone();
        }
        for r in results {
            if state_of(r) != st || r["exit_code"] != code {
                viol!(
                    out,
                    "step-outcome",
                    "step {}: the runner reported {} (exit code {}), the result says {} (exit code {})",
                    s.sid,
                    st,
                    code,
                    state_of(r),
                    r["exit_code"]
                );
                break;
            }
        }
    }
}
/// The exit code the library itself uses for a timeout.
pub fn timeout_code() -> i64 {
    use std::sync::OnceLock;
    static C: OnceLock<i64> = OnceLock::new();
    *C.get_or_init(|| {
        let (tx, rx) = astro_run::stream();
        tx.timeout();
        match rx.result() {
            Some(astro_run::RunResult::Failed { exit_code }) => exit_code as i64,
            _ => 123,
        }
    })
}

pub fn c04(v: &View, out: &mut Viols) {
    outcome_steps(v, out);
    c04_jobs(v, out);
}
/// The outcomes of jobs and workflows follow from those of the steps.
pub fn c04_jobs(v: &View, out: &mut Viols) {
    for inst in &v.insts {
        if inst.end.is_none() || inst.skipped() {
            continue;
        }
        let (mut failed, mut cancelled) = (false, false);
        for job in &inst.jobs {
            let st = job.state();
            failed |= st == "failed";
            cancelled |= st == "cancelled";
            if job.res.is_none() || st == "skipped" {
                continue;
            }
            let (mut certain, mut maybe) = (false, false);
            let normal = fold_steps(job, |s, must, was| {
                if was && !must {
                    if s.spec.on.is_none() {
                        certain = true;
                    } else {
                        maybe = true;
                    }
                }
            });
            let acc = job.accepted().is_some();
            let mut allowed = vec![normal];
            if acc && (certain || maybe) {
                if normal == "succeeded" {
                    if certain {
                        allowed.clear();
                    }
                    allowed.push("cancelled");
                } else {
                    allowed.push("cancelled");
                }
            }
            if !allowed.contains(&st) {
                let ss: Vec<&str> = job.steps.iter().map(|s| s.state()).collect();
                viol!(out, "job-outcome", "job {} with steps {:?}{} is reported {}", job.jid, ss, if acc { " (cancelled meanwhile)" } else { "" }, st);
            }
        }
        let st = state_of(&inst.res);
        let ok = match st {
            "succeeded" => !failed && !cancelled,
            "failed" => failed,
            "cancelled" => cancelled,
            _ => false,
        };
        if !ok {
            let js: Vec<String> = inst.jobs.iter().map(|j| format!("{}={}", j.key, j.state())).collect();
            viol!(out, "workflow-outcome", "workflow {} with jobs {:?} is reported {}", inst.id, js, st);
        }
    }
}

fn letter(h: &H) -> String {
    match h {
        H::RunWf { .. } | H::RunJob { .. } | H::RunStep { .. } => "start".into(),
        H::Before { .. } => "before".into(),
        H::BeforeOut { .. } => "before-out".into(),
        H::State { state, .. } => state_str(state).into(),
        H::Log { err, msg, .. } => format!("log {} {}", err, msg),
        H::StepDone { .. } | H::JobDone { .. } | H::WfDone { .. } => "done".into(),
    }
}

pub fn c05(v: &View, out: &mut Viols) {
    for inst in &v.insts {
        if inst.end.is_none() {
            continue;
        }
        let end = inst.end.unwrap();
        let (ol, or) = (v.eng.len(), v.runner_obs());
        let _ = ol;
        // nothing after the end
        if let Some(late) = inst.all_hooks().into_iter().find(|s| *s > end) {
            viol!(out, "event-after-end", "{:?} was reported after workflow {} had returned", v.hook(late), inst.id);
        }
        for o in &v.eng {
            let who = format!("observer {}", o);
            let own: Vec<usize> = inst.hooks.get(o).cloned().unwrap_or_default();
            let seq: Vec<String> = own.iter().map(|s| letter(v.hook(*s))).collect();
            let want: Vec<String> = if inst.skipped() {
                vec!["skipped".into()]
            } else {
                vec!["start".into(), "in_progress".into(), state_of(&inst.res).into(), "done".into()]
            };
            if seq != want {
                viol!(out, "workflow-events", "{}: workflow {} showed {:?}, expected {:?}", who, inst.id, seq, want);
                continue;
            }
            for s in &own {
                if let H::WfDone { res, .. } = v.hook(*s) {
                    if *res != inst.res {
                        viol!(out, "workflow-result", "{}: workflow {} was reported as {} but returned {}", who, inst.id, res, inst.res);
                    }
                }
            }
            let lim = if inst.skipped() { (usize::MAX, 0) } else { (own[1], own[2]) };
            for job in &inst.jobs {
                let own: Vec<usize> = job.hooks.get(o).cloned().unwrap_or_default();
                let seq: Vec<String> = own.iter().map(|s| letter(v.hook(*s))).collect();
                let want: Vec<String> = if inst.skipped() || job.res.is_none() {
                    vec![]
                } else if job.state() == "skipped" {
                    vec!["skipped".into()]
                } else {
                    vec!["start".into(), "in_progress".into(), job.state().into(), "done".into()]
                };
                if seq != want {
                    viol!(out, "job-events", "{}: job {} showed {:?}, expected {:?}", who, job.jid, seq, want);
                    continue;
                }
                for s in &own {
                    if *s < lim.0 || *s > lim.1 {
                        viol!(out, "job-nesting", "{}: {:?} lies outside the run of its workflow", who, v.hook(*s));
                    }
                    if let H::JobDone { res, .. } = v.hook(*s) {
                        if Some(res) != job.res.as_ref() {
                            viol!(out, "job-result", "{}: job {} was reported as {} but returned {:?}", who, job.jid, res, job.res);
                        }
                    }
                }
                let jl = if own.len() == 4 { (own[1], own[2]) } else { (usize::MAX, 0) };
                for s in &job.steps {
                    let own: Vec<usize> = s.hooks.get(o).cloned().unwrap_or_default();
                    let seq: Vec<String> = own.iter().map(|q| letter(v.hook(*q))).collect();
                    let short: Vec<&str> =
                        seq.iter().map(|l| l.as_str()).filter(|l| !l.starts_with("log ") && !l.starts_with("before")).collect();
                    let ok = if own_expected_none(inst, job) {
                        seq.is_empty()
                    } else if s.state() == "skipped" {
                        seq.len() == 1 && seq[0] == "skipped"
                    } else {
                        let plain = ["start", "queued", "in_progress", s.state(), "done"];
                        let unstarted = ["start", "queued", s.state(), "done"];
                        let shape = if s.start_failed() { &unstarted[..] } else { &plain[..] };
                        let first_log = seq.iter().position(|l| l.starts_with("log "));
                        let last_log = seq.iter().rposition(|l| l.starts_with("log "));
                        let ip = seq.iter().position(|l| l == "in_progress");
                        let start = seq.iter().position(|l| l == "start");
                        short == shape
                            && first_log.map(|f| ip.map(|i| f > i).unwrap_or(false)).unwrap_or(true)
                            && last_log.map(|l| l + 2 < seq.len()).unwrap_or(true)
                            && seq.iter().rposition(|l| l.starts_with("before")).map(|b| Some(b) < start).unwrap_or(true)
                            && (!s.start_failed() || s.state() == "failed")
                    };
                    if !ok {
                        let brief: Vec<&str> = seq.iter().map(|l| if l.starts_with("log ") { "log" } else { l.as_str() }).collect();
                        viol!(out, "step-events", "{}: step {} (result {}) showed {:?}", who, s.sid, s.state(), brief);
                        continue;
                    }
                    for q in &own {
                        if *q < jl.0 || *q > jl.1 {
                            viol!(out, "step-nesting", "{}: {:?} lies outside the run of its job", who, v.hook(*q));
                        }
                        if let H::StepDone { res, .. } = v.hook(*q) {
                            if Some(res) != s.res.as_ref() {
                                viol!(out, "step-result", "{}: step {} was reported as {} but returned {:?}", who, s.sid, res, s.res);
                            }
                        }
                    }
                }
            }
        }
        // agreement between observers, job by job
        for job in &inst.jobs {
            let of = |o: usize| -> Vec<(String, String)> {
                let mut q: Vec<usize> = job.hooks.get(&o).cloned().unwrap_or_default();
                for s in &job.steps {
                    q.extend(s.hooks.get(&o).into_iter().flatten());
                }
                q.sort();
                q.into_iter().map(|s| (v.hook(s).id().to_string(), letter(v.hook(s)))).collect()
            };
            let r = of(or);
            for o in &v.eng {
                if *o != or && of(*o) != r {
                    let a = of(*o);
                    let i = a.iter().zip(&r).position(|(x, y)| x != y).unwrap_or(a.len().min(r.len()));
                    viol!(out, "observers-differ", "job {}: observer {} and the runner saw different events: {:?} / {:?}", job.jid, o, a.get(i), r.get(i));
                }
            }
        }
    }
    c04(v, out);
}
fn own_expected_none(inst: &Inst, job: &JobF) -> bool {
    inst.skipped() || job.res.is_none() || job.state() == "skipped"
}

pub fn c06(v: &View, out: &mut Viols) {
    for (inst, _, s) in v.steps() {
        if s.terminal(v).is_none() || s.runs.is_empty() {
            continue;
        }
        if inst.end.is_none() && s.step_done(v).is_none() {
            continue;
        }
        let emitted: Vec<(bool, &str)> = s.emits.iter().map(|e| (e.2, e.3.as_str())).collect();
        let mut reference: Option<Vec<(bool, &str)>> = None;
        for o in &v.eng {
            let own = s.hooks.get(o).cloned().unwrap_or_default();
            let logs: Vec<(bool, &str)> = own
                .iter()
                .filter_map(|q| match v.hook(*q) {
                    H::Log { err, msg, .. } => Some((*err, msg.as_str())),
                    _ => None,
                })
                .collect();
            if v.sc.world == World::Local {
                match &reference {
                    None => reference = Some(logs.clone()),
                    Some(r) if *r != logs => {
                        viol!(out, "logs-differ", "step {}: observers saw different logs ({} and {} lines)", s.sid, r.len(), logs.len())
                    }
                    _ => {}
                }
            } else {
                let want: Vec<(bool, &str)> = if s.start_failed() { vec![] } else { emitted.clone() };
                // a runner that cannot be started remotely is reported in a line of its own
                let remote_err = v.sc.world == World::Remote && s.ends.is_empty();
                if logs != want && !remote_err {
                    let i = logs.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(logs.len().min(want.len()));
                    viol!(
                        out,
                        "log-lines",
                        "step {}, observer {}: {} lines delivered of {} logged; first difference at {}: {:?} / {:?}",
                        s.sid,
                        o,
                        logs.len(),
                        want.len(),
                        i,
                        logs.get(i),
                        want.get(i)
                    );
                }
            }
            let ip = own.iter().position(|q| matches!(v.hook(*q), H::State { state: WorkflowState::InProgress, .. }));
            let te = own.iter().position(|q| matches!(v.hook(*q), H::State { state, .. } if terminal(state)));
            for (i, q) in own.iter().enumerate() {
                if matches!(v.hook(*q), H::Log { .. }) && (ip.map(|p| i < p).unwrap_or(true) || te.map(|p| i > p).unwrap_or(false)) {
                    viol!(out, "log-outside", "step {}, observer {}: a line was delivered outside the time in progress", s.sid, o);
                    break;
                }
            }
        }
    }
}

pub fn c07(v: &View, out: &mut Viols) {
    for (_, job, s) in v.steps() {
        let timeout = s.spec.timeout() * 1_000_000;
        for w in s.sigs.iter().skip(1) {
            viol!(out, "signalled-twice", "step {} was signalled again ({})", s.sid, w.2);
        }
        let (Some(ip), Some(ipl)) = (s.in_progress(v), s.in_progress_last(v)) else { 
            if let Some(x) = s.sigs.first() {
                if x.2 == "timeout" {
                    viol!(out, "timeout-early", "step {} was never in progress but timed out", s.sid);
                }
            }
            continue;
        };
        let (tp, te) = (v.t(ip), v.exit_t(ipl));
        let slow = s.all_hooks().iter().any(|q| matches!(v.hook(*q), H::Log { .. }) && v.exit_t(*q) > v.t(*q));
        for (q, _, kind) in s.sigs.iter() {
            let t = v.t(*q);
            if kind == "timeout" {
                if t < tp + timeout {
                    viol!(
                        out,
                        "timeout-early",
                        "step {} timed out {:.3} ms after it went in progress; its timeout is {} ms",
                        s.sid,
                        (t - tp) as f64 / 1e6,
                        s.spec.timeout()
                    );
                }
                let latest = covered_until(v, s, te + timeout) + SLACK_NS;
                if t > latest {
                    viol!(
                        out,
                        "timeout-late",
                        "step {} timed out {:.3} ms after it went in progress; its timeout is {} ms",
                        s.sid,
                        (t - te) as f64 / 1e6,
                        s.spec.timeout()
                    );
                }
                // (the record of the signal may be younger than the signal)
                if s.terminal(v).map(|x| v.t(x) < tp + timeout).unwrap_or(false) {
                    viol!(out, "timeout-after-end", "step {} was signalled after it had ended", s.sid);
                }
                if !slow && s.end().map(|e| v.t(e.0) + SLACK_NS < tp + timeout).unwrap_or(false) {
                    viol!(out, "timeout-after-end", "step {} was signalled after its runner had reported a result", s.sid);
                }
            } else if job.accepted().is_none() {
                viol!(out, "signal-unasked", "step {} received a {} signal nobody asked for", s.sid, kind);
            }
        }
        if s.sigs.is_empty() && job.accepted().is_none() && !s.start_failed() {
            let latest = covered_until(v, s, te + timeout) + SLACK_NS;
            let over = match s.end() {
                Some(e) => v.t(e.0),
                None => v.recs.last().map(|r| r.t).unwrap_or(0),
            };
            if over > latest {
                viol!(
                    out,
                    "timeout-missing",
                    "step {} was still running {:.3} ms after it went in progress; its timeout is {} ms and no signal came",
                    s.sid,
                    (over - te) as f64 / 1e6,
                    s.spec.timeout()
                );
            }
        }
    }
    outcome_steps(v, out);
}

pub fn c08(v: &View, out: &mut Viols) {
    let mt = v.sc.mt;
    for c in &v.cancels {
        let inst = v.insts.iter().find(|i| c.job.split('/').next() == Some(&i.id) && i.begin < c.res && c.req < i.lim);
        let job = inst.and_then(|i| i.jobs.iter().find(|j| j.jid == c.job));
        let Some(job) = job else {
            if c.ok {
                viol!(out, "cancel-accepted", "cancelling {} was accepted, but there is no such job running", c.job);
            }
            continue;
        };
        let run = job.run_job(v);
        let done = job.done(v);
        let earlier = job.cancels.iter().any(|o| o.ok && o.res < c.req);
        let overlap = job.cancels.iter().any(|o| o.n != c.n && o.ok && o.res >= c.req && o.req <= c.res);
        if c.ok {
            let before = match run {
                None => true,
                Some(r) if !mt => c.res < r,
                Some(r) => {
                    let dep = job
                        .spec
                        .depends
                        .iter()
                        .filter_map(|d| inst.unwrap().job(d))
                        .any(|d| d.terminal(v).map(|t| c.res < t).unwrap_or(true));
                    c.res < r && dep
                }
            };
            if before {
                viol!(out, "cancel-accepted", "cancelling {} was accepted before the job started", c.job);
            } else if done.map(|d| c.req > d).unwrap_or(false) {
                viol!(out, "cancel-accepted", "cancelling {} was accepted after the job had finished", c.job);
            } else if earlier {
                viol!(out, "cancel-accepted", "cancelling {} was accepted a second time", c.job);
            }
        } else if !earlier && !overlap && run.map(|r| c.req > r).unwrap_or(false) && job.terminal(v).map(|t| c.res < t).unwrap_or(true) {
            // the run of a workflow that panicked is over
            viol!(out, "cancel-rejected", "cancelling {} was rejected while the job was running", c.job);
        }
    }
    for (_, job, s) in v.steps() {
        let acc = job.accepted();
        for (q, _, kind) in &s.sigs {
            if kind == "cancel" && acc.map(|a| a.req > *q).unwrap_or(true) {
                viol!(out, "signal-unasked", "step {} received a cancel signal, but its job was not cancelled", s.sid);
            }
        }
        let Some(acc) = acc else { continue };
        // started too late?
        if let Some(first) = s.first_event() {
            let skipped_only = s.runs.is_empty() && s.all_hooks().iter().all(|q| matches!(v.hook(*q), H::State { state: WorkflowState::Skipped, .. }));
            if first > acc.res && !skipped_only {
                let between = job.all_hooks().into_iter().chain(s.n.checked_sub(1).and_then(|p| job.steps[p].step_done(v))).any(|q| q > acc.res && q < first);
                if !mt || between {
                    viol!(out, "started-after-cancel", "step {} was started after its job had been cancelled", s.sid);
                }
            }
        }
        // told?
        if let Some(ipl) = s.in_progress_last(v) {
            if s.start_failed() || s.terminal(v).map(|t| t < acc.res).unwrap_or(false) {
                continue;
            }
            let from = v.t(acc.res).max(v.exit_t(ipl));
            let latest = covered_until(v, s, from) + SLACK_NS;
            let over = match s.end() {
                Some(e) => v.t(e.0),
                None => v.recs.last().map(|r| r.t).unwrap_or(0),
            };
            let told = s.sigs.first().map(|(q, _, k)| (v.t(*q), k.as_str()));
            match told {
                Some((t, _)) if t <= latest => {}
                _ if over <= latest => {}
                // the time-out was first
                Some((t, "timeout")) if t <= from + SLACK_NS => {}
                _ if v.sc.world == World::Local => {}
                _ => viol!(
                    out,
                    "not-signalled",
                    "step {} was running when its job was cancelled at {:.3} ms but was not told by {:.3} ms",
                    s.sid,
                    v.t(acc.res) as f64 / 1e6,
                    latest as f64 / 1e6
                ),
            }
        }
    }
    // outcome of cancelled jobs, and of the others
    c04(v, out);
}

// ---- conditions -----------------------------------------------------------------------------------

/// An independent glob matcher. None: the pattern is not valid.
pub fn glob(p: &str, s: &str) -> Option<bool> {
    #[derive(Debug)]
    enum T {
        C(char),
        One,
        Star,
        Rec,
    }
    let pc: Vec<char> = p.chars().collect();
    let mut t = vec![];
    let mut i = 0;
    while i < pc.len() {
        match pc[i] {
            '?' => t.push(T::One),
            '*' => {
                let mut n = 1;
                while i + n < pc.len() && pc[i + n] == '*' {
                    n += 1;
                }
                if n > 2 {
                    return None;
                }
                if n == 2 {
                    let starts = i == 0 || pc[i - 1] == '/';
                    let ends = i + 2 == pc.len() || pc[i + 2] == '/';
                    if !starts || !ends {
                        return None;
                    }
                    t.push(T::Rec);
                    i += if i + 2 == pc.len() { 2 } else { 3 };
                    continue;
                }
                t.push(T::Star);
            }
            '[' => return None,
            c => t.push(T::C(c)),
        }
        i += 1;
    }
    let sc: Vec<char> = s.chars().collect();
    fn go(t: &[T], s: &[char], at_start: bool) -> bool {
        match t.first() {
            None => s.is_empty(),
            Some(T::C(c)) => s.first() == Some(c) && go(&t[1..], &s[1..], false),
            Some(T::One) => !s.is_empty() && go(&t[1..], &s[1..], false),
            Some(T::Star) => (0..=s.len()).any(|k| go(&t[1..], &s[k..], false)),
            Some(T::Rec) => {
                if t.len() == 1 {
                    return true;
                }
                let _ = at_start;
                (0..=s.len()).any(|k| (k == 0 || s[k - 1] == '/') && go(&t[1..], &s[k..], false))
            }
        }
    }
    Some(go(&t, &sc, true))
}

/// Whether the condition matches; None where the rules leave it open.
pub fn cond_matches(c: &CondSpec, event: &str, branch: &str, files: &[String]) -> Option<bool> {
    fn list(values: &[String], patterns: &[String]) -> Option<bool> {
        if patterns.iter().any(|p| glob(p, "x").is_none()) {
            return None;
        }
        Some(values.iter().any(|v| patterns.iter().any(|p| glob(p, v) == Some(true))))
    }
    match c {
        CondSpec::Events(e) => Some(e.iter().any(|x| x == event)),
        CondSpec::Config { push, pr } => {
            let b = match event {
                "push" => push,
                "pull_request" => pr,
                _ => return None,
            };
            let Some(b) = b else { return Some(false) };
            let br = b.branches.as_ref().map(|l| list(&[branch.to_string()], l));
            let pa = b.paths.as_ref().map(|l| list(files, l));
            match (br, pa) {
                (Some(Some(false)), _) | (_, Some(Some(false))) => Some(false),
                (Some(None), _) | (_, Some(None)) => None,
                _ => Some(true),
            }
        }
    }
}

pub fn c20(v: &View, out: &mut Viols) {
    let mut open_used = 0usize;
    let mut open_names: Vec<String> = vec![];
    for inst in &v.insts {
        if inst.end.is_none() {
            if v.out.hung {
                viol!(out, "never-ended", "workflow {} did not end", inst.id);
            }
            continue;
        }
        let ev = &inst.spec.event;
        // what the data would say; None: there can be no data
        let data: Option<(&str, &str, &Vec<String>)> = match (&v.sc.github, ev) {
            (Some(g), Some(e)) if g.auth => {
                let supported = e.event == "push" || (e.event == "pull_request" && e.pr.is_some());
                let files = g.files.iter().find(|f| f.0 == format!("{}/{}", e.owner, e.repo));
                if supported {
                    files.map(|f| (e.event.as_str(), e.branch.as_str(), &f.1))
                } else {
                    None
                }
            }
            _ => None,
        };
        let mut judge = |what: String, c: &Option<CondSpec>, skipped: bool| {
            let Some(c) = c else {
                if skipped {
                    viol!(out, "skipped-unconditionally", "{} has no condition but was skipped", what);
                }
                return;
            };
            let Some((event, branch, files)) = data else {
                if skipped {
                    viol!(out, "skipped-without-data", "{} was skipped although the data of its condition cannot be obtained", what);
                }
                return;
            };
            match cond_matches(c, event, branch, files) {
                Some(true) if skipped => viol!(out, "wrongly-skipped", "{} was skipped although {:?} matches {} on {} with {} files", what, c, event, branch, files.len()),
                Some(false) if !skipped => {
                    open_used += 1;
                    open_names.push(what);
                }
                _ => {}
            }
        };
        judge(format!("workflow {}", inst.id), &inst.spec.on, inst.skipped());
        if inst.skipped() {
            continue;
        }
        for job in &inst.jobs {
            if job.res.is_none() {
                continue;
            }
            judge(format!("job {}", job.jid), &job.spec.on, job.state() == "skipped");
            if job.state() == "skipped" || job.accepted().is_some() {
                continue;
            }
            fold_steps(job, |s, must, was| {
                if !must {
                    judge(format!("step {}", s.sid), &s.spec.on, was);
                }
            });
        }
    }
    let failed = v.recs.iter().filter(|r| matches!(&r.ev, Ev::Api { outcome, .. } if outcome.starts_with("fail"))).count();
    if open_used > failed {
        viol!(
            out,
            "not-skipped",
            "{} conditions that do not match were treated as matching, but only {} requests failed: {:?}",
            open_used,
            failed,
            open_names
        );
    }
    // data once obtained is used again
    for inst in &v.insts {
        let Some(e) = &inst.spec.event else { continue };
        let repo = format!("/repos/{}/{}/", e.owner, e.repo);
        let sole = v.insts.iter().filter(|i| i.spec.event.as_ref().map(|x| (x.owner == e.owner && x.repo == e.repo)).unwrap_or(false)).count() == 1;
        if !sole {
            continue;
        }
        let app = v.sc.github.as_ref().map(|g| g.app).unwrap_or(false);
        let begins = |url: &str| {
            url.contains(&repo)
                && if app {
                    url.contains("/installation")
                } else {
                    !url.split(['?', '&']).any(|q| q.starts_with("page=") && q != "page=1")
                }
        };
        let total = v.sc.github.as_ref().and_then(|g| g.files.iter().find(|f| f.0 == format!("{}/{}", e.owner, e.repo))).map(|f| f.1.len()).unwrap_or(0);
        let mut got: Option<(usize, u64)> = None;
        for r in v.recs {
            if let Ev::Api { url, outcome, .. } = &r.ev {
                if outcome == "request" && begins(url) {
                    if let Some((q, t)) = got {
                        if !v.sc.mt || r.t > t + SLACK_NS {
                            viol!(out, "fetched-again", "workflow {} asked {} again (record {}) after it had the data (record {})", inst.id, url, r.seq, q);
                            break;
                        }
                    }
                }
                let files_url = url.contains(&repo) && (url.contains("/commits/") || url.contains("/files"));
                if outcome == "200" && files_url && got.is_none() {
                    // the last page?
                    let q = |k: &str, d: usize| {
                        url.split_once('?')
                            .and_then(|(_, q)| q.split('&').find_map(|kv| kv.strip_prefix(&format!("{}=", k)).and_then(|x| x.parse().ok())))
                            .unwrap_or(d)
                    };
                    let per = q("per_page", if url.contains("/commits/") { 300 } else { 30 });
                    let page = q("page", 1);
                    if page * per > total {
                        got = Some((r.seq, r.t));
                    }
                }
            }
        }
    }
}

// ---- several workflows ------------------------------------------------------------------------------

/// The part of a run's outcome that does not depend on time.
pub fn digest(v: &View, inst: &Inst) -> Vec<(String, String)> {
    let mut d = vec![];
    let st = match state_of(&inst.res) {
        // which of both is reported depends on the order in which the jobs end
        "failed" | "cancelled" if inst.jobs.iter().any(|j| j.state() == "failed") && inst.jobs.iter().any(|j| j.state() == "cancelled") => "bad",
        s => s,
    };
    d.push((inst.id.clone(), st.to_string()));
    let or = v.runner_obs();
    for j in &inst.jobs {
        d.push((j.jid.clone(), j.state().to_string()));
        for s in &j.steps {
            let code = s.res.as_ref().map(|r| r["exit_code"].to_string()).unwrap_or_default();
            d.push((s.sid.clone(), format!("{} {}", s.state(), code)));
            // how the two streams of a command interleave is not given
            let passes: &[Option<bool>] = if v.sc.world == World::Local { &[Some(false), Some(true)] } else { &[None] };
            for want in passes {
                for q in s.hooks.get(&or).into_iter().flatten() {
                    if let H::Log { err, msg, .. } = v.hook(*q) {
                        if want.map(|w| w == *err).unwrap_or(true) {
                            d.push((s.sid.clone(), format!("{} {}", if *err { "E" } else { "O" }, msg)));
                        }
                    }
                }
            }
        }
    }
    d
}
fn asleep(s: &StepSpec) -> u64 {
    s.script.ops.iter().map(|o| match o { Op::Sleep(ms) => *ms, Op::Hang => 3_600_000, _ => 0 }).sum()
}
fn very_slow(sc: &Scenario) -> bool {
    let servers = sc.servers.iter().flat_map(|s| s.plugins.iter().chain([&s.runner]));
    sc.plugins.iter().chain(&sc.local.plugins).chain([&sc.runner]).chain(servers).any(|o| o.delay_ms >= 1000)
}
/// The steps whose outcome depends on nothing but their script.
pub fn timeless(v: &View, inst: &Inst) -> bool {
    inst.jobs.iter().all(|j| j.cancels.is_empty() && j.steps.iter().all(|s| s.sigs.is_empty()))
        && inst.spec.jobs.iter().all(|j| j.resolved().iter().all(|s| s.timeout_ms.is_none() && asleep(s) < 3_000_000))
        && v.sc.github.is_none()
        // hooks which take as long as a timeout
        && !very_slow(v.sc)
        && v.sc.local.fs_p == 0
        && v.sc.local.spawn_p == 0
}
pub fn compare(v: &View, inst: &Inst, v2: &View, inst2: &Inst, sig: &str, how: &str, out: &mut Viols) {
    let (a, b) = (digest(v, inst), digest(v2, inst2));
    if a != b {
        let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        viol!(out, sig, "workflow {}: {}: {:?} / {:?}", inst.id, how, a.get(i), b.get(i));
    }
}

pub fn c21(v: &View, out: &mut Viols) {
    let n = out.len();
    c01(v, out);
    c02(v, out);
    c03(v, out);
    c05(v, out);
    c06(v, out);
    if v.sc.world == World::Engine {
        c07(v, out);
    }
    if v.sc.world != World::Remote {
        c08(v, out);
    }
    if v.sc.world == World::Local {
        super::local::c19(v, out);
    }
    if out.len() > n {
        // one violation is enough, and the others follow from it
        out.truncate(n + 3);
        return;
    }
    for (k, inst) in v.insts.iter().enumerate() {
        if inst.end.is_none() || !timeless(v, inst) {
            continue;
        }
        if let Some(a) = inst.spec.after {
            if let Some(first) = v.insts.iter().find(|i| i.w == a) {
                if timeless(v, first) && first.id == inst.id {
                    compare(v, inst, v, first, "rerun-differs", "the second run differs from the first", out);
                }
            }
        }
        if k < 2 && v.sc.world != World::Local {
            let mut solo = v.sc.clone();
            solo.wfs = vec![inst.spec.clone()];
            solo.wfs[0].after = None;
            solo.wfs[0].start_ms = 0;
            solo.controls.clear();
            solo.strat = Strat::calm();
            solo.mt = false;
            let o2 = crate::rt::execute(&solo, 7, None);
            let v2 = View::new(&solo, &o2);
            if let Some(i2) = v2.insts.first() {
                compare(v, inst, &v2, i2, "solo-differs", "differs from running alone", out);
            }
        }
    }
}

// ---- what reaches the runner ------------------------------------------------------------------------

pub fn same_step(a: &Value, b: &Value) -> bool {
    let strip = |v: &Value| {
        let mut v = v.clone();
        if let Some(m) = v.as_object_mut() {
            m.remove("on");
        }
        v
    };
    let (mut a, b) = (strip(a), strip(b));
    // numbers of the environment may differ in their last digit here: C23 reports it (`env-number`)
    for k in off_numbers(&a, &b) {
        a["environments"][&k] = b["environments"][&k].clone();
    }
    a == b
}
/// The environment variables that are nearly the same number, and not the same.
fn off_numbers(a: &Value, b: &Value) -> Vec<String> {
    let Some(m) = a["environments"].as_object() else { return vec![] };
    m.iter()
        .filter(|(k, x)| {
            let (Some(x), Some(y)) = (x.as_f64(), b["environments"][k.as_str()].as_f64()) else { return false };
            x != y && (x - y).abs() <= 4.0 * f64::EPSILON * y.abs()
        })
        .map(|(k, _)| k.clone())
        .collect()
}
fn numbers(v: &View, a: &Value, b: &Value, what: &str, id: &str, out: &mut Viols) {
    let sig = if v.sc.world == World::Remote { "env-number-remote" } else { "env-number" };
    if let Some(k) = off_numbers(a, b).first() {
        let msg = format!(
            "step {} {}: the environment number {} is {} instead of {} (last digit)",
            id, what, k, a["environments"][k], b["environments"][k]
        );
        // once for each run: it is one thing
        if !out.iter().any(|v| v.sig == sig) {
            viol!(out, sig, "{}", msg);
        }
    }
}

pub fn c22(v: &View, out: &mut Viols) {
    for (inst, job, s) in v.steps() {
        if inst.end.is_none() || s.state() == "skipped" || job.state() == "skipped" || inst.skipped() {
            continue;
        }
        if s.runs.len() != 1 {
            viol!(out, "run-count", "step {} was handed to the runner {} times", s.sid, s.runs.len());
            continue;
        }
        let mut cur = s.spec.expected(&s.sid, job.spec);
        let mut bad = false;
        // (record, observer, is output) of this run, everywhere
        let evs: Vec<(usize, usize, Option<&Option<Value>>, &Value)> = v
            .recs
            .iter()
            .filter(|r| r.seq > inst.begin && r.seq < inst.lim)
            .filter_map(|r| match &r.ev {
                Ev::Hook { o, h: H::Before { id, def } } if *id == s.sid => Some((r.seq, *o, None, def)),
                Ev::Hook { o, h: H::BeforeOut { id, def } } if *id == s.sid => Some((r.seq, *o, Some(def), &Value::Null)),
                _ => None,
            })
            .collect();
        let mut link = |o: usize, cur: &mut Value, bad: &mut bool| -> bool {
            let ins: Vec<_> = evs.iter().filter(|e| e.1 == o && e.2.is_none()).collect();
            if ins.len() != 1 {
                viol!(out, "hook-count", "step {}: the before hook of observer {} was called {} times", s.sid, o, ins.len());
                *bad = true;
                return false;
            }
            if !same_step(ins[0].3, cur) {
                viol!(out, "hook-input", "step {}: the before hook of observer {} received {} instead of {}", s.sid, o, ins[0].3, cur);
                *bad = true;
                return false;
            }
            match evs.iter().find(|e| e.1 == o && e.2.is_some()).and_then(|e| e.2) {
                Some(Some(d)) => {
                    *cur = d.clone();
                    true
                }
                _ => false,
            }
        };
        for o in v.eng.iter().filter(|o| v.out.obs[**o].idx >= 0) {
            link(*o, &mut cur, &mut bad);
            if bad {
                break;
            }
        }
        if bad {
            continue;
        }
        let left = cur.clone();
        let ro = v.runner_obs();
        if v.sc.world == World::Remote {
            let mut sites: Vec<(usize, usize)> = vec![];
            for (site, _) in connected(v) {
                let first = evs.iter().filter(|e| v.out.obs[e.1].site == site).map(|e| e.0).min();
                sites.push((first.unwrap_or(usize::MAX), site));
            }
            sites.sort();
            let mut failed = false;
            for (_, site) in &sites {
                if failed {
                    if evs.iter().any(|e| v.out.obs[e.1].site == *site) {
                        // harmless: its output counts for nothing
                    }
                    continue;
                }
                let obs: Vec<usize> = (0..v.out.obs.len()).filter(|o| v.out.obs[*o].site == *site).collect();
                for o in &obs {
                    let ok = link(*o, &mut cur, &mut bad);
                    if bad {
                        break;
                    }
                    if v.out.obs[*o].idx == -1 && !ok {
                        failed = true;
                    }
                }
                if bad {
                    break;
                }
            }
            if bad {
                continue;
            }
            if failed {
                cur = left.clone();
            }
        } else {
            let ok = link(ro, &mut cur, &mut bad);
            if bad {
                continue;
            }
            if !ok {
                cur = left.clone();
            }
        }
        if let Ev::Run { def, .. } = &v.recs[s.runs[0]].ev {
            if !same_step(&def["command"], &cur) {
                viol!(out, "wrong-step-run", "step {}: the runner received {} instead of {}", s.sid, def["command"], cur);
            }
        }
        for (q, _) in &s.starts {
            if let Ev::Start { def, .. } = &v.recs[*q].ev {
                if !same_step(&def["command"], &cur) {
                    viol!(out, "wrong-step-run", "step {}: what was executed is {} instead of {}", s.sid, def["command"], cur);
                }
            }
        }
        for q in s.all_hooks() {
            if let H::RunStep { def, .. } = v.hook(q) {
                if !same_step(&def["source"], &cur) {
                    viol!(out, "wrong-step-announced", "step {}: announced as {} instead of {}", s.sid, def["source"], cur);
                    break;
                }
            }
        }
        if v.sc.world == World::Engine && s.starts.len() != 1 {
            viol!(out, "run-count", "step {} was executed {} times", s.sid, s.starts.len());
        }
    }
    c01(v, out);
}

/// Sites of the servers (first incarnation) a scenario without faults connects to, with their index.
pub fn connected(v: &View) -> Vec<(usize, usize)> {
    (0..v.sc.servers.len()).map(|i| (i + 1, i)).collect()
}

fn without(v: &Value, keys: &[&str]) -> Value {
    let mut v = v.clone();
    if let Some(m) = v.as_object_mut() {
        for k in keys {
            m.remove(*k);
        }
    }
    v
}

pub fn c23(v: &View, out: &mut Viols) {
    for inst in &v.insts {
        let event = match inst.spec.real_event() {
            Some(e) => serde_json::to_value(e).unwrap(),
            None => Value::Null,
        };
        let payload = inst.spec.payload.clone();
        // a payload as delivered: its text somewhere in a serialised value
        let carries = |d: &Value| -> bool {
            match &payload {
                None => d.is_null(),
                Some(p) => match d {
                    Value::String(s) => serde_json::from_str::<Value>(s).map(|x| find_msg(&x) == Some(p.clone())).unwrap_or(false),
                    x => find_msg(x) == Some(p.clone()),
                },
            }
        };
        for r in v.recs.iter().filter(|r| r.seq > inst.begin && r.seq < inst.lim) {
            let (id, def, what): (&str, &Value, &str) = match &r.ev {
                Ev::Run { id, def } => (id, def, "given to the runner"),
                Ev::Start { id, def, .. } => (id, def, "executed"),
                Ev::Hook { h, .. } => match h {
                    H::RunWf { id, def } | H::RunJob { id, def } | H::RunStep { id, def } => (id, def, "announced"),
                    _ => continue,
                },
                _ => continue,
            };
            if id.split('/').next() != Some(&inst.id) || def.is_null() {
                continue;
            }
            let (ev, src) = match &r.ev {
                Ev::Run { .. } | Ev::Start { .. } => (&def["event"], &def["command"]),
                _ => (&def["trigger_event"], &def["source"]),
            };
            if *ev != event {
                viol!(out, "event", "{} {}: trigger event {} instead of {}", id, what, ev, event);
            }
            if !carries(&def["payload"]) {
                viol!(out, "payload", "{} {}: payload {} instead of {:?}", id, what, def["payload"], payload);
            }
            let parts = id.split('/').count();
            if parts == 3 {
                if let Some((_, j, s)) = v.sc.step(id) {
                    let want = s.expected(id, j);
                    numbers(v, src, &want, what, id, out);
                    if !same_step(src, &want) {
                        viol!(out, "step-definition", "{} {} as {} instead of {}", id, what, src, want);
                    }
                }
            } else if parts == 2 {
                if let Some(job) = inst.jobs.iter().find(|j| j.jid == id) {
                    job_def(v, src, job, what, out);
                }
            } else {
                if src["name"] != json!(inst.spec.name) {
                    viol!(out, "workflow-definition", "workflow {} {} with name {}", id, what, src["name"]);
                }
                for job in &inst.jobs {
                    job_def(v, &src["jobs"][&job.key], job, what, out);
                }
                if src["jobs"].as_object().map(|m| m.len()) != Some(inst.jobs.len()) {
                    viol!(out, "workflow-definition", "workflow {} {} with other jobs: {}", id, what, src["jobs"]);
                }
            }
            if out.len() > 5 {
                return;
            }
        }
        // and it did reach someone
        if inst.end.is_some() && !inst.skipped() {
            for (i, _, s) in v.steps() {
                if i.w == inst.w && v.sc.world == World::Remote && s.starts.len() > 1 {
                    viol!(out, "executed-twice", "step {} was executed {} times", s.sid, s.starts.len());
                }
            }
        }
    }
}
fn find_msg(v: &Value) -> Option<String> {
    match v {
        Value::Object(m) => m.get("msg").and_then(|x| x.as_str()).map(|s| s.to_string()).or_else(|| m.values().find_map(find_msg)),
        Value::Array(a) => a.iter().find_map(find_msg),
        Value::String(s) if s.starts_with('{') => serde_json::from_str::<Value>(s).ok().and_then(|x| find_msg(&x)),
        _ => None,
    }
}
fn job_def(v: &View, src: &Value, job: &JobF, what: &str, out: &mut Viols) {
    let mut deps: Vec<&str> = src["depends_on"].as_array().map(|a| a.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
    deps.sort();
    deps.dedup();
    let mut want: Vec<&str> = job.spec.depends.iter().map(|s| s.as_str()).collect();
    want.sort();
    want.dedup();
    if src["name"] != json!(job.spec.name) || deps != want {
        viol!(out, "job-definition", "job {} {} as {}", job.jid, what, without(src, &["steps"]));
    }
    let steps = src["steps"].as_array().cloned().unwrap_or_default();
    if steps.len() != job.steps.len() {
        viol!(out, "job-definition", "job {} {} with {} steps", job.jid, what, steps.len());
        return;
    }
    for (a, s) in steps.iter().zip(&job.steps) {
        let want = s.spec.expected(&s.sid, job.spec);
        numbers(v, a, &want, what, &s.sid, out);
        if !same_step(a, &want) {
            viol!(out, "step-definition", "step {} within its job {} as {} instead of {}", s.sid, what, a, want);
            return;
        }
    }
}
