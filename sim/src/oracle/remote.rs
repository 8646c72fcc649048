//! Properties of remote execution.
use super::engine::*;
use super::micro::{capable, odd, probes};
use super::*;
use crate::micro::RunnerSpec;
use crate::viol;

/// Which server each incarnation belongs to.
pub fn sites(v: &View) -> HashMap<usize, usize> {
    let mut m: HashMap<usize, usize> = connected(v).into_iter().collect();
    for r in v.recs {
        if let Ev::Fault { what } = &r.ev {
            let w: Vec<&str> = what.split(' ').collect();
            if let ["restart", i, "site", k] = w[..] {
                if let (Ok(i), Ok(k)) = (i.parse(), k.parse()) {
                    m.insert(k, i);
                }
            }
        }
    }
    m
}

struct Choice {
    seq: usize,
    docker: bool,
    runners: Vec<String>,
    choice: Option<String>,
    cont: Option<String>,
}
/// The scheduler's decisions for a step of this run.
fn choices(v: &View, inst: &Inst, sid: &str) -> Vec<Choice> {
    v.recs
        .iter()
        .filter(|r| r.seq > inst.begin && r.seq < inst.lim)
        .filter_map(|r| match &r.ev {
            Ev::Sched { id, docker, runners, choice, cont } if id == sid => {
                Some(Choice { seq: r.seq, docker: *docker, runners: runners.clone(), choice: choice.clone(), cont: cont.clone() })
            }
            _ => None,
        })
        .collect()
}

fn ended(v: &View, out: &mut Viols) -> bool {
    let mut ok = true;
    for inst in &v.insts {
        if inst.end.is_none() && v.out.hung {
            let open: Vec<&str> = inst.jobs.iter().filter(|j| j.terminal(v).is_none()).map(|j| j.jid.as_str()).collect();
            viol!(out, "never-ended", "workflow {} did not end; unfinished jobs: {:?}; panics: {:?}", inst.id, open, v.out.panics);
            ok = false;
        }
    }
    ok
}

pub fn c11(v: &View, out: &mut Viols) {
    if !ended(v, out) {
        return;
    }
    for (_, _, s) in v.steps() {
        if !s.ran() {
            continue;
        }
        if s.starts.len() != 1 {
            viol!(out, "start-count", "step {} was started {} times on the remote runners", s.sid, s.starts.len());
            continue;
        }
        if let Ev::Start { def, .. } = &v.recs[s.starts[0].0].ev {
            let (_, j, spec) = v.sc.step(&s.sid).expect("step");
            let want = spec.expected(&s.sid, j);
            if !def.is_null() && !same_step(&def["command"], &want) {
                viol!(out, "wrong-step-run", "step {}: the remote runner received {} instead of {}", s.sid, def["command"], want);
            }
        }
    }
    outcome_steps(v, out);
    c06(v, out);
    if !out.is_empty() {
        return;
    }
    // the same workflows with the same runner next to the engine
    let mut direct = v.sc.clone();
    direct.world = World::Engine;
    direct.servers.clear();
    direct.controls.clear();
    direct.strat = Strat::calm();
    direct.mt = false;
    let o2 = crate::rt::execute(&direct, 7, None);
    let v2 = View::new(&direct, &o2);
    for inst in &v.insts {
        let Some(i2) = v2.insts.iter().find(|i| i.w == inst.w) else { continue };
        if i2.end.is_none() {
            continue;
        }
        let clean = |d: Vec<(String, String)>| -> Vec<(String, String)> {
            d.into_iter()
                .filter(|(id, t)| {
                    let failed_to_start = v.sc.step(id).map(|(_, _, s)| s.script.run_err).unwrap_or(false);
                    !(failed_to_start && (t.starts_with("E ") || t.starts_with("O ")))
                })
                .collect()
        };
        let (a, b) = (clean(digest(v, inst)), clean(digest(&v2, i2)));
        if a != b {
            let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            viol!(out, "differs-from-local", "workflow {}: remotely {:?}, locally {:?}", inst.id, a.get(i), b.get(i));
        }
    }
}

pub fn c12(v: &View, out: &mut Viols) {
    if !ended(v, out) {
        return;
    }
    let sites = sites(v);
    let mut faulted: Vec<usize> = vec![];
    let mut last_fault = 0;
    for r in v.recs {
        if let Ev::Fault { what } = &r.ev {
            last_fault = last_fault.max(r.t);
            if let Some(i) = what.split(' ').nth(1).and_then(|x| x.parse().ok()) {
                faulted.push(i);
            }
        }
    }
    // servers that do not run any more at the end
    let mut down: Vec<usize> = vec![];
    for r in v.recs {
        if let Ev::Fault { what } = &r.ev {
            let w: Vec<&str> = what.split(' ').collect();
            match w[..] {
                ["crash", i, ..] => down.push(i.parse().unwrap_or(0)),
                ["restart", i, ..] => {
                    let i: usize = i.parse().unwrap_or(0);
                    down.retain(|x| *x != i);
                }
                _ => {}
            }
        }
    }
    let mut first_known: HashMap<String, usize> = HashMap::new();
    for r in v.recs {
        if let Ev::Sched { runners, .. } = &r.ev {
            for x in runners {
                first_known.entry(x.clone()).or_insert(r.seq);
            }
        }
    }
    for (inst, _, s) in v.steps() {
        if s.starts.len() > 1 {
            viol!(out, "executed-twice", "step {} was executed {} times", s.sid, s.starts.len());
        }
        let Some(res) = s.step_done(v).map(|q| v.hook(q)) else { continue };
        let H::StepDone { res, .. } = res else { continue };
        let (st, code) = (state_of(res), &res["exit_code"]);
        let reported: Vec<(&str, Value)> = s.ends.iter().take(1).map(|e| meaning(&e.2)).collect();
        let truly = reported.iter().any(|(a, b)| *a == st && b == code);
        if !truly && st != "failed" {
            viol!(
                out,
                "untrue-result",
                "step {} is reported {} but its runner reported {:?}",
                s.sid,
                st,
                s.ends.first().map(|e| e.2.as_str())
            );
        }
        let ch = choices(v, inst, &s.sid);
        if let Some(c) = ch.first() {
            // a runner that is up, and was known before, is still to be considered
            for (i, x) in v.sc.servers.iter().enumerate() {
                let known = *first_known.get(&x.id).unwrap_or(&usize::MAX) < c.seq;
                let calm = !faulted.contains(&i) || (v.t(c.seq) > last_fault + 60_000_000_000 && !down.contains(&i));
                if known && calm && !c.runners.contains(&x.id) {
                    let sig = if faulted.contains(&i) { "not-recovered" } else { "unaffected-runner" };
                    viol!(out, sig, "runner {}, which is reachable, is not considered for step {} any more", x.id, s.sid);
                }
            }
        }
        let Some(c) = ch.first().and_then(|c| c.choice.clone()) else { continue };
        let Some(server) = v.sc.servers.iter().position(|x| x.id == c) else { continue };
        // a runner nothing happened to
        if !faulted.contains(&server) {
            if s.starts.len() != 1 {
                viol!(out, "unaffected-step", "step {} was not executed by {}, which had no fault", s.sid, c);
            } else if !truly && !s.ends.is_empty() {
                viol!(out, "unaffected-step", "step {} on {}, which had no fault: reported {}, its runner said {}", s.sid, c, st, s.ends[0].2);
            } else if !s.ends.is_empty() {
                lines(v, s, out);
            }
        } else if let Some(run) = s.runs.first() {
            // and after the faults
            let calm = v.t(*run) > last_fault + 60_000_000_000;
            if calm && !down.contains(&server) && !s.spec.script.run_err {
                if s.starts.is_empty() {
                    viol!(
                        out,
                        "not-recovered",
                        "step {} was handed to {} at {:.0} ms, {:.0} s after the last fault, but was not executed",
                        s.sid,
                        c,
                        v.recs[*run].ms(),
                        (v.t(*run) - last_fault) as f64 / 1e9
                    );
                } else if !s.ends.is_empty() && !truly {
                    viol!(out, "not-recovered", "step {} on {}, long after the last fault: reported {}, its runner said {}", s.sid, c, st, s.ends[0].2);
                }
            }
        }
        let _ = &sites;
    }
    c04_jobs(v, out);
}
/// Every observer of the engine got the lines the runner logged.
fn lines(v: &View, s: &StepF, out: &mut Viols) {
    let want: Vec<(bool, &str)> = s.emits.iter().map(|e| (e.2, e.3.as_str())).collect();
    for o in &v.eng {
        let got: Vec<(bool, &str)> = s
            .hooks
            .get(o)
            .into_iter()
            .flatten()
            .filter_map(|q| match v.hook(*q) {
                H::Log { err, msg, .. } => Some((*err, msg.as_str())),
                _ => None,
            })
            .collect();
        if got != want {
            viol!(out, "unaffected-logs", "step {}, observer {}: {} lines of {}", s.sid, o, got.len(), want.len());
            return;
        }
    }
}

fn same_h(a: &H, b: &H) -> bool {
    match (a, b) {
        (H::RunStep { id, def }, H::RunStep { id: i2, def: d2 }) => {
            id == i2 && same_step(&def["source"], &d2["source"]) && def["trigger_event"] == d2["trigger_event"]
        }
        (H::RunJob { id, .. }, H::RunJob { id: i2, .. }) => id == i2,
        (H::RunWf { id, .. }, H::RunWf { id: i2, .. }) => id == i2,
        _ => a == b,
    }
}
pub fn c13(v: &View, out: &mut Viols) {
    if !ended(v, out) {
        return;
    }
    let of = |o: usize| -> Vec<&H> {
        v.recs
            .iter()
            .filter_map(|r| match &r.ev {
                Ev::Hook { o: x, h } if *x == o && !matches!(h, H::Before { .. } | H::BeforeOut { .. }) => Some(h),
                _ => None,
            })
            .collect()
    };
    let want = of(v.runner_obs());
    // a runner that died, and those of a call that was given up, need not be told everything
    let at = sites(v);
    let gone = |site: usize| {
        let Some(server) = at.get(&site) else { return true };
        v.sc.controls.iter().any(|c| match c.act {
            Act::Crash { server: s, .. } => s == *server,
            Act::StopCall { call } => v.sc.servers[*server].calls & (1 << call) != 0,
            _ => false,
        })
    };
    for (k, info) in v.out.obs.iter().enumerate() {
        if info.site == 0 || gone(info.site) {
            continue;
        }
        let got = of(k);
        let who = format!("{} of runner {}", if info.idx < 0 { "runner".to_string() } else { format!("plugin {}", info.idx) }, info.site);
        let brief = |h: Option<&&H>| h.map(|h| format!("{:?}", h).chars().take(160).collect::<String>());
        if !v.sc.mt {
            let i = got.iter().zip(&want).position(|(a, b)| !same_h(a, b)).unwrap_or(got.len().min(want.len()));
            if i < got.len() || i < want.len() {
                viol!(
                    out,
                    "events",
                    "{} received {} events of {}; first difference at {}: {:?} instead of {:?}",
                    who,
                    got.len(),
                    want.len(),
                    i,
                    brief(got.get(i)),
                    brief(want.get(i))
                );
            }
        } else {
            // several threads: the order across jobs may be taken either way
            let key = |h: &H| h.id().splitn(3, '/').take(2).collect::<Vec<_>>().join("/");
            let mut ids: Vec<String> = want.iter().chain(&got).map(|h| key(h)).collect();
            ids.sort();
            ids.dedup();
            for id in ids {
                let a: Vec<&&H> = got.iter().filter(|h| key(h) == id).collect();
                let b: Vec<&&H> = want.iter().filter(|h| key(h) == id).collect();
                let i = a.iter().zip(&b).position(|(a, b)| !same_h(a, b)).unwrap_or(a.len().min(b.len()));
                if i < a.len() || i < b.len() {
                    viol!(
                        out,
                        "events",
                        "{} received {} events of {} about {}; first difference at {}: {:?} instead of {:?}",
                        who,
                        a.len(),
                        b.len(),
                        id,
                        i,
                        brief(a.get(i).copied()),
                        brief(b.get(i).copied())
                    );
                    break;
                }
            }
        }
    }
    // every server did get connected
    for (site, i) in connected(v) {
        if !v.out.obs.iter().any(|o| o.site == site && o.idx == -1) {
            viol!(out, "no-runner", "runner {} never came up", i);
        }
    }
}

pub fn c14(v: &View, out: &mut Viols) {
    if !ended(v, out) {
        return;
    }
    for (_, job, s) in v.steps() {
        let acc = job.accepted();
        if s.starts.len() > 1 {
            viol!(out, "executed-twice", "step {} was executed {} times", s.sid, s.starts.len());
        }
        let Some((start, site)) = s.starts.first().copied() else {
            if let Some(x) = s.sigs.first() {
                viol!(out, "signal-unasked", "step {} received a {} signal but was never started", s.sid, x.2);
            }
            continue;
        };
        for x in s.sigs.iter().skip(1) {
            viol!(out, "signalled-twice", "step {} was signalled again ({})", s.sid, x.2);
        }
        let server = v.sc.servers.get(site - 1);
        let one_way = server.map(|x| x.base_ms + x.jitter_ms).unwrap_or(0) * 1_000_000;
        let timeout = s.spec.timeout() * 1_000_000;
        let (Some(ip), Some(ipl)) = (s.in_progress(v), s.in_progress_last(v)) else { continue };
        let (tp, te) = (v.t(ip), v.exit_t(ipl));
        // what is due, and when the engine is sure to have raised it
        let t_cancel = acc.filter(|a| !s.terminal(v).map(|t| t < a.res).unwrap_or(false)).map(|a| v.t(a.res).max(te));
        let l_cancel = t_cancel.map(|t| covered_until(v, s, t) + SLACK_NS);
        let l_timeout = covered_until(v, s, te + timeout) + SLACK_NS;
        if let Some((q, at, kind)) = s.sigs.first() {
            let t = v.t(*q);
            if *at != site {
                viol!(out, "wrong-runner", "step {} runs on runner {} but runner {} received its {} signal", s.sid, site, at, kind);
            }
            match kind.as_str() {
                "timeout" => {
                    if t < tp + timeout {
                        viol!(out, "timeout-early", "step {} was told of a timeout {:.3} ms after it went in progress, not {} ms", s.sid, (t - tp) as f64 / 1e6, s.spec.timeout());
                    }
                    if let Some(l) = l_cancel {
                        if l < tp + timeout {
                            viol!(out, "wrong-kind", "step {} was cancelled first but received a timeout signal", s.sid);
                        }
                    }
                }
                _ => {
                    if acc.map(|a| a.req > *q).unwrap_or(true) {
                        viol!(out, "signal-unasked", "step {} received a {} signal, but its job was not cancelled", s.sid, kind);
                    } else if v.t(acc.unwrap().req) > l_timeout {
                        viol!(out, "wrong-kind", "step {} had timed out first but received a cancel signal", s.sid);
                    }
                }
            }
        }
        let due = l_cancel.map(|l| l.min(l_timeout)).unwrap_or(l_timeout);
        let ready = v.t(start) + s.spec.script.run_ms * 1_000_000;
        let latest = due.max(v.t(start)).max(ready) + 3 * one_way + SLACK_NS;
        let over = match s.end() {
            Some(e) => v.t(e.0),
            None if s.spec.script.run_err => continue,
            None => v.recs.last().map(|r| r.t).unwrap_or(0),
        };
        let told = s.sigs.first().map(|x| v.t(x.0));
        if over > latest && told.map(|t| t > latest).unwrap_or(true) {
            viol!(
                out,
                "not-signalled",
                "step {} ran on runner {} until {:.3} ms; its signal was due there by {:.3} ms and {}",
                s.sid,
                site,
                over as f64 / 1e6,
                latest as f64 / 1e6,
                match told {
                    Some(t) => format!("came at {:.3} ms", t as f64 / 1e6),
                    None => "did not come".into(),
                }
            );
        }
    }
    outcome_steps(v, out);
}

pub fn c15(v: &View, out: &mut Viols) {
    if !ended(v, out) {
        return;
    }
    let meta = |id: &str| -> Option<RunnerSpec> {
        v.sc.servers.iter().find(|s| s.id == id).map(|s| RunnerSpec {
            id: s.id.clone(),
            os: std::env::consts::OS.into(),
            arch: std::env::consts::ARCH.into(),
            docker: s.docker,
            host: s.host,
        })
    };
    let sites = sites(v);
    // the times between which each scheduled step is certainly, and possibly, in progress
    struct Load {
        runner: String,
        from: usize,
        surely: usize,
        maybe: usize,
    }
    let mut loads: Vec<Load> = vec![];
    let or = v.runner_obs();
    for (inst, _, s) in v.steps() {
        for c in choices(v, inst, &s.sid) {
            if let Some(r) = c.choice {
                let done = s.hooks.get(&or).into_iter().flatten().copied().find(|q| matches!(v.hook(*q), H::StepDone { .. }));
                let end = s.ends.first().map(|e| e.0);
                let term = s.terminal(v);
                let surely = [end, term, done].into_iter().flatten().min().unwrap_or(usize::MAX);
                let maybe = done.map(|d| v.exited(d)).unwrap_or(usize::MAX);
                loads.push(Load { runner: r, from: c.seq, surely, maybe });
            }
        }
    }
    for (inst, job) in v.jobs() {
        let mut tied: Option<String> = None;
        for s in &job.steps {
            let ch = choices(v, inst, &s.sid);
            if s.ran() && ch.len() > 1 {
                viol!(out, "scheduled-twice", "step {} was scheduled {} times", s.sid, ch.len());
            }
            let Some(c) = ch.first() else { continue };
            let able: Vec<&String> = c.runners.iter().filter(|r| meta(r).map(|m| capable(&m, c.cont.as_deref())).unwrap_or(false)).collect();
            let missing: Vec<&str> = v.sc.servers.iter().map(|x| x.id.as_str()).filter(|x| !c.runners.iter().any(|r| r == x)).collect();
            if !missing.is_empty() && v.sc.controls.iter().all(|c| !is_net(&c.act)) {
                viol!(out, "runner-unknown", "step {}: the connected runners {:?} were not considered", s.sid, missing);
            }
            match &c.choice {
                None => {
                    if !able.is_empty() {
                        viol!(out, "not-scheduled", "step {} ({:?}) got no runner although {:?} can run it", s.sid, c.cont, able);
                    }
                    if !s.starts.is_empty() {
                        viol!(out, "ran-elsewhere", "step {} was executed although no runner could be chosen", s.sid);
                    }
                    if s.res.is_some() && s.state() != "failed" {
                        viol!(out, "unrunnable-step", "step {} could not be scheduled but is reported {}", s.sid, s.state());
                    }
                }
                Some(r) => {
                    if !c.runners.contains(r) {
                        viol!(out, "unavailable-runner", "step {} was given to {}, which is not connected", s.sid, r);
                    } else if !able.contains(&r) && !odd(c.cont.as_deref()) {
                        viol!(out, "incapable-runner", "step {} ({:?}) was given to {}, which cannot run it", s.sid, c.cont, r);
                    }
                    for (_, site) in &s.starts {
                        let name = sites.get(site).and_then(|i| v.sc.servers.get(*i)).map(|x| x.id.as_str());
                        if name != Some(r.as_str()) {
                            viol!(out, "wrong-runner", "step {} was given to {} but executed by {:?}", s.sid, r, name);
                        }
                    }
                    if c.docker {
                        match &tied {
                            Some(t) if c.runners.contains(t) => {
                                if t != r {
                                    viol!(out, "job-moved", "step {} was given to {} although its job runs on {}", s.sid, r, t);
                                }
                            }
                            Some(_) => {}
                            None if !v.sc.mt => {
                                let surely = |x: &str| loads.iter().filter(|l| l.runner == x && l.from < c.seq && c.seq < l.surely).count();
                                let maybe = |x: &str| loads.iter().filter(|l| l.runner == x && l.from < c.seq && c.seq < l.maybe).count();
                                let mine = surely(r);
                                if let Some(b) = able.iter().find(|b| maybe(b) < mine) {
                                    viol!(
                                        out,
                                        "not-least-loaded",
                                        "step {} was given to {} with {} steps in progress, {} has {}",
                                        s.sid,
                                        r,
                                        mine,
                                        b,
                                        maybe(b)
                                    );
                                }
                            }
                            None => {}
                        }
                        tied = Some(r.clone());
                    }
                }
            }
        }
    }
    let n: Vec<(&str, &Value)> = v
        .recs
        .iter()
        .filter_map(|r| match &r.ev {
            Ev::Note { what, detail } if what.starts_with("probe") => Some((what.as_str(), detail)),
            _ => None,
        })
        .collect();
    probes(&n, v.sc.servers.iter().filter(|s| s.docker).count(), out);
}
pub fn is_net(a: &Act) -> bool {
    !matches!(a, Act::Cancel { .. } | Act::WallJump { .. })
}
