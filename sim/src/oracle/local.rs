//! Properties of the local runner.
use super::engine::{same_step, timeout_code};
use super::*;
use crate::viol;
use serde_json::json;
use std::collections::{BTreeSet, HashSet};

/// A process (or container) the runner started for a step.
pub struct Proc<'a> {
    pub pid: u32,
    pub start: usize,
    pub det: &'a Value,
    pub docker: bool,
    pub outs: Vec<(usize, bool, Vec<u8>)>,
    /// it ended by itself: record, wait status, whether the daemon refused it
    pub exit: Option<(usize, i32, bool)>,
    pub killed: Option<usize>,
}
pub struct Loc<'a> {
    pub procs: Vec<Proc<'a>>,
    /// (record, command text) of starts which failed
    pub unspawned: Vec<(usize, &'a str)>,
}
fn scan<'a>(v: &View<'a>) -> Loc<'a> {
    let mut procs: Vec<Proc<'a>> = vec![];
    let mut unspawned = vec![];
    for r in v.recs {
        let Ev::Proc { pid, what, detail } = &r.ev else { continue };
        let p = procs.iter_mut().find(|p| p.pid == *pid);
        match what.as_str() {
            "start" => procs.push(Proc {
                pid: *pid,
                start: r.seq,
                det: detail,
                docker: detail["kind"] == "docker",
                outs: vec![],
                exit: None,
                killed: None,
            }),
            "spawn-failed" => unspawned.push((r.seq, detail.as_str().unwrap_or(""))),
            "out" => {
                if let Some(p) = p {
                    let bytes = detail["bytes"].as_array().map(|a| a.iter().map(|b| b.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default();
                    p.outs.push((r.seq, detail["err"] == true, bytes));
                }
            }
            "exit" => {
                if let Some(p) = p {
                    p.exit = Some((r.seq, detail["raw"].as_i64().unwrap_or(0) as i32, detail["daemon"] == true));
                }
            }
            "killed" => {
                if let Some(p) = p {
                    // the end of the docker client is not the end of the container
                    if p.docker == detail.get("container").is_some() && p.exit.is_none() && p.killed.is_none() {
                        p.killed = Some(r.seq);
                    }
                }
            }
            _ => {}
        }
    }
    Loc { procs, unspawned }
}
impl<'a> Loc<'a> {
    fn of<'b>(&'b self, inst: &Inst, tag: &str) -> Vec<&'b Proc<'a>> {
        self.procs.iter().filter(|p| p.start > inst.begin && p.start < inst.lim && p.det["tag"] == tag).collect()
    }
}
/// What a wait status means for the step.
fn natural(p: &Proc) -> Option<(&'static str, Value)> {
    let (_, raw, _) = p.exit?;
    let sig = raw & 0x7f;
    Some(if sig != 0 {
        if p.docker {
            ("failed", json!(128 + sig))
        } else {
            ("failed", json!(1))
        }
    } else {
        match (raw >> 8) & 0xff {
            0 => ("succeeded", Value::Null),
            c => ("failed", json!(c)),
        }
    })
}
struct Told<'a> {
    /// none, cancel, timeout, absent
    sig: &'a str,
    preraised: bool,
}
fn told<'a>(v: &View<'a>, inst: &Inst, sid: &str) -> Told<'a> {
    let mut t = Told { sig: "none", preraised: false };
    for r in v.recs.iter().filter(|r| r.seq > inst.begin && r.seq < inst.lim) {
        if let Ev::Local { what, id, detail, .. } = &r.ev {
            if id == sid {
                match what.as_str() {
                    "sig-at-done" => t.sig = detail.as_str().unwrap_or("none"),
                    "preraised" => t.preraised = true,
                    _ => {}
                }
            }
        }
    }
    t
}
fn done_res<'a>(v: &View<'a>, s: &StepF) -> Option<&'a Value> {
    s.step_done(v).and_then(|q| match v.hook(q) {
        H::StepDone { res, .. } => Some(res),
        _ => None,
    })
}
fn unfinished(v: &View, out: &mut Viols) {
    if !v.out.hung {
        return;
    }
    for (inst, _, s) in v.steps() {
        if inst.end.is_none() && s.rets.iter().any(|r| r.1) && s.step_done(v).is_none() {
            viol!(out, "no-result", "step {} was accepted by the runner but never got a result", s.sid);
        }
    }
}

// ---- output -----------------------------------------------------------------------------------------

fn lines_of(bytes: &[u8]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut parts: Vec<&[u8]> = bytes.split(|b| *b == b'\n').collect();
    if parts.last().map(|p| p.is_empty()).unwrap_or(false) {
        parts.pop();
    }
    for p in parts {
        v.push(String::from_utf8_lossy(p).into_owned());
    }
    v
}
/// A line terminator may or may not include a carriage return.
fn same_line(got: &str, want: &str) -> bool {
    got == want || want.strip_suffix('\r') == Some(got)
}

pub fn c16(v: &View, out: &mut Viols) {
    unfinished(v, out);
    let loc = scan(v);
    let or = v.runner_obs();
    for (inst, _, s) in v.steps() {
        let Some(res) = done_res(v, s) else { continue };
        if !s.ran() || told(v, inst, &s.sid).sig != "none" {
            continue;
        }
        let ps = loc.of(inst, &s.spec.tag);
        if ps.len() > 1 {
            viol!(out, "started-twice", "the command of step {} was started {} times", s.sid, ps.len());
            continue;
        }
        let want = match ps.first() {
            Some(p) if p.exit.map(|e| e.2).unwrap_or(false) => continue,
            Some(p) => match natural(p) {
                Some(n) => n,
                None => {
                    viol!(out, "result-before-exit", "step {} is reported {} but its process has not exited", s.sid, state_of(res));
                    continue;
                }
            },
            None => ("failed", json!(1)),
        };
        if state_of(res) != want.0 || res["exit_code"] != want.1 {
            viol!(
                out,
                "exit-status",
                "step {}: the process exited with {:?} (expected {} {}), reported {} {}",
                s.sid,
                ps.first().and_then(|p| p.exit.map(|e| e.1)),
                want.0,
                want.1,
                state_of(res),
                res["exit_code"]
            );
        }
        let Some(p) = ps.first() else { continue };
        if v.t(p.exit.unwrap().0) > v.t(s.step_done(v).unwrap()) {
            viol!(out, "result-before-exit", "step {} was reported before its process exited", s.sid);
        }
        for err in [false, true] {
            let tty = p.det["tty"] == true;
            let bytes: Vec<u8> = p.outs.iter().filter(|o| (o.1 && !tty) == err).flat_map(|o| o.2.iter().copied()).collect();
            let want = lines_of(&bytes);
            let done = s.hooks.get(&or).into_iter().flatten().copied().find(|q| matches!(v.hook(*q), H::StepDone { .. })).unwrap_or(usize::MAX);
            let got: Vec<String> = s
                .hooks
                .get(&or)
                .into_iter()
                .flatten()
                .filter(|q| **q < done)
                .filter_map(|q| match v.hook(*q) {
                    H::Log { err: e, msg, .. } if *e == err => Some(msg.clone()),
                    _ => None,
                })
                .collect();
            let i = got.iter().zip(&want).position(|(a, b)| !same_line(a, b)).unwrap_or(got.len().min(want.len()));
            if i < got.len() || i < want.len() {
                let short = |x: Option<&String>| x.map(|x| x.chars().take(80).collect::<String>());
                viol!(
                    out,
                    if got.len() < want.len() { "output-lost" } else { "output-differs" },
                    "step {}, {}: {} lines delivered of {}; first difference at {}: {:?} instead of {:?}",
                    s.sid,
                    if err { "standard error" } else { "standard output" },
                    got.len(),
                    want.len(),
                    i,
                    short(got.get(i)),
                    short(want.get(i))
                );
            }
        }
    }
}

// ---- the life of a step -------------------------------------------------------------------------

fn removal_failed(v: &View) -> bool {
    v.out.fs.as_ref().map(|f| f.injected.iter().any(|(op, _)| op == "rmdir" || op == "unlink")).unwrap_or(false)
}

pub fn c17(v: &View, out: &mut Viols) {
    unfinished(v, out);
    let loc = scan(v);
    for p in &loc.procs {
        if p.docker {
            let mode = p.det["mode"].as_u64().unwrap_or(0);
            if p.det["tag"].is_null() || mode & 0o111 == 0 {
                viol!(
                    out,
                    "script-unusable",
                    "container {} was started with the script {:?} (mode {:o})",
                    p.det["name"],
                    p.det["content"].as_str().map(|c| c.chars().take(80).collect::<String>()),
                    mode
                );
            }
        }
    }
    for (inst, _, s) in v.steps() {
        let ps = loc.of(inst, &s.spec.tag);
        for p in &ps {
            if p.docker {
                let c = p.det["content"].as_str().unwrap_or("");
                let run = &s.spec.run;
                let ok = if run.starts_with("#!") { c == run } else { c == format!("#!/bin/sh\n{}", run) };
                if !ok {
                    viol!(out, "script-differs", "step {}: the container executes {:?} instead of {:?}", s.sid, c, run);
                }
            }
        }
        if ps.len() > 1 {
            viol!(out, "started-twice", "the command of step {} was started {} times", s.sid, ps.len());
        }
        let accepted = s.rets.iter().filter(|r| r.1).count();
        if accepted == 0 {
            continue;
        }
        for (o, hs) in &s.hooks {
            let n = hs.iter().filter(|q| matches!(v.hook(**q), H::StepDone { .. })).count();
            if n > accepted {
                viol!(out, "two-results", "step {} got {} results (observer {})", s.sid, n, o);
            }
        }
        if let Some(res) = done_res(v, s) {
            if state_of(res) == "succeeded" && !ps.iter().any(|p| matches!(p.exit, Some((_, 0, false)))) {
                viol!(out, "false-success", "step {} is reported as succeeded, but its command did not run to success", s.sid);
            }
            if ps.is_empty() && told(v, inst, &s.sid).sig == "none" && state_of(res) != "failed" {
                viol!(out, "false-success", "step {} could not be started but is reported {}", s.sid, state_of(res));
            }
        }
        // hooks
        if v.out.hung && inst.end.is_none() {
            continue;
        }
        let sig = told(v, inst, &s.sid).sig;
        for k in 0..v.sc.local.plugins.len() {
            let of = |kind: &str| -> Vec<(usize, &Value)> {
                v.recs
                    .iter()
                    .filter(|r| r.seq > inst.begin && r.seq < inst.lim)
                    .filter_map(|r| match &r.ev {
                        Ev::Local { site, what, id, detail } if *site == k && what == kind && *id == s.sid => Some((r.seq, detail)),
                        _ => None,
                    })
                    .collect()
            };
            let (before, after) = (of("before"), of("after"));
            if before.len() != 1 {
                viol!(out, "before-hook", "step {}: before-run of plugin {} was called {} times", s.sid, k, before.len());
                continue;
            }
            if after.len() != 1 {
                viol!(out, "after-hook", "step {}: after-run of plugin {} was called {} times", s.sid, k, after.len());
                continue;
            }
            if after[0].0 < before[0].0 {
                viol!(out, "hook-order", "step {}: after-run of plugin {} came before before-run", s.sid, k);
            }
            for p in &ps {
                if p.start < before[0].0 {
                    viol!(out, "hook-order", "step {} was started before the before-run hook of plugin {}", s.sid, k);
                }
                let over = p.exit.map(|e| e.0).unwrap_or(usize::MAX);
                if sig == "none" && over > after[0].0 {
                    viol!(out, "hook-order", "step {}: after-run of plugin {} came while the command was running", s.sid, k);
                }
            }
            let left: Vec<&str> = after[0].1["private"].as_array().map(|a| a.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
            // what an earlier run has left need not be removed without running the step
            if !left.is_empty() && !removal_failed(v) && !(v.sc.local.stale && !ps.iter().any(|p| p.docker)) {
                viol!(out, "private-left", "step {} is over but {:?} is still there", s.sid, left);
            }
        }
    }
}

// ---- signals ------------------------------------------------------------------------------------

fn sig_outcome(kind: &str) -> (&'static str, Value) {
    if kind == "cancel" {
        ("cancelled", Value::Null)
    } else {
        ("failed", json!(timeout_code()))
    }
}

pub fn c18(v: &View, out: &mut Viols) {
    unfinished(v, out);
    let loc = scan(v);
    let kill = v.sc.local.kill_ms * 1_000_000;
    for (inst, job, s) in v.steps() {
        if !s.ran() || !s.rets.iter().any(|r| r.1) {
            continue;
        }
        let Some(res) = done_res(v, s) else { continue };
        let got = (state_of(res), res["exit_code"].clone());
        let t = told(v, inst, &s.sid);
        let ps = loc.of(inst, &s.spec.tag);
        let unspawned = |p: &dyn Fn(&str) -> bool| loc.unspawned.iter().any(|(q, x)| *q > inst.begin && *q < inst.lim && p(x));
        let not_started = unspawned(&|x: &str| !x.contains("docker kill"));
        let own = ps.first().and_then(|p| natural(p).map(|n| (v.t(p.exit.unwrap().0), n)));
        if t.preraised {
            if !ps.is_empty() {
                viol!(out, "ran-though-signalled", "the command of step {} was run although its signal was raised before", s.sid);
            }
            if (t.sig == "cancel" || t.sig == "timeout") && got != sig_outcome(t.sig) {
                viol!(out, "signal-outcome", "step {} was told to {} before it began, but is reported {} {}", s.sid, t.sig, got.0, got.1);
            }
            continue;
        }
        let asked = match t.sig {
            "cancel" => job.accepted().map(|a| v.t(a.res)),
            "timeout" => s.in_progress(v).map(|q| v.t(q) + s.spec.timeout() * 1_000_000),
            _ => None,
        };
        let Some(asked) = asked else {
            if t.sig == "none" {
                if let Some(p) = ps.first() {
                    if p.killed.is_some() {
                        viol!(out, "killed-unasked", "the command of step {} was killed although nobody asked for it", s.sid);
                    }
                    if let Some((_, n)) = &own {
                        if *n != got {
                            viol!(out, "natural-outcome", "step {} ended by itself as {} {}, but is reported {} {}", s.sid, n.0, n.1, got.0, got.1);
                        }
                    }
                }
            }
            continue;
        };
        let want = sig_outcome(t.sig);
        let due = match t.sig {
            "cancel" => covered_until(v, s, asked.max(s.in_progress(v).map(|q| v.t(q)).unwrap_or(0))),
            _ => covered_until(v, s, s.in_progress_last(v).map(|q| v.exit_t(q)).unwrap_or(asked) + s.spec.timeout() * 1_000_000),
        }
        .max(s.rets.iter().map(|r| v.t(r.0)).min().unwrap_or(0));
        // what the disk held up meanwhile
        let due = due + v.out.sum.waits.iter().filter(|w| w.1 > asked && s.terminal(v).map(|x| w.0 < v.t(x)).unwrap_or(true)).map(|w| w.1 - w.0).sum::<u64>();
        // the outcome
        match &own {
            Some((at, n)) if *at + SLACK_NS < asked => {
                if got != *n {
                    viol!(out, "natural-outcome", "step {} had ended by itself as {} {}, but is reported {} {}", s.sid, n.0, n.1, got.0, got.1);
                }
            }
            Some((at, n)) if *at <= due + kill + SLACK_NS => {
                if got != *n && got != want {
                    viol!(out, "signal-outcome", "step {} was told to {} but is reported {} {}", s.sid, t.sig, got.0, got.1);
                }
            }
            _ => {
                let failed_start = ps.is_empty() && not_started && got == ("failed", json!(1));
                if got != want && !failed_start {
                    viol!(out, "signal-outcome", "step {} was told to {} but is reported {} {}", s.sid, t.sig, got.0, got.1);
                }
            }
        }
        // the process
        for p in &ps {
            let over = p.killed.map(|q| v.t(q)).or(p.exit.map(|e| v.t(e.0)));
            let excused = p.docker && unspawned(&|x: &str| x.contains("docker kill"));
            if !excused && over.map(|o| o > due + kill + SLACK_NS).unwrap_or(true) {
                viol!(
                    out,
                    "not-killed",
                    "the command of step {} was to be stopped by {:.3} ms ({}), but {}",
                    s.sid,
                    (due + kill) as f64 / 1e6,
                    t.sig,
                    match over {
                        Some(o) => format!("ran until {:.3} ms", o as f64 / 1e6),
                        None => "is still running".to_string(),
                    }
                );
            }
        }
        // and promptly
        let latest = covered_until(v, s, due + kill + SLACK_NS) + SLACK_NS;
        if let Some(x) = s.terminal(v) {
            if v.t(x) > latest {
                viol!(
                    out,
                    "not-prompt",
                    "step {} was told to {} at {:.3} ms but ended only at {:.3} ms",
                    s.sid,
                    t.sig,
                    due as f64 / 1e6,
                    v.t(x) as f64 / 1e6
                );
            }
        }
    }
}

// ---- files --------------------------------------------------------------------------------------

pub fn c19(v: &View, out: &mut Viols) {
    unfinished(v, out);
    let loc = scan(v);
    let Some(fs) = &v.out.fs else { return };
    if !fs.escapes.is_empty() {
        viol!(out, "escaped", "outside the working directory: {:?}", &fs.escapes[..fs.escapes.len().min(3)]);
    }
    let quiet = fs.injected.is_empty();
    if let Some(w) = v.sc.wfs.iter().find(|w| crate::local::clash(w).is_some()) {
        let dir = format!("work/{}", crate::local::clash(w).unwrap());
        let gone: Vec<String> = crate::local::decoys(v.sc)
            .into_iter()
            .map(|d| format!("work/{}", d))
            .filter(|p| v.out.fs_end.left.get(p).map(|c| c != "decoy").unwrap_or(true))
            .collect();
        for p in gone {
            let sig = if p.starts_with(&dir) { "layout-clash" } else { "others-disturbed" };
            viol!(out, sig, "workflow {} removed {}, which belonged to nobody in this run", w.id, p);
        }
        return;
    }
    type Possible = BTreeSet<Option<String>>;
    for inst in &v.insts {
        let again = v.insts.iter().any(|i| i.w != inst.w && i.id == inst.id && i.begin < inst.begin);
        for job in &inst.jobs {
            let mut files: BTreeMap<String, Possible> = BTreeMap::new();
            // written by the step that runs, with what was there before
            let mut open: Option<(&str, BTreeMap<String, Possible>)> = None;
            let tags: HashMap<&str, &StepF> = job.steps.iter().map(|s| (s.spec.tag.as_str(), s)).collect();
            let mut killed: HashSet<u32> = HashSet::new();
            for r in v.recs.iter().filter(|r| r.seq > inst.begin && r.seq < inst.lim) {
                let Ev::Proc { pid, what, detail } = &r.ev else { continue };
                if what == "killed" {
                    killed.insert(*pid);
                }
                let Some(tag) = detail["tag"].as_str().filter(|t| tags.contains_key(t)) else { continue };
                if open.as_ref().map(|o| o.0 != tag).unwrap_or(true) {
                    if let Some((t, before)) = open.take() {
                        if tags[t].state() != "succeeded" {
                            for (f, b) in before {
                                let e = files.entry(f).or_default();
                                e.extend(b);
                                e.insert(None);
                            }
                        }
                    }
                    open = Some((tag, BTreeMap::new()));
                }
                let Some(file) = detail["file"].as_str() else { continue };
                let none = || -> Possible { [None].into_iter().collect() };
                match what.as_str() {
                    "write" if detail["op"].as_str().map(|o| o.starts_with("Write")).unwrap_or(false) => {
                        if detail["ok"] == true {
                            let old = files.get(file).cloned().unwrap_or_else(none);
                            open.as_mut().unwrap().1.entry(file.to_string()).or_insert(old);
                            files.insert(file.to_string(), [Some(format!("<{}>", tag))].into_iter().collect());
                        } else if quiet && told(v, inst, &tags[tag].sid).sig == "none" {
                            viol!(out, "workspace-gone", "step {} cannot write {} into its working directory", tags[tag].sid, file);
                        }
                    }
                    "read" => {
                        let got = detail["content"].as_str().map(|s| s.to_string());
                        let may = files.get(file).cloned().unwrap_or_else(none);
                        let own = got.as_ref().map(|g| tags.keys().any(|t| *g == format!("<{}>", t))).unwrap_or(true);
                        if !own {
                            viol!(out, "foreign-file", "step {} sees {:?} in {}, which is not its job's", tags[tag].sid, got, file);
                        } else if killed.contains(pid) {
                            // its step has been ended by force, and its workflow may have gone
                            // before the container does
                        } else if !may.contains(&got) && (quiet || !again) {
                            viol!(
                                out,
                                if got.is_none() { "file-lost" } else { "stale-file" },
                                "step {} reads {:?} from {}; earlier steps of its job left {:?}",
                                tags[tag].sid,
                                got,
                                file,
                                may
                            );
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    // what a workflow leaves behind
    for r in v.recs {
        if let Ev::Local { what, id, detail, .. } = &r.ev {
            if what == "wf-cleaned" && quiet {
                let left: Vec<&str> = detail.as_array().map(|a| a.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
                if !left.is_empty() {
                    viol!(out, "not-cleaned", "workflow {} has completed but {:?} is left", id, &left[..left.len().min(4)]);
                }
            }
        }
    }
    let left = &v.out.fs_end.left;
    if quiet {
        let ids: HashSet<&str> = v.insts.iter().filter(|i| v.insts.iter().filter(|k| k.id == i.id).all(|k| k.end.is_some())).map(|i| i.id.as_str()).collect();
        let over: Vec<&String> = left.keys().filter(|p| p.starts_with("work/") && !p.contains("caches/") && p.split('/').any(|x| ids.contains(x))).collect();
        if !over.is_empty() {
            viol!(out, "not-cleaned", "after everything has completed {:?} is left", &over[..over.len().min(4)]);
        }
    }
    // what belongs to others
    if left.get("victim/keep").map(|c| c != "outside").unwrap_or(true) {
        viol!(out, "escaped", "a file outside the working directory was removed or changed");
    }
    if v.sc.local.decoys {
        for d in crate::local::decoys(v.sc) {
            let p = format!("work/{}", d);
            if left.get(&p).map(|c| c != "decoy").unwrap_or(true) {
                viol!(out, "others-disturbed", "{} belonged to nobody in this run and is now {:?}", p, left.get(&p));
            }
        }
    }
    // caches
    let mut caches: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for r in v.recs {
        let Ev::Proc { pid, what, detail } = &r.ev else { continue };
        if what != "write" || detail["ok"] != true || !detail["op"].as_str().map(|o| o.starts_with("Cache")).unwrap_or(false) {
            continue;
        }
        let Some(p) = loc.procs.iter().find(|p| p.pid == *pid) else { continue };
        let host = p.det["volumes"]
            .as_array()
            .into_iter()
            .flatten()
            .filter_map(|x| x.as_str())
            .filter_map(|x| x.split_once(':'))
            .find(|x| x.1 == "/home/work/caches")
            .map(|x| x.0);
        if let (Some(h), Some(f), Some(t)) = (host, detail["file"].as_str(), detail["tag"].as_str()) {
            if let Ok(rel) = std::path::Path::new(h).strip_prefix(&fs.scratch) {
                caches.entry(format!("{}/{}", rel.display(), f)).or_default().insert(format!("<{}>", t));
            }
        }
    }
    for (p, tags) in caches {
        if !left.get(&p).map(|c| tags.contains(c)).unwrap_or(false) {
            viol!(out, "cache-lost", "the cached file {} is gone (or changed: {:?})", p, left.get(&p));
        }
    }
}

// ---- surroundings -----------------------------------------------------------------------------

/// The variables of a step as a process sees them.
fn variables(step: &Value) -> BTreeMap<String, String> {
    let m = step["environments"].as_object();
    m.into_iter()
        .flatten()
        .map(|(k, v)| {
            let v = match v {
                Value::String(s) => s.clone(),
                Value::Number(n) => format!("{}", n.as_f64().unwrap_or(f64::NAN)),
                x => x.to_string(),
            };
            (k.clone(), v)
        })
        .collect()
}
fn strings(v: &Value) -> Vec<String> {
    let mut x: Vec<String> = v.as_array().into_iter().flatten().filter_map(|s| s.as_str()).map(|s| s.to_string()).collect();
    x.sort();
    x
}

pub fn c25(v: &View, out: &mut Viols) {
    unfinished(v, out);
    let loc = scan(v);
    let Some(fs) = &v.out.fs else { return };
    let scratch = fs.scratch.to_string_lossy().to_string();
    for (inst, job, s) in v.steps() {
        if !s.ran() || !s.rets.iter().any(|r| r.1) {
            continue;
        }
        // through the hooks of the runner's plugins
        let mut cur = s.spec.expected(&s.sid, job.spec);
        let mut whole = true;
        for k in 0..v.sc.local.plugins.len() {
            let of = |kind: &str| {
                v.recs.iter().filter(|r| r.seq > inst.begin && r.seq < inst.lim).find_map(|r| match &r.ev {
                    Ev::Local { site, what, id, detail } if *site == k && what == kind && *id == s.sid => Some(detail),
                    _ => None,
                })
            };
            match of("before") {
                Some(got) => {
                    if !same_step(got, &cur) {
                        viol!(out, "hook-input", "step {}: the before-run hook of plugin {} received {} instead of {}", s.sid, k, got, cur);
                        whole = false;
                        break;
                    }
                }
                None => whole = false,
            }
            if let Some(new) = of("edited") {
                cur = new.clone();
            }
        }
        if !whole {
            continue;
        }
        let ps = loc.of(inst, &s.spec.tag);
        let image = cur["container"]["name"].as_str();
        let host = matches!(image, Some("host/linux" | "host/linux-x86_64"));
        let run = cur["run"].as_str().unwrap_or("");
        let undisturbed = v.sc.local.fs_p == 0 && v.sc.local.spawn_p == 0;
        if ps.is_empty() && undisturbed && told(v, inst, &s.sid).sig == "none" && s.step_done(v).is_some() {
            viol!(out, "not-started", "nothing was started for step {}, {}", s.sid, cur);
        }
        for p in &ps {
            if p.docker == host {
                viol!(out, "kind", "step {} was run {} although its image is {:?}", s.sid, if host { "in a container" } else { "on the host" }, image);
                continue;
            }
            let want = variables(&cur);
            let got: BTreeMap<String, String> =
                p.det["envs"].as_object().into_iter().flatten().map(|(k, x)| (k.clone(), x.as_str().unwrap_or("").to_string())).collect();
            if got != want {
                viol!(out, "environment", "step {}: its process has the variables {:?} instead of {:?}", s.sid, got, want);
            }
            if host {
                if p.det["text"].as_str() != Some(run) {
                    viol!(out, "command", "step {}: {} is executed instead of {:?}", s.sid, p.det["text"], run);
                }
                continue;
            }
            if p.det["more"] == true || p.det["command"].as_array().is_some_and(|a| !a.is_empty()) {
                viol!(out, "shell", "step {}: the shell that starts docker does more than that: {}", s.sid, p.det);
                continue;
            }
            let text = p.det["content"].as_str().unwrap_or("");
            if text != run && text != format!("#!/bin/sh\n{}", run) {
                viol!(out, "command", "step {}: the container executes {:?} instead of {:?}", s.sid, text, run);
            }
            if p.det["image"].as_str() != Some(image.unwrap_or("ubuntu")) {
                viol!(out, "image", "step {}: the container is made from {} instead of {:?}", s.sid, p.det["image"], image);
            }
            let (mine, theirs): (Vec<String>, Vec<String>) = strings(&p.det["volumes"]).into_iter().partition(|x| x.starts_with(&scratch));
            if theirs != strings(&cur["container"]["volumes"]) {
                viol!(out, "volumes", "step {}: the container has the volumes {:?} instead of {}", s.sid, theirs, cur["container"]["volumes"]);
            }
            if strings(&p.det["opts"]) != strings(&cur["container"]["security-opts"]) {
                viol!(out, "options", "step {}: the container has the security options {} instead of {}", s.sid, p.det["opts"], cur["container"]);
            }
            let dir = p.det["dir"].as_str().unwrap_or("");
            if !mine.iter().any(|m| m.ends_with(&format!(":{}", dir))) {
                viol!(out, "directory", "step {}: the container works in {:?}, which is none of {:?}", s.sid, dir, mine);
            }
        }
    }
}
