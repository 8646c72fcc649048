//! Workers: batches of simulated runs with what they covered.
use crate::hist::*;
use crate::oracle::{self, View};
use crate::rt::{self, RunOut};
use crate::scen::*;
use crate::gen;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

/// Properties for which a run that never comes to an end is a violation.
pub const LIVENESS: &[&str] = &["C02", "C09", "C10", "C12", "C15", "C17", "C18", "C20"];

/// Why this run says nothing (None: it can be judged).
pub fn inconclusive(prop: &str, o: &RunOut) -> Option<String> {
    let f = o.sum.fatal.as_ref()?;
    if f.starts_with("harness") {
        return Some(f.clone());
    }
    if LIVENESS.contains(&prop) {
        return None;
    }
    Some(f.clone())
}

/// Situations this run reached, and whether the property had anything to say in it.
fn worth(prop: &str, sc: &Scenario, out: &RunOut) -> (bool, Vec<&'static str>) {
    let mut c: Vec<&'static str> = vec![];
    if sc.world == World::Micro {
        let n = |k: &str| out.recs.iter().filter(|r| matches!(&r.ev, Ev::Note { what, .. } if what == k)).count();
        let worth = match prop {
            "C09" => n("log") + n("end") > 1,
            "C10" => n("req") > 0 || out.recs.len() > 2,
            _ => out.recs.len() > 2,
        };
        if n("end") > 1 {
            c.push("several end calls");
        }
        if out.preemptions > 0 {
            c.push("pre-empted inside the component");
        }
        c.push("component world");
        return (worth, c);
    }
    let v = View::new(sc, out);
    let mut add = |b: bool, k: &'static str| {
        if b && !c.contains(&k) {
            c.push(k)
        }
    };
    add(sc.world == World::Engine, "engine world");
    add(sc.world == World::Remote, "remote world");
    add(sc.world == World::Local, "local world");
    let (mut logs, mut hookerr, mut sched, mut api, mut proc, mut reads, mut killed) = (0, 0, 0, 0, 0, 0, 0);
    for r in &out.recs {
        match &r.ev {
            Ev::Hook { h: H::Log { .. }, .. } => logs += 1,
            Ev::Exit { failed: true, .. } => hookerr += 1,
            Ev::Sched { .. } => sched += 1,
            Ev::Api { .. } => api += 1,
            Ev::Proc { what, .. } => match what.as_str() {
                "start" => proc += 1,
                "read" => reads += 1,
                "killed" => killed += 1,
                _ => {}
            },
            _ => {}
        }
    }
    let cancelled = v.cancels.iter().any(|c| c.ok);
    let refused = v.cancels.iter().any(|c| !c.ok);
    let sig = |k: &str| out.recs.iter().any(|r| matches!(&r.ev, Ev::Sig { kind, .. } if kind == k) || matches!(&r.ev, Ev::Local { what, detail, .. } if what == "sig-at-done" && detail == k));
    let (sc_, st_) = (sig("cancel"), sig("timeout"));
    add(cancelled, "cancel accepted");
    add(refused, "cancel rejected");
    add(sc_, "cancel signal received");
    add(st_, "timeout signal received");
    add(hookerr > 0, "hook failed");
    add(logs > 200, "more than 200 log deliveries");
    let faults = out.recs.iter().filter(|r| matches!(r.ev, Ev::Fault { .. })).count();
    add(faults > 0, "network or process fault");
    let mut in_flight = false;
    for r in &out.recs {
        if matches!(r.ev, Ev::Fault { .. }) {
            in_flight |= v.steps().any(|(_, _, s)| s.runs.first().map(|q| *q < r.seq).unwrap_or(false) && s.terminal(&v).map(|q| q > r.seq).unwrap_or(true));
        }
    }
    add(in_flight, "fault while a step was in flight");
    let states: Vec<&str> = v.steps().map(|(_, _, s)| s.state()).collect();
    add(states.contains(&"failed"), "step failed");
    add(states.contains(&"cancelled"), "step cancelled");
    add(states.contains(&"skipped"), "step skipped");
    let deps = sc.wfs.iter().any(|w| w.jobs.iter().any(|j| !j.depends.is_empty()));
    add(deps, "job dependencies");
    add(v.ambiguous(), "not judged: a cancel call spans two runs of a workflow");
    let bad = out.recs.iter().any(|r| matches!(r.ev, Ev::Built { ok: false, .. }));
    add(bad, "workflow rejected");
    let spans: Vec<(usize, usize)> = v.insts.iter().map(|i| (i.begin, i.end.unwrap_or(usize::MAX))).collect();
    let overlap = spans.iter().enumerate().any(|(i, a)| spans[i + 1..].iter().any(|b| a.0 < b.1 && b.0 < a.1));
    add(overlap, "workflows overlapped");
    let rerun = v.insts.iter().enumerate().any(|(i, a)| v.insts[..i].iter().any(|b| b.id == a.id));
    add(rerun, "workflow run again");
    add(out.preemptions > 0, "pre-empted inside the library");
    add(out.hung, "did not end");
    add(out.fs.as_ref().map(|f| !f.injected.is_empty()).unwrap_or(false), "file-system error injected");
    add(killed > 0, "process killed");
    add(!out.panics.is_empty(), "a task panicked");
    let ran = v.steps().any(|(_, _, s)| s.ran());
    let multi = sc.wfs.iter().any(|w| w.jobs.iter().any(|j| j.resolved().len() > 1));
    let conds = sc.wfs.iter().any(|w| {
        w.on.is_some() || w.jobs.iter().any(|j| j.on.is_some() || j.resolved().iter().any(|s| s.on.is_some()))
    });
    add(conds && api > 0, "condition asked the hosting API");
    let w = match prop {
        "C01" => deps && ran,
        "C02" => bad || deps,
        "C03" => multi && ran,
        "C04" => states.iter().any(|s| *s != "succeeded") && ran,
        "C05" => v.eng.len() > 1 && ran,
        "C06" => logs > 0,
        "C07" => st_ || logs > 0 && ran,
        "C08" => cancelled || refused,
        "C11" => logs > 0 && ran,
        "C12" => faults > 0,
        "C13" => out.recs.iter().any(|r| matches!(&r.ev, Ev::Hook { o, .. } if out.obs[*o].site > 0)),
        "C14" => sc_ || st_,
        "C15" => sched > 0,
        "C16" => proc > 0,
        "C17" => ran,
        "C18" => sc_ || st_,
        "C19" => reads > 0 || sc.local.decoys,
        "C20" => conds,
        "C21" => overlap || rerun,
        "C22" => sc.plugins.iter().any(|p| !p.before.is_empty()) || !sc.runner.before.is_empty() || sc.servers.iter().any(|s| !s.runner.before.is_empty()),
        "C23" => ran,
        "C25" => proc > 0,
        _ => ran,
    };
    (w, c)
}

fn brief(sc: &Scenario, seed: u64, o: &RunOut) -> serde_json::Value {
    let mut sum = vec![];
    for w in &sc.wfs {
        let jobs: Vec<String> = w
            .jobs
            .iter()
            .map(|j| format!("{}{}: {} steps", j.key, if j.depends.is_empty() { String::new() } else { format!(" (after {})", j.depends.join(",")) }, j.resolved().len()))
            .collect();
        sum.push(format!("{}{}: {}", w.id, if w.after.is_some() { " (again)" } else { "" }, jobs.join("; ")));
    }
    json!({
        "seed": seed,
        "world": format!("{:?}", sc.world),
        "workflows": sum,
        "plugins": sc.plugins.len(),
        "servers": sc.servers.len(),
        "controls": sc.controls.iter().map(|c| serde_json::to_string(c).unwrap()).collect::<Vec<_>>(),
        "component": sc.micro.as_ref().map(|m| serde_json::to_value(m).unwrap()),
        "pre_emptive": sc.mt,
        "strategy": serde_json::to_value(&sc.strat).unwrap(),
        "decisions": o.sum.decisions,
        "non_default_decisions": o.sum.nondefault,
        "records": o.recs.len(),
        "simulated_ms": o.sum.now.as_millis() as u64,
        "execution": format!("{:016x}", rt::fingerprint(o)),
    })
}

pub fn worker(prop: &str, from: u64, stride: u64, count: u64, secs: Duration, out: &str) {
    let t0 = Instant::now();
    let cur = format!("{}.cur", out);
    let mut runs = 0u64;
    let (mut steps, mut decisions, mut nondefault, mut sim_ns, mut recs, mut preempt, mut max_steps) = (0u64, 0u64, 0u64, 0u128, 0u64, 0u64, 0u64);
    let mut net = (0u64, 0u64, 0u64);
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut incon: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut all: HashSet<u64> = HashSet::new();
    let mut nontrivial = 0u64;
    let mut viols: Vec<serde_json::Value> = vec![];
    let mut samples = vec![];
    let mut fsops = 0u64;
    let known: Vec<String> = std::env::var("ASTROSIM_KNOWN").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let mut knowns = 0;
    for k in 0..count {
        if t0.elapsed() > secs {
            break;
        }
        let seed = from + k * stride;
        let _ = std::fs::write(&cur, seed.to_string());
        let sc = gen::scenario(prop, seed);
        let o = rt::execute(&sc, seed, None);
        runs += 1;
        steps += o.sum.steps;
        max_steps = max_steps.max(o.sum.steps);
        decisions += o.sum.decisions;
        nondefault += o.sum.nondefault;
        sim_ns += o.sum.now.as_nanos();
        recs += o.recs.len() as u64;
        preempt += o.preemptions;
        net = (net.0 + o.net.0, net.1 + o.net.1, net.2 + o.net.2);
        for (f, n) in &o.sum.faults {
            *faults.entry(f.clone()).or_default() += n;
        }
        if let Some(f) = &o.fs {
            fsops += f.ops;
        }
        if let Some(why) = inconclusive(prop, &o) {
            incon.entry(why).or_default().push(seed);
            continue;
        }
        let (w, cl) = worth(prop, &sc, &o);
        let sh = rt::shape(&o);
        all.insert(sh);
        if w {
            nontrivial += 1;
            shapes.insert(sh);
            if samples.len() < 2 && (samples.is_empty() || k % 97 == 96) {
                samples.push(brief(&sc, seed, &o));
            }
        }
        for x in cl {
            *classes.entry(x).or_default() += 1;
        }
        let mut seen: Vec<String> = vec![];
        for v in oracle::check(prop, &sc, &o) {
            if seen.contains(&v.sig) {
                continue;
            }
            seen.push(v.sig.clone());
            if known.iter().any(|k| *k == v.sig) {
                // a listed finding: some examples of it, and it does not end the search
                let n = viols.iter().filter(|x| x["sig"] == v.sig.as_str()).count();
                if n < 6 {
                    knowns += 1;
                    viols.push(json!({"seed": seed, "sig": v.sig, "msg": v.msg}));
                }
            } else if viols.len() < 200 {
                viols.push(json!({"seed": seed, "sig": v.sig, "msg": v.msg}));
            }
        }
        if viols.len() - knowns >= 12 && std::env::var("ASTROSIM_GOON").is_err() {
            break;
        }
    }
    let bin: Vec<u8> = shapes.iter().flat_map(|h| h.to_le_bytes()).collect();
    let _ = std::fs::write(format!("{}.shapes", out), bin);
    let bin: Vec<u8> = all.iter().flat_map(|h| h.to_le_bytes()).collect();
    let _ = std::fs::write(format!("{}.all", out), bin);
    let r = json!({
        "runs": runs, "steps": steps, "max_steps": max_steps, "decisions": decisions, "nondefault": nondefault, "sim_s": sim_ns as f64 / 1e9,
        "records": recs, "preemptions": preempt, "net": [net.0, net.1, net.2], "faults": faults, "classes": classes, "inconclusive": incon,
        "nontrivial": nontrivial, "violations": viols, "samples": samples, "fs_ops": fsops, "wall_s": t0.elapsed().as_secs_f64(),
    });
    let _ = std::fs::remove_file(&cur);
    std::fs::write(out, serde_json::to_string(&r).unwrap()).expect("output");
}
