//! Properties of single components.
use super::*;
use crate::micro::*;
use crate::viol;

fn notes(out: &RunOut) -> Vec<(usize, u64, &str, &Value)> {
    out.recs
        .iter()
        .filter_map(|r| match &r.ev {
            Ev::Note { what, detail } => Some((r.seq, r.t, what.as_str(), detail)),
            _ => None,
        })
        .collect()
}
fn s<'a>(d: &'a Value, k: &str) -> &'a str {
    d[k].as_str().unwrap_or("")
}

pub fn c09(sc: &Scenario, o: &RunOut, out: &mut Viols) {
    let n = notes(o);
    let code = format!("failed:{}", engine::timeout_code());
    let res = |d: &Value| -> String {
        let r = s(d, "res").to_string();
        if r == "timeout" {
            code.clone()
        } else {
            r
        }
    };
    let eos: Vec<_> = n.iter().filter(|x| x.2 == "eos").collect();
    let ends: Vec<_> = n.iter().filter(|x| x.2 == "end").collect();
    let ended = |k: &Value, m: &Value| n.iter().find(|x| x.2 == "ended" && x.3["k"] == *k && x.3["n"] == *m).map(|x| x.0);
    if let Some(f) = &o.sum.fatal {
        if f.contains("deadlock") {
            viol!(out, "deadlock", "{}", f);
            return;
        }
    }
    if o.hung || eos.is_empty() {
        viol!(out, "consumer-stuck", "the consumer still waits although the stream has ended ({} end calls, {} lines received)", ends.len(), n.iter().filter(|x| x.2 == "got").count());
        return;
    }
    let first_returned = ends.iter().filter_map(|e| ended(&e.3["k"], &e.3["n"])).min().unwrap_or(usize::MAX);
    let first_called = ends.iter().map(|e| e.0).min().unwrap_or(usize::MAX);
    // lines
    let got: Vec<(&str, bool, usize)> = n.iter().filter(|x| x.2 == "got").map(|x| (s(x.3, "m"), x.3["err"] == true, x.0)).collect();
    let mut seen: HashMap<&str, usize> = HashMap::new();
    for (m, ..) in &got {
        *seen.entry(m).or_default() += 1;
    }
    for (m, c) in &seen {
        if *c > 1 {
            viol!(out, "line-twice", "line {} was received {} times", m, c);
        }
    }
    for x in n.iter().filter(|x| x.2 == "log") {
        let m = s(x.3, "m");
        let returned = n.iter().find(|y| y.2 == "logged" && s(y.3, "m") == m).map(|y| y.0).unwrap_or(usize::MAX);
        match got.iter().find(|g| g.0 == m) {
            None if returned < first_called => viol!(out, "line-lost", "line {} was sent before the end but never received", m),
            Some(g) if g.1 != (x.3["err"] == true) => viol!(out, "line-kind", "line {} changed its kind", m),
            _ => {}
        }
    }
    for (m, ..) in &got {
        if !n.iter().any(|x| x.2 == "log" && s(x.3, "m") == *m) {
            viol!(out, "line-invented", "line {:?} was never sent", m);
        }
    }
    let mut last: HashMap<&str, u64> = HashMap::new();
    for (m, ..) in &got {
        let (k, i) = m.split_once(':').unwrap_or((m, "0"));
        let i: u64 = i.parse().unwrap_or(0);
        if let Some(p) = last.get(k) {
            if *p > i {
                viol!(out, "line-order", "line {} was received after {}:{}", m, k, p);
            }
        }
        last.insert(k, i);
    }
    // nothing comes after the end of the stream, and nothing is pending then
    if let Some(e) = eos.first() {
        if got.iter().any(|g| g.2 > e.0) {
            viol!(out, "line-after-end", "a line was received after the end of the stream");
        }
        if e.0 < first_called {
            viol!(out, "end-too-early", "the stream ended before anyone ended it");
        }
    }
    // a line or the end wakes a waiting consumer at once
    if let Some(crate::micro::MicroSpec::Stream(st)) = &sc.micro {
        let slack = (st.pauses.iter().sum::<u64>() + 1) * 1_000_000;
        for x in n.iter().filter(|x| x.2 == "logged") {
            if let Some(g) = n.iter().find(|g| g.2 == "got" && g.3["m"] == x.3["m"]) {
                if g.1 > x.1 + slack {
                    viol!(out, "line-late", "line {} reached the waiting consumer {:.3} ms after it was sent", s(x.3, "m"), (g.1 - x.1) as f64 / 1e6);
                    break;
                }
            }
        }
        if let (Some(e), Some(x)) = (eos.first(), n.iter().find(|x| x.2 == "ended")) {
            if e.1 > x.1 + slack {
                viol!(out, "end-late", "the end reached the waiting consumer {:.3} ms after it was sent", (e.1 - x.1) as f64 / 1e6);
            }
        }
    }
    // the result
    let mut results: Vec<String> = vec![];
    for e in &eos {
        match e.3["res"].as_str() {
            None => viol!(out, "no-result", "the stream has ended but has no result"),
            Some(r) => results.push(r.to_string()),
        }
    }
    for g in n.iter().filter(|x| x.2 == "got") {
        if let Some(r) = g.3["res"].as_str() {
            results.push(r.to_string());
        }
    }
    if results.windows(2).any(|w| w[0] != w[1]) {
        viol!(out, "result-changed", "the result changed: {:?}", results);
    } else if let Some(r) = results.first() {
        // an end call that may have been the first: none returned before it was made
        let may: Vec<String> = ends
            .iter()
            .filter(|e| !ends.iter().any(|f| ended(&f.3["k"], &f.3["n"]).map(|q| q < e.0).unwrap_or(false)))
            .map(|e| res(e.3))
            .collect();
        if !may.contains(r) {
            viol!(out, "wrong-result", "the result is {}, the first end call reported {:?}", r, may);
        }
    }
    for x in n.iter().filter(|x| x.2 == "ended") {
        if x.3["is_ended"] != true {
            viol!(out, "not-ended", "the stream is not ended after an end call has returned");
        }
    }
    for x in n.iter().filter(|x| x.2 == "looked") {
        let call = x.3["call"].as_u64().unwrap_or(0) as usize;
        if x.3["r"] == true && x.0 < first_called {
            viol!(out, "ended-early", "the stream is ended before any end call");
        }
        if x.3["r"] == false && call > first_returned {
            viol!(out, "not-ended", "the stream is not ended after an end call has returned");
        }
    }
}

pub fn c10(_sc: &Scenario, o: &RunOut, out: &mut Viols) {
    let n = notes(o);
    if let Some(f) = &o.sum.fatal {
        if f.contains("deadlock") {
            viol!(out, "deadlock", "{}", f);
            return;
        }
    }
    let reqs: Vec<_> = n.iter().filter(|x| x.2 == "req").collect();
    let rets: Vec<_> = n.iter().filter(|x| x.2 == "res").collect();
    let ret = |k: &Value| rets.iter().find(|x| x.3["k"] == *k);
    let ok: Vec<_> = reqs.iter().filter(|r| ret(&r.3["k"]).map(|x| x.3["ok"] == true).unwrap_or(false)).collect();
    if rets.len() == reqs.len() && ok.len() != 1 {
        viol!(out, "accepted", "{} of {} requests were accepted", ok.len(), reqs.len());
        return;
    }
    let Some(acc) = ok.first() else { return };
    let kind = s(acc.3, "kind");
    let acc_ret = ret(&acc.3["k"]).map(|x| x.0).unwrap_or(usize::MAX);
    // a request that returned before another began is the one accepted
    for r in &reqs {
        if let Some(q) = ret(&r.3["k"]) {
            if q.0 < acc.0 {
                viol!(out, "late-accepted", "a request was rejected although none had been accepted");
            }
        }
    }
    let got: Vec<_> = n.iter().filter(|x| x.2 == "got").collect();
    if got.len() > 1 {
        viol!(out, "received-twice", "the signal was received {} times", got.len());
    }
    match got.first() {
        None => viol!(out, "never-received", "the receiver was never woken (accepted: {})", kind),
        Some(g) => {
            if g.3.as_str() != Some(kind) {
                viol!(out, "wrong-kind", "accepted {}, received {}", kind, g.3);
            }
            // promptly: once accepted and waited for
            let wait = n.iter().find(|x| x.2 == "wait").map(|x| x.1).unwrap_or(0);
            let at = rets.iter().find(|x| x.3["k"] == acc.3["k"]).map(|x| x.1).unwrap_or(0);
            let slack = 1_000_000;
            if g.1 > wait.max(at) + slack {
                viol!(out, "received-late", "the signal was accepted at {} ns and waited for from {} ns but received at {} ns", at, wait, g.1);
            }
        }
    }
    for x in n.iter().filter(|x| x.2 == "looked") {
        let call = x.3["call"].as_u64().unwrap_or(0) as usize;
        let same = s(x.3, "kind") == kind;
        if x.3["r"] == true && (!same || x.0 < acc.0) {
            viol!(out, "status", "is_{} was true ({} was accepted)", s(x.3, "kind"), kind);
        }
        if x.3["r"] == false && same && call > acc_ret {
            viol!(out, "status", "is_{} was false after it had been accepted", kind);
        }
    }
    if o.hung && got.len() == 1 {
        viol!(out, "stuck", "the run did not end");
    }
}

/// What kind of runner a step needs.
pub fn capable(r: &RunnerSpec, cont: Option<&str>) -> bool {
    match cont {
        Some(c) if c.starts_with("host/") => {
            let want = &c["host/".len()..];
            // "os" or "os-arch"
            r.host && (want == r.os || want == format!("{}-{}", r.os, r.arch))
        }
        _ => r.docker,
    }
}
/// "host" without a platform that can be read as one.
pub fn odd(cont: Option<&str>) -> bool {
    match cont {
        Some(c) => c == "host" || c.starts_with("host/") && {
            let w = &c["host/".len()..];
            w.is_empty() || w.ends_with('-') || w.starts_with('-')
        },
        None => false,
    }
}

pub fn c15(sc: &Scenario, o: &RunOut, out: &mut Viols) {
    let Some(MicroSpec::Sched(spec)) = &sc.micro else { return };
    let n = notes(o);
    if let Some(f) = &o.sum.fatal {
        if f.contains("deadlock") {
            viol!(out, "deadlock", "{}", f);
            return;
        }
    }
    if o.hung {
        viol!(out, "stuck", "the scheduler never answered");
        return;
    }
    let runner = |id: &str| spec.runners.iter().find(|r| r.id == id);
    // in progress per runner, by what the calls returned
    let mut load: BTreeMap<String, i64> = BTreeMap::new();
    let mut where_: HashMap<String, String> = HashMap::new();
    // the last runner of each job's docker steps
    let mut tied: HashMap<String, String> = HashMap::new();
    let mut ask: HashMap<String, (Option<String>, Vec<String>, usize)> = HashMap::new();
    for (k, (seq, _, what, d)) in n.iter().enumerate() {
        match *what {
            "ask" => {
                let rs = d["runners"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
                ask.insert(s(d, "id").into(), (d["cont"].as_str().map(|x| x.to_string()), rs, *seq));
            }
            "choice" => {
                let id = s(d, "id");
                let Some((cont, avail, _)) = ask.get(id) else { continue };
                let able: Vec<&String> = avail.iter().filter(|r| runner(r).map(|r| capable(r, cont.as_deref())).unwrap_or(false)).collect();
                match d["choice"].as_str() {
                    None => {
                        if !able.is_empty() {
                            viol!(out, "not-scheduled", "step {} ({:?}) got no runner although {:?} can run it", id, cont, able);
                        }
                    }
                    Some(c) => {
                        if !avail.iter().any(|r| r == c) {
                            viol!(out, "unavailable-runner", "step {} was given to {}, which is not connected", id, c);
                        } else if !able.iter().any(|r| *r == c) && !odd(cont.as_deref()) {
                            viol!(out, "incapable-runner", "step {} ({:?}) was given to {}, which cannot run it", id, cont, c);
                        }
                        let docker = !cont.as_deref().map(|c| c.starts_with("host/")).unwrap_or(false);
                        let job = s(d, "job").to_string();
                        if docker {
                            match tied.get(&job) {
                                Some(t) if avail.contains(t) => {
                                    if t != c {
                                        viol!(out, "job-moved", "step {} was given to {} although its job runs on {}", id, c, t);
                                    }
                                }
                                Some(_) => {}
                                None if !sc.mt => {
                                    // a choice is made at one moment: compare with the loads then
                                    let mine = load.get(c).copied().unwrap_or(0);
                                    if let Some(b) = able.iter().find(|b| load.get(**b).copied().unwrap_or(0) < mine) {
                                        viol!(
                                            out,
                                            "not-least-loaded",
                                            "step {} was given to {} with {} steps in progress, {} has {}",
                                            id,
                                            c,
                                            mine,
                                            b,
                                            load.get(*b).copied().unwrap_or(0)
                                        );
                                    }
                                }
                                None => {}
                            }
                            tied.insert(job, c.to_string());
                        }
                        *load.entry(c.to_string()).or_default() += 1;
                        where_.insert(id.to_string(), c.to_string());
                    }
                }
                let _ = k;
            }
            "done" => {
                if let Some(r) = where_.remove(s(d, "id")) {
                    *load.entry(r).or_default() -= 1;
                }
            }
            _ => {}
        }
    }
    probes(&n.iter().map(|x| (x.2, x.3)).collect::<Vec<_>>(), spec.runners.iter().filter(|r| r.docker).count(), out);
}

pub fn probes(n: &[(&str, &Value)], docker: usize, out: &mut Viols) {
    for (what, d) in n {
        match *what {
            "probe-balance" => {
                let c: Vec<(String, u64)> =
                    d.as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect()).unwrap_or_default();
                if c.len() != docker || c.iter().any(|x| x.1 != 3) {
                    viol!(out, "load-left", "all work is done, but {} new steps were spread over {} idle runners as {}", docker * 3, docker, d);
                }
            }
            "probe-tie" => {
                if d["choice"] != d["free"] {
                    viol!(out, "job-left-tied", "all work is done, but job {} is still tied to {} (the idle runner is {})", d["job"], d["choice"], d["free"]);
                }
            }
            _ => {}
        }
    }
}
