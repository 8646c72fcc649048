//! Minimisation of a failing run, and its replay.
use crate::scen::*;
use crate::{gen, oracle, rt};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::Trace;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub sig: String,
    pub msg: String,
    /// the run in which the violation was found
    pub found_seed: u64,
    /// entropy of the replayed run (hash seeds); every scheduling, delay and fault decision that is
    /// not the default is in `trace`
    pub seed: u64,
    pub trace: Trace,
    pub fingerprint: String,
    pub records: usize,
    pub how: String,
    pub scenario: Scenario,
}

struct Best {
    sc: Scenario,
    seed: u64,
    trace: Trace,
    msg: String,
}

fn try_run(sc: &Scenario, seed: u64, trace: Option<&Trace>, sig: &str) -> Option<Best> {
    let o = rt::try_execute(sc, seed, trace)?;
    if crate::evid::inconclusive(&sc.prop, &o).is_some() {
        return None;
    }
    let v = oracle::check(&sc.prop, sc, &o).into_iter().find(|v| v.sig == sig)?;
    Some(Best { sc: sc.clone(), seed, trace: o.sum.trace, msg: v.msg })
}

fn valid(sc: &Scenario, orig: &Scenario) -> bool {
    if sc.world == World::Micro {
        return true;
    }
    if sc.world != orig.world || sc.prop != orig.prop || sc.wfs.is_empty() || sc.settle_ms != orig.settle_ms || sc.horizon_ms != orig.horizon_ms {
        return false;
    }
    if sc.world == World::Remote && sc.servers.is_empty() {
        return false;
    }
    for (i, w) in sc.wfs.iter().enumerate() {
        if w.after.map(|a| a >= i).unwrap_or(false) || w.jobs.is_empty() && !orig.wfs.iter().any(|w| w.jobs.is_empty()) {
            return false;
        }
        if !w.satisfiable() && orig.wfs.iter().all(|w| w.satisfiable()) {
            return false;
        }
        // two runs with one id do not overlap, and are of the same workflow
        for o in &sc.wfs[..i] {
            if o.id == w.id && (w.after.map(|a| sc.wfs[a].id != w.id).unwrap_or(true) || o.jobs != w.jobs) {
                return false;
            }
        }
    }
    // the network knows each server's host by its position
    if sc.controls.iter().any(|c| match &c.act {
        Act::Crash { server, .. }
        | Act::Reset { server }
        | Act::Partition { server, .. }
        | Act::Refuse { server, .. }
        | Act::Stall { server, .. } => *server >= sc.servers.len(),
        _ => false,
    }) {
        return false;
    }
    true
}

/// Every way to make a JSON document a little smaller; big cuts first.
fn cuts(v: &Value) -> Vec<Value> {
    fn paths(v: &Value, at: String, out: &mut Vec<(usize, String, Value)>) {
        let size = |v: &Value| v.to_string().len();
        match v {
            Value::Array(a) => {
                if a.len() > 1 {
                    out.push((size(v), at.clone(), Value::Array(vec![])));
                    if a.len() > 3 {
                        out.push((size(v) / 2, at.clone(), Value::Array(a[..a.len() / 2].to_vec())));
                        out.push((size(v) / 2, at.clone(), Value::Array(a[a.len() / 2..].to_vec())));
                    }
                }
                for (i, x) in a.iter().enumerate() {
                    let mut b = a.clone();
                    b.remove(i);
                    out.push((size(x) + 1, at.clone(), Value::Array(b)));
                    paths(x, format!("{}/{}", at, i), out);
                }
            }
            Value::Object(m) => {
                if m.len() == 1 {
                    // an enum: an action may become a plain command
                    if let Some(a) = m.get("Action") {
                        if let Some(r) = a.get("run") {
                            out.push((size(v) / 2, at.clone(), serde_json::json!({"Cmd": r})));
                        }
                    }
                }
                for (k, x) in m {
                    let p = format!("{}/{}", at, k.replace('~', "~0").replace('/', "~1"));
                    if matches!(k.as_str(), "prop" | "world" | "horizon_ms" | "settle_ms" | "capture") {
                        continue;
                    }
                    if !x.is_null() && !matches!(x, Value::Array(_)) {
                        out.push((size(x), p.clone(), Value::Null));
                    }
                    paths(x, p, out);
                }
            }
            Value::Number(n) => {
                if let Some(n) = n.as_u64() {
                    if n > 0 {
                        out.push((3, at.clone(), 0.into()));
                    }
                    if n > 3 {
                        out.push((2, at.clone(), (n / 2).into()));
                        out.push((1, at, 1.into()));
                    }
                }
            }
            Value::Bool(true) => out.push((2, at, false.into())),
            _ => {}
        }
    }
    let mut out = vec![];
    paths(v, String::new(), &mut out);
    out.sort_by(|a, b| b.0.cmp(&a.0));
    out.into_iter()
        .filter_map(|(_, p, x)| {
            let mut w = v.clone();
            *w.pointer_mut(&p)? = x;
            Some(w)
        })
        .collect()
}
/// A job that is gone is nobody's dependency; a server that is gone gets no faults.
fn repaired(mut sc: Scenario, v: &Value, before: &Scenario) -> Scenario {
    let _ = v;
    if before.wfs.iter().all(|w| w.satisfiable()) {
        for w in sc.wfs.iter_mut() {
            let keys: Vec<String> = w.jobs.iter().map(|j| j.key.clone()).collect();
            for j in w.jobs.iter_mut() {
                j.depends.retain(|d| keys.contains(d));
            }
        }
    }
    if sc.wfs.len() < before.wfs.len() {
        // which one went?
        let gone = (0..before.wfs.len()).find(|i| sc.wfs.get(*i).map(|w| w != &before.wfs[*i]).unwrap_or(true)).unwrap_or(0);
        for w in sc.wfs.iter_mut() {
            if let Some(a) = w.after {
                w.after = if a == gone {
                    None
                } else if a > gone {
                    Some(a - 1)
                } else {
                    Some(a)
                };
            }
        }
    }
    // a rerun is of the same workflow
    for i in 0..sc.wfs.len() {
        if let Some(a) = sc.wfs[i].after {
            if a < i && sc.wfs[a].id == sc.wfs[i].id {
                let j = if sc.wfs[a].jobs != before.wfs.get(a).map(|w| w.jobs.clone()).unwrap_or_default() { a } else { i };
                let jobs = sc.wfs[j].jobs.clone();
                sc.wfs[a].jobs = jobs.clone();
                sc.wfs[i].jobs = jobs;
            }
        }
    }
    sc
}

fn count(t: &Trace) -> usize {
    t.values().map(|m| m.len()).sum()
}

pub fn minimise(prop: &str, seed: u64, sig: &str, budget: Duration, out: &str) -> bool {
    let t0 = Instant::now();
    let sc0 = gen::scenario(prop, seed);
    let Some(mut best) = try_run(&sc0, seed, None, sig) else { return false };
    let mut runs = 1u64;
    let before = (serde_json::to_string(&sc0).unwrap().len(), count(&best.trace));
    // scheduling first: the fewer choices, the more stable the rest
    let mut calm = best.sc.clone();
    calm.strat = Strat::calm();
    if let Some(b) = try_run(&calm, seed, Some(&BTreeMap::new()), sig) {
        best = b;
    }
    loop {
        let mut progress = false;
        let v = serde_json::to_value(&best.sc).unwrap();
        let mut seen = std::collections::HashSet::new();
        for c in cuts(&v) {
            if t0.elapsed() > budget {
                break;
            }
            let Ok(sc) = serde_json::from_value::<Scenario>(c) else { continue };
            let sc = repaired(sc, &v, &best.sc);
            if sc == best.sc || !valid(&sc, &sc0) || !seen.insert(serde_json::to_string(&sc).unwrap()) {
                continue;
            }
            let empty = BTreeMap::new();
            let mut found = None;
            for (s, t) in [(best.seed, Some(&empty)), (best.seed, Some(&best.trace)), (best.seed, None), (best.seed + 1, None), (best.seed + 2, None)] {
                if t == Some(&empty) && best.sc.mt && count(&best.trace) > 0 && runs % 3 != 0 {
                    continue;
                }
                runs += 1;
                if let Some(b) = try_run(&sc, s, t, sig) {
                    found = Some(b);
                    break;
                }
                if t0.elapsed() > budget {
                    break;
                }
            }
            if let Some(b) = found {
                best = b;
                progress = true;
                break;
            }
        }
        if !progress || t0.elapsed() > budget {
            break;
        }
    }
    // the decisions: everything that can be the default becomes the default
    let budget = budget + budget / 2;
    let mut flat: Vec<(String, u32, u32)> = best.trace.iter().flat_map(|(k, m)| m.iter().map(move |(i, c)| (k.clone(), *i, *c))).collect();
    let build = |f: &[(String, u32, u32)]| -> Trace {
        let mut t = Trace::new();
        for (k, i, c) in f {
            t.entry(k.clone()).or_default().insert(*i, *c);
        }
        t
    };
    let mut chunk = flat.len().max(1);
    while !flat.is_empty() && t0.elapsed() < budget {
        let mut i = 0;
        let mut any = false;
        while i < flat.len() && t0.elapsed() < budget {
            let mut f = flat.clone();
            f.drain(i..(i + chunk).min(flat.len()));
            runs += 1;
            if let Some(b) = try_run(&best.sc, best.seed, Some(&build(&f)), sig) {
                flat = b.trace.iter().flat_map(|(k, m)| m.iter().map(move |(i, c)| (k.clone(), *i, *c))).collect();
                best = b;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        chunk = if any && chunk == 1 { 1 } else { (chunk / 2).max(1) };
    }
    best.sc.strat = Strat::calm();
    let o = rt::execute(&best.sc, best.seed, Some(&best.trace));
    let Some(v) = oracle::check(prop, &best.sc, &o).into_iter().find(|v| v.sig == sig) else { return false };
    let r = Replay {
        property: prop.into(),
        sig: sig.into(),
        msg: v.msg,
        found_seed: seed,
        seed: best.seed,
        fingerprint: format!("{:016x}", rt::fingerprint(&o)),
        records: o.recs.len(),
        how: format!(
            "minimised with {} runs in {:.1} s: scenario {} -> {} bytes, non-default decisions {} -> {}; replay with: /verif/check replay <this file>",
            runs,
            t0.elapsed().as_secs_f64(),
            before.0,
            serde_json::to_string(&best.sc).unwrap().len(),
            before.1,
            count(&best.trace)
        ),
        trace: best.trace,
        scenario: best.sc,
    };
    std::fs::write(out, serde_json::to_string_pretty(&r).unwrap()).is_ok()
}

/// True when the violation is reproduced exactly.
pub fn replay(file: &str, dump: bool) -> bool {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("{}: {}", file, e);
        std::process::exit(2)
    });
    let r: Replay = serde_json::from_str(&text).unwrap_or_else(|e| {
        eprintln!("{}: {}", file, e);
        std::process::exit(2)
    });
    let o = rt::execute(&r.scenario, r.seed, Some(&r.trace));
    if dump {
        crate::dump(&o);
    }
    let f = format!("{:016x}", rt::fingerprint(&o));
    let v = oracle::check(&r.property, &r.scenario, &o).into_iter().find(|v| v.sig == r.sig);
    match v {
        Some(v) => {
            println!("{} {}: {}", r.property, v.sig, v.msg);
            println!("execution {} ({} records): {}", f, o.recs.len(), if f == r.fingerprint { "identical to the recorded one" } else { "DIFFERS from the recorded one" });
            f == r.fingerprint
        }
        None => {
            println!("{} {}: not reproduced (execution {}, recorded {})", r.property, r.sig, f, r.fingerprint);
            false
        }
    }
}
