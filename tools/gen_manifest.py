#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = {
 "engine": "Real engine code on simulated tasks and clock, scripted runner.",
 "remote": "Real client, servers, scheduler, tonic and h2 over a simulated network of nodes; scripted runners.",
 "local": "Real engine, local runner, executors and file system calls on a private tmpfs; simulated processes, injected disk errors.",
 "micro": "The real component under pre-emption at every lock operation.",
}
W = dict(C01="engine remote local", C02="engine", C03="engine remote", C04="engine remote", C05="engine remote local", C06="engine remote local",
 C07="engine", C08="engine", C09="micro", C10="micro", C11="remote", C12="remote", C13="remote", C14="remote", C15="micro remote", C16="local",
 C17="local", C18="local", C19="local", C20="engine", C21="engine local", C22="engine remote", C23="engine remote", C25="local")
checks = []
na = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i == "C24":
        na.append({"property": i, "reason": "A pure function of its input text (configuration text, identifiers): no concurrency, time, I/O, fault or second party takes part, so there is nothing for a simulator to schedule or inject."})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check %s quick" % i,
        "thorough_cmd": "./check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, history oracle, minimised replay",
        "level": "exploration",
        "level_note": " ".join(NOTE[w] for w in W[i].split()) + " Every scheduling, delay and fault decision comes from the seed; the recorded history is judged by an independent oracle. Assurance covers the runs examined; trusted: the seams (patched tokio scheduler, parking_lot, tonic transport, octocrate transport, process and libc stand-ins) and the oracle.",
    })
m = {
 "version": 1,
 "setup_cmd": "./check build",
 "checks": checks,
 "not_applicable": na,
 "notes": "No hooks in /repo: every seam is a dependency replaced in the harness workspace (sim/Cargo.toml, [patch.crates-io]) or a libc symbol. Commits in /repo are repairs only ('fix:'), listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
