//! The scenario of a seed, per property.
use crate::micro::*;
use crate::scen::*;
use simcore::Rng;

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
    "C19", "C20", "C21", "C22", "C23", "C25",
];

pub fn scenario(prop: &str, seed: u64) -> Scenario {
    let mut rng = Rng::new(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5EED);
    let mut g = Gen::new(&mut rng);
    g.k = k_for(prop);
    let mut sc = match prop {
        "C09" => g.micro_stream(),
        "C10" => g.micro_signal(),
        "C15" if g.pct(45) => g.micro_sched(),
        "C11" | "C12" | "C13" | "C14" | "C15" => g.remote(prop),
        "C16" | "C17" | "C18" | "C19" | "C25" => g.local(prop),
        "C22" | "C23" if g.pct(45) => g.remote(prop),
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C21" if g.pct(8) => g.remote(prop),
        "C01" | "C05" | "C06" if g.pct(8) => g.local(prop),
        "C21" if g.pct(20) => g.local(prop),
        _ => g.scenario(prop, World::Engine),
    };
    g.conditions(&mut sc);
    g.finish(prop, &mut sc);
    sc
}

fn all_steps(sc: &mut Scenario) -> Vec<&mut StepSpec> {
    sc.wfs.iter_mut().flat_map(|w| w.jobs.iter_mut()).flat_map(|j| j.step_specs_mut()).collect()
}

impl<'a> Gen<'a> {
    fn finish(&mut self, prop: &str, sc: &mut Scenario) {
        match prop {
            "C03" | "C11" | "C22" | "C23" | "C13" | "C25" => sc.capture = true,
            _ => {}
        }
        if prop == "C13" || sc.world == World::Local {
            sc.settle_ms = 1_800_000;
        } else if sc.world == World::Remote {
            sc.settle_ms = 120_000;
        }
        // a rerun is the same workflow: copy what was changed since it was made
        for i in 0..sc.wfs.len() {
            if let Some(a) = sc.wfs[i].after {
                if sc.wfs[a].id == sc.wfs[i].id {
                    sc.wfs[i].jobs = sc.wfs[a].jobs.clone();
                    sc.wfs[i].on = sc.wfs[a].on.clone();
                }
            }
        }
    }

    // ---- conditions -----------------------------------------------------------------------------

    fn path(&mut self) -> String {
        self.pick(&[
            "src/main.rs", "src/a/b.rs", "README.md", "docs/x.md", "docs/a/b/c.txt", "Cargo.toml", "lib.rs", "a b.txt", ".github/w.yml",
            "src/[x].rs",
        ])
        .to_string()
    }
    pub fn conditions(&mut self, sc: &mut Scenario) {
        let on = self.k.on;
        if on == 0 {
            return;
        }
        let mut any = false;
        for i in 0..sc.wfs.len() {
            if self.pct(on / 2) {
                sc.wfs[i].on = Some(self.cond());
                any = true;
            }
            for j in 0..sc.wfs[i].jobs.len() {
                if self.pct(on) {
                    sc.wfs[i].jobs[j].on = Some(self.cond());
                    any = true;
                }
                let n = sc.wfs[i].jobs[j].step_specs_mut().len();
                for s in 0..n {
                    if self.pct(on) {
                        let c = self.cond();
                        sc.wfs[i].jobs[j].step_specs_mut()[s].on = Some(c);
                        any = true;
                    }
                }
            }
        }
        if !any {
            return;
        }
        for i in 0..sc.wfs.len() {
            if sc.wfs[i].event.is_none() && self.pct(90) {
                let mut e = self.event();
                if self.pct(8) {
                    e.event = self.pick(&["schedule", "release", ""]).to_string();
                }
                if self.pct(5) {
                    e.pr = None;
                }
                sc.wfs[i].event = Some(e);
            }
        }
        let mut files = vec![];
        for o in ["acme", "octo"] {
            for r in ["app", "lib"] {
                if self.pct(6) {
                    continue; // the repository is unknown to the API
                }
                let n = match self.r.below(10) {
                    0 => 0,
                    1 => self.r.range(29, 35),
                    2 if self.pct(50) => self.r.range(95, 230),
                    2 if self.pct(4) => self.r.range(990, 1310),
                    2 => self.r.range(290, 640),
                    _ => self.r.range(1, 5),
                };
                let special = self.path();
                let at = if self.pct(40) { n.max(1) - 1 } else { self.r.below(n.max(1)) };
                let v: Vec<String> = (0..n)
                    .map(|i| if i == at || n < 6 && i > 0 && self.pct(40) { special.clone() } else { format!("other/{}.bin", i) })
                    .collect();
                files.push((format!("{}/{}", o, r), v));
            }
        }
        let mut fails = vec![];
        if self.pct(35) {
            for _ in 0..self.r.range(1, 5) {
                let f = if self.pct(60) { Some(self.pick(&[0, 1, 401, 403, 404, 500, 502])) } else { None };
                fails.push(f);
            }
        }
        sc.github = Some(GithubSpec {
            app: self.pct(30),
            auth: self.pct(90),
            delay_ms: self.pick(&[0, 0, 1, 10, 200, 5000]),
            fails,
            files,
        });
    }

    // ---- remote ---------------------------------------------------------------------------------

    pub fn remote(&mut self, prop: &str) -> Scenario {
        let mut sc = self.scenario(prop, World::Remote);
        if prop == "C11" || prop == "C22" || prop == "C23" || !prop.starts_with("C1") {
            // every step has a runner which can run it
            for s in sc.servers.iter_mut().take(1) {
                s.docker = true;
                s.host = true;
            }
            for s in all_steps(&mut sc) {
                if let Some(c) = &mut s.container {
                    if c.name.starts_with("host/") && !c.name.starts_with("host/linux") {
                        c.name = "host/linux".into();
                    }
                }
            }
            for w in sc.wfs.iter_mut() {
                for j in w.jobs.iter_mut() {
                    if let Some(c) = &mut j.container {
                        if c.name.starts_with("host/") && !c.name.starts_with("host/linux") {
                            c.name = "host/linux".into();
                        }
                    }
                }
            }
        }
        if matches!(prop, "C11" | "C13") && self.r.below(1000) < 4 {
            let mut steps = all_steps(&mut sc);
            let i = self.r.below(steps.len() as u64) as usize;
            steps[i].script.ops.insert(0, Op::Log { n: 1, err: false, flavour: 8 });
        } else if matches!(prop, "C11" | "C13" | "C23") && self.r.below(1000) < 2 {
            let mut steps = all_steps(&mut sc);
            let i = self.r.below(steps.len() as u64) as usize;
            let s = &mut steps[i];
            s.run = format!("{}\n{}", s.run, "# a script with much data in it\n".repeat(130_000));
        }
        if prop == "C11" {
            // whatever depends on the exact moment of a deadline is for C07 and C14
            for s in all_steps(&mut sc) {
                let total: u64 = s.script.ops.iter().map(|o| if let Op::Sleep(t) = o { *t } else { 0 }).sum();
                let hangs = s.script.ops.iter().any(|o| matches!(o, Op::Hang));
                if s.timeout_ms.is_some() || hangs || total > 2_400_000 {
                    s.timeout_ms = Some(if hangs { total + 900_000 } else { total + 600_000 });
                }
            }
        }
        if prop == "C15" && self.pct(50) {
            // many short steps at once
            for s in all_steps(&mut sc) {
                s.script.ops.truncate(2);
            }
        }
        if prop == "C13" && sc.servers.len() > 1 && self.pct(20) {
            // one runner, or one call of `start`, goes away: the others are told everything
            let w = self.r.below(sc.wfs.len() as u64) as usize;
            let wf = sc.wfs[w].clone();
            let j = self.r.below(wf.jobs.len() as u64) as usize;
            let trig = self.trigger(&wf, &wf.jobs[j].clone());
            let server = self.r.below(sc.servers.len() as u64) as usize;
            let act = if self.pct(50) {
                Act::Crash { server, abrupt: false, restart_ms: if self.pct(40) { Some(self.pick(&[0, 1, 50, 1000, 20_000])) } else { None } }
            } else {
                for s in sc.servers.iter_mut() {
                    s.calls = self.pick(&[1, 2, 2, 4]);
                }
                Act::StopCall { call: self.r.below(3) as u32 }
            };
            sc.controls.push(Control { trig, act });
        }
        if prop == "C12" {
            self.net_controls(&mut sc);
        } else if prop == "C15" && self.pct(25) {
            self.net_controls(&mut sc);
        }
        sc
    }
    fn net_controls(&mut self, sc: &mut Scenario) {
        let n = 1 + self.r.below(3);
        for _ in 0..n {
            let server = self.r.below(sc.servers.len() as u64) as usize;
            let w = self.r.below(sc.wfs.len() as u64) as usize;
            let wf = sc.wfs[w].clone();
            let j = self.r.below(wf.jobs.len() as u64) as usize;
            let trig = self.trigger(&wf, &wf.jobs[j].clone());
            let ms = self.pick(&[1, 10, 100, 1000, 5000, 30_000, 120_000]);
            let act = match self.r.below(7) {
                0 | 1 => Act::Crash {
                    server,
                    abrupt: self.pct(50),
                    restart_ms: if self.pct(75) { Some(self.pick(&[0, 1, 50, 1000, 20_000])) } else { None },
                },
                2 => Act::Reset { server },
                3 | 4 => Act::Partition { server, ms },
                5 => Act::Refuse { server, ms },
                _ => Act::Stall { server, ms },
            };
            sc.controls.push(Control { trig, act });
        }
        // work that goes on after the faults
        if self.pct(50) {
            let id = self.wf_id(sc.wfs.len() as u64);
            let mut w = self.wf(id);
            w.start_ms = self.pick(&[3_000, 60_000, 600_000]);
            for j in w.jobs.iter_mut() {
                for s in j.step_specs_mut() {
                    s.script.run_err = false;
                }
            }
            sc.wfs.push(w);
        }
    }

    // ---- local ----------------------------------------------------------------------------------

    fn raw(&mut self) -> Vec<u8> {
        if self.pct(2) {
            return match self.r.below(2) {
                0 => vec![b'y'; 70_000].into_iter().chain(*b"\nnext\n").collect(),
                _ => (0..1100).flat_map(|i| format!("{}\n", i).into_bytes()).collect(),
            };
        }
        match self.r.below(10) {
            8 => (0..300).flat_map(|i| [b'x', if i % 5 == 4 { b'\n' } else { b'\r' }]).collect(),
            0 => b"no newline at the end".to_vec(),
            1 => vec![0xff, 0xfe, b'a', b'\n', b'b', b'\n'],
            2 => b"windows\r\nline\r\n".to_vec(),
            3 => b"\n\n\n".to_vec(),
            4 => "h\u{e9}llo \u{2603}\n".as_bytes().to_vec(),
            5 => vec![b'z'; 9000].into_iter().chain(*b"\nnext\n").collect(),
            6 => vec![0xe2, 0x98, b'\n', 0x83, b'\n', b'a', b'\r', b'\r', b'\n', b'\r', b'\n', b' ', b'\t', b'\n', b'\r'],
            7 => (0..400).flat_map(|i| format!("burst {}\n", i).into_bytes()).collect(),
            _ => b"\x1b[31mred\x1b[0m\t\0nul\n".to_vec(),
        }
    }
    pub fn local(&mut self, prop: &str) -> Scenario {
        let mut sc = self.scenario(prop, World::Local);
        sc.runner = ObsSpec::default();
        let hooks = self.pct(50);
        sc.local = LocalSpec {
            fs_p: 0,
            spawn_p: 0,
            plugins: vec![],
            kill_ms: self.pick(&[0, 0, 1, 20, 300]),
            chunk: self.pick(&[1, 3, 16, 4096, 4096, 65536]),
            decoys: prop == "C19" || self.pct(20),
            stale: prop == "C17" && self.pct(15),
            preraise: vec![],
        };
        if hooks {
            for _ in 0..self.r.range(1, 3) {
                let mut o = self.obs();
                o.builder = false;
                sc.local.plugins.push(o);
            }
        }
        for w in sc.wfs.iter_mut() {
            if w.after.is_some() {
                continue;
            }
            for j in w.jobs.iter_mut() {
                j.container = if self.pct(15) { Some(ContSpec { name: "host/linux".into(), volumes: None, opts: None, full: false }) } else { None };
                for s in j.step_specs_mut() {
                    for o in s.script.ops.iter_mut() {
                        if let Op::Log { flavour, .. } = o {
                            if matches!(*flavour, 7 | 9) {
                                *flavour = 4;
                            }
                        }
                    }
                    s.container = match self.r.below(10) {
                        0..=3 => Some("host/linux"),
                        4 => Some("host/linux-x86_64"),
                        5..=6 => Some("ubuntu:22.04"),
                        _ => None,
                    }
                    .map(|n| ContSpec { name: n.into(), volumes: None, opts: None, full: false });
                    s.run = match self.r.below(12) {
                        4 => format!("\n#!/bin/sh\necho '<{}>'\n", s.tag),
                        5 => format!("  #!<{}>", s.tag),
                        6 => format!("#!/usr/bin/env -S sh -e\r\necho '<{}>'\r\n", s.tag),
                        7 => format!("\u{feff}#!<{}>\n", s.tag),
                        8 => format!("echo '<{}>'{}", s.tag, "\n# a long script".repeat(700)),
                        0 => format!("#!/bin/bash\necho '<{}>'\n", s.tag),
                        1 => format!("echo '<{}>'\necho \"$X\" | grep 'a b' && exit 3\n", s.tag),
                        2 => format!("echo \"<{}>\" ☃ \\ $HOME `x`", s.tag),
                        3 => format!(" # ! <{}>\n", s.tag),
                        9 => format!("\t\n# <{}>\n\n", s.tag),
                        _ => format!("echo '<{}>'", s.tag),
                    };
                    s.script.run_ms = 0;
                    s.script.run_err = false;
                    s.script.react = None;
                    if s.script.end == End::Cancelled {
                        s.script.end = End::Killed(self.pick(&[9, 15, 11]));
                    }
                    if let End::Fail(c) = s.script.end {
                        if !(1..=255).contains(&c) {
                            s.script.end = End::Fail(5);
                        }
                    }
                    let raw_p = if prop == "C16" { 45 } else { 8 };
                    for _ in 0..2 {
                        if self.pct(raw_p) {
                            let at = self.r.below(s.script.ops.len() as u64 + 1) as usize;
                            let op = Op::Raw { err: self.pct(35), bytes: self.raw() };
                            s.script.ops.insert(at, op);
                        }
                    }
                    if self.pct(if prop == "C16" { 25 } else { 3 }) {
                        let at = self.r.below(s.script.ops.len() as u64 + 1) as usize;
                        let op = if self.pct(50) { Op::CloseOut } else { Op::CloseErr };
                        s.script.ops.insert(at, op);
                    }
                    if self.pct(if prop == "C16" { 3 } else { 1 }) {
                        // it goes on in silence
                        s.script.ops.push(Op::CloseErr);
                        s.script.ops.push(Op::CloseOut);
                        let t = self.pick(&[1, 400, 12_000, 400_000]);
                        s.script.ops.push(Op::Sleep(t));
                    }
                    if prop != "C25" && self.pct(15) {
                        s.env.push(("LEVEL".into(), EnvVal::N(2.0)));
                    }
                    if prop == "C19" || self.pct(10) {
                        for _ in 0..self.r.range(1, 3) {
                            let at = self.r.below(s.script.ops.len() as u64 + 1) as usize;
                            let f = format!("f{}", self.r.below(3));
                            let op = match self.r.below(12) {
                                0..=4 => Op::Write(f),
                                5..=9 => Op::Read(f),
                                10 => Op::LinkOut(format!("l{}", self.r.below(2))),
                                _ => Op::Cache(format!("c{}", self.r.below(2))),
                            };
                            s.script.ops.insert(at, op);
                        }
                    }
                }
            }
        }
        if prop == "C17" {
            sc.local.fs_p = self.pick(&[0, 30, 100, 300]);
            sc.local.spawn_p = self.pick(&[0, 0, 100, 500]);
        }
        if prop == "C25" {
            self.surroundings(&mut sc);
            sc.local.fs_p = self.pick(&[0, 0, 0, 30]);
            sc.local.spawn_p = self.pick(&[0, 0, 0, 100]);
        }
        if prop == "C19" {
            for w in sc.wfs.iter_mut() {
                w.event = if self.pct(70) { Some(self.event()) } else { None };
            }
            if self.pct(15) {
                sc.local.fs_p = 40;
            }
            if self.pct(2) {
                // an identifier that the layout of the working directory uses for something else
                sc.wfs.truncate(1);
                sc.controls.clear();
                sc.local.fs_p = 0;
                let id = self.pick(&["caches", "caches", "acme", "octo"]);
                sc.wfs[0].id = id.into();
                if id != "caches" {
                    sc.wfs[0].event = None;
                }
            }
        }
        if prop == "C18" {
            sc.local.spawn_p = self.pick(&[0, 0, 0, 100]);
            let ids: Vec<String> = sc
                .wfs
                .iter()
                .flat_map(|w| w.jobs.iter().flat_map(move |j| (0..j.resolved().len()).map(move |n| format!("{}/{}/{}", w.id, j.key, n))))
                .collect();
            for id in ids {
                if self.pct(12) {
                    sc.local.preraise.push((id, if self.pct(60) { "cancel" } else { "timeout" }.into()));
                }
            }
        }
        sc
    }

    /// Environments that are to reach the process, and hooks that change them.
    fn surroundings(&mut self, sc: &mut Scenario) {
        for (k, p) in sc.local.plugins.iter_mut().enumerate() {
            for i in 0..self.r.below(3) {
                let t = match self.r.below(9) {
                    0 => Transform::Append(format!("\n# {}{}", k, i)),
                    1 => Transform::Image(self.pick(&["ubuntu", "alpine:3", "host/linux"]).to_string()),
                    2 => Transform::Mount(format!("m{}", k)),
                    3 => Transform::Bare,
                    4 => Transform::Secret(format!("S{}", k)),
                    _ => Transform::Env(format!("T{}", self.r.below(2)), self.value()),
                };
                p.before.push(t);
            }
        }
        for w in sc.wfs.iter_mut() {
            if w.after.is_some() {
                continue;
            }
            if self.pct(50) {
                w.event = Some(self.event());
            }
            for j in w.jobs.iter_mut() {
                j.container = if self.pct(40) { Some(self.image()) } else { None };
                for s in j.step_specs_mut() {
                    s.container = if self.pct(60) { Some(self.image()) } else { None };
                    s.env.clear();
                    for i in 0..self.r.below(5) {
                        let v = match self.r.below(6) {
                            0 => EnvVal::B(self.pct(50)),
                            1 => EnvVal::N(self.pick(&[0.0, 1.0, -2.5, 1e15, 0.1, 3.0e-7, 1e21, -1234567.25])),
                            _ => EnvVal::S(self.value()),
                        };
                        s.env.push((self.pick(&["A", "B", "PATH", "X_1", "a", "HOME"]).to_string() + &"_".repeat(i as usize), v));
                    }
                }
            }
        }
    }
    fn value(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..self.pick(&[0, 1, 1, 1, 2, 2, 3, 5]) {
            s.push_str(&self.pick(&[
                "plain", "two words", " ", "\"", "'", "\\", "$HOME", "$", "`id`", "$(id)", "${X}", "a=b", "\n", "\t", ";", "&& echo", "|", "#", "*", "~", "-x", "--name",
                "\u{fc}\u{2603}", "\\n", "\\\"", "!", "%PATH%", "{}", "a:b", "\r\n",
            ]));
        }
        s
    }
    fn image(&mut self) -> ContSpec {
        let full = self.pct(50);
        let name = self.pick(&["host/linux", "host/linux-x86_64", "ubuntu", "ubuntu:22.04", "ghcr.io/acme/app@sha256:0a1b", "localhost:5000/x"]);
        ContSpec {
            name: name.into(),
            volumes: (full && self.pct(80)).then(|| {
                let n = self.r.below(4);
                (0..n).map(|_| self.pick(&["/tmp/a:/b", "/tmp/a:/c", "cache:/root/.cargo", "/my files:/mnt/my files", "/etc/x:/etc/x:ro", "data:/data:rw,z"]).to_string()).collect()
            }),
            opts: (full && self.pct(80)).then(|| {
                let n = self.r.below(3);
                (0..n).map(|_| self.pick(&["seccomp=unconfined", "no-new-privileges:true", "label=disable"]).to_string()).collect()
            }),
            full,
        }
    }

    // ---- components -------------------------------------------------------------------------------

    fn micro_of(&mut self, m: MicroSpec, prop: &str) -> Scenario {
        let mut sc = Scenario::empty(prop, World::Micro);
        sc.micro = Some(m);
        sc.mt = self.pct(80);
        sc.strat = self.strat(false);
        if !sc.mt {
            sc.strat.lock = 0;
        }
        sc.horizon_ms = 3_600_000;
        sc.settle_ms = 10;
        sc
    }
    fn micro_stream(&mut self) -> Scenario {
        let n = self.r.range(1, 4);
        // several senders reach the end of the stream at the same moment
        let race = self.pct(20);
        let at = self.pick(&[0, 1, 5]);
        let mut senders = vec![];
        // the consumer waits again and again
        let paced = !race && self.pct(30);
        for s in 0..n {
            let mut ops = vec![];
            if paced {
                for _ in 0..self.r.range(3, 14) {
                    ops.push(if self.pct(60) { SOp::Log(self.pick(&[1, 1, 1, 2, 3])) } else { SOp::Err(self.pick(&[1, 1, 1, 2, 3])) });
                    ops.push(SOp::Sleep(self.pick(&[1, 5, 60, 400])));
                }
                if s == 0 {
                    ops.push(SOp::Sleep(self.pick(&[5, 400, 10_000])));
                    ops.push(SOp::End(self.pick(&[End::Ok, End::Fail(3), End::Fail(7), End::Cancelled])));
                }
                senders.push(ops);
                if self.pct(50) {
                    break;
                }
                continue;
            }
            if race {
                if at > 0 {
                    ops.push(SOp::Sleep(at));
                }
                if self.pct(40) {
                    ops.push(SOp::Log(1));
                }
                ops.push(SOp::End(self.pick(&[End::Ok, End::Fail(3), End::Fail(7), End::Cancelled])));
                if self.pct(40) {
                    ops.push(SOp::Look);
                }
                senders.push(ops);
                continue;
            }
            for _ in 0..self.r.range(1, 6) {
                ops.push(match self.r.below(12) {
                    0..=3 => SOp::Log(if self.pct(1) { 1100 } else { self.pick(&[1, 1, 2, 5, 40]) }),
                    4 => SOp::Err(self.pick(&[1, 1, 2, 5, 9])),
                    5 | 6 => SOp::Yield,
                    7 => SOp::Sleep(self.pick(&[1, 2, 5, 5, 60, 400])),
                    8 => SOp::Look,
                    9 => SOp::TimeoutEnd,
                    10 => SOp::End(self.pick(&[End::Ok, End::Fail(3), End::Fail(0), End::Cancelled])),
                    _ => SOp::Log(1),
                });
            }
            if self.pct(70) {
                ops.push(SOp::End(self.pick(&[End::Ok, End::Fail(3), End::Fail(7), End::Cancelled])));
            }
            senders.push(ops);
        }
        if !senders.iter().flatten().any(|o| matches!(o, SOp::End(_) | SOp::TimeoutEnd)) {
            senders[0].push(SOp::End(End::Ok));
        }
        let np = self.r.below(6);
        let pauses = (0..np).map(|_| self.pick(&[0, 0, 1, 3])).collect();
        let nm = self.r.below(4);
        let moves = (0..nm).map(|_| self.r.range(1, 4) as u32).collect();
        let select_ms = if self.pct(40) { Some(self.pick(&[1, 2, 10])) } else { None };
        self.micro_of(MicroSpec::Stream(StreamSpec { senders, pauses, moves, select_ms }), "C09")
    }
    fn micro_signal(&mut self) -> Scenario {
        let n = self.r.range(1, 4);
        let base = self.pick(&[0, 1, 5]);
        let reqs = (0..n)
            .map(|_| (if self.pct(70) { base } else { self.pick(&[0, 1, 5, 6]) }, self.pct(50), self.r.below(3) as u32))
            .collect();
        let no = self.r.below(3);
        let observers = (0..no).map(|_| (0..self.r.range(1, 5)).map(|_| self.pick(&[0, 0, 1, 2])).collect()).collect();
        let select_ms = if self.pct(60) { Some(self.pick(&[1, 2, 3])) } else { None };
        let nm = if select_ms.is_some() { self.r.below(3) } else { 0 };
        let moves = (0..nm).map(|i| i as u32 + self.r.range(1, 2) as u32).collect();
        let s = SignalSpec { reqs, recv_ms: self.pick(&[0, 0, 1, 5, 6, 20]), recv_yields: self.r.below(3) as u32, select_ms, moves, rest: self.pct(50), observers };
        self.micro_of(MicroSpec::Signal(s), "C10")
    }
    fn micro_sched(&mut self) -> Scenario {
        let n = self.r.range(1, 4);
        let runners: Vec<RunnerSpec> = (0..n)
            .map(|i| {
                let os = self.pick(&["linux", "linux", "windows", "macos"]).to_string();
                RunnerSpec { id: format!("r{}", i), os, arch: self.pick(&["x86_64", "x86_64", "aarch64"]).to_string(), docker: self.pct(75), host: self.pct(65) }
            })
            .collect();
        let conts = [
            None,
            None,
            None,
            Some("ubuntu"),
            Some("host/linux"),
            Some("host/linux-x86_64"),
            Some("host/linux-aarch64"),
            Some("host/windows"),
            Some("host/macos-aarch64"),
            Some("host/"),
            Some("hostile:1"),
            Some("host/linux-"),
        ];
        let nj = self.r.range(1, 6);
        let jobs = (0..nj)
            .map(|i| SJob {
                key: format!("j{}", i),
                start_ms: self.pick(&[0, 0, 0, 1, 5, 20]),
                steps: (0..self.r.range(1, 4)).map(|_| (self.pick(&conts).map(|s| s.to_string()), self.pick(&[0, 1, 5, 5, 30]))).collect(),
            })
            .collect();
        let ns = self.r.below(4);
        let sets = (0..ns).map(|_| (self.pick(&[1, 3, 7, 20]), (0..n as usize).filter(|_| self.pct(70)).collect())).collect();
        let mut sc = self.micro_of(MicroSpec::Sched(SchedSpec { runners, jobs, sets }), "C15");
        if self.pct(70) {
            sc.mt = false;
            sc.strat.lock = 0;
        }
        sc
    }
}
