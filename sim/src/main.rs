#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod engine;
mod evid;
mod gen;
mod github;
mod hist;
mod local;
mod micro;
mod minim;
mod oracle;
mod os;
mod rt;
mod scen;
use std::time::{Duration, Instant};

fn usage() -> ! {
    eprintln!(
        "astrosim run PROP SEED [dump]\n\
         astrosim sweep PROP FROM COUNT [max]       violations, by signature\n\
         astrosim worker PROP FROM STRIDE COUNT SECS OUT\n\
         astrosim minimise PROP SEED SIG SECS OUT   a small replay file\n\
         astrosim replay FILE [dump]                exit 1 when the violation is reproduced exactly\n\
         astrosim determinism PROP FROM COUNT       every run twice, and its replay"
    );
    std::process::exit(2)
}

fn main() {
    rt::install_panic_hook();
    // built before any run, outside the simulated world
    let _ = octocrate_core::sim::client();
    let _ = oracle::engine::timeout_code();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let num = |x: &str| -> u64 { x.parse().unwrap_or_else(|_| usage()) };
    match s[..] {
        ["run", prop, seed, ref rest @ ..] => {
            let seed = num(seed);
            let sc = gen::scenario(prop, seed);
            let o = rt::execute(&sc, seed, None);
            if rest.contains(&"sc") {
                println!("{}", serde_json::to_string_pretty(&sc).unwrap());
            }
            if rest.contains(&"dump") {
                dump(&o);
            }
            println!(
                "recs {} steps {} hung {} fatal {:?} panics {:?} fingerprint {:016x}",
                o.recs.len(),
                o.sum.steps,
                o.hung,
                o.sum.fatal,
                o.panics,
                rt::fingerprint(&o)
            );
            for v in oracle::check(prop, &sc, &o) {
                println!("  {}: {}", v.sig, v.msg);
            }
        }
        ["sweep", prop, from, count, ref rest @ ..] => sweep(prop, num(from), num(count), rest.first().map(|x| num(x)).unwrap_or(2) as usize),
        ["worker", prop, from, stride, count, secs, out] => {
            evid::worker(prop, num(from), num(stride), num(count), Duration::from_secs(num(secs)), out)
        }
        ["minimise", prop, seed, sig, secs, out] => {
            if !minim::minimise(prop, num(seed), sig, Duration::from_secs(num(secs)), out) {
                std::process::exit(3)
            }
        }
        ["replay", file, ref rest @ ..] => {
            let ok = minim::replay(file, rest.contains(&"dump"));
            std::process::exit(if ok { 1 } else { 0 })
        }
        ["determinism", prop, from, count] => determinism(prop, num(from), num(count)),
        _ => usage(),
    }
}

pub fn dump(o: &rt::RunOut) {
    for r in &o.recs {
        println!("{:5} {:>14.3}ms n{} {}", r.seq, r.ms(), r.node, serde_json::to_string(&r.ev).unwrap());
    }
}

fn sweep(prop: &str, from: u64, count: u64, max: usize) {
    let t0 = Instant::now();
    let mut by: std::collections::BTreeMap<String, Vec<(u64, String)>> = Default::default();
    let (mut inconclusive, mut steps) = (0, 0);
    for seed in from..from + count {
        let sc = gen::scenario(prop, seed);
        let o = rt::execute(&sc, seed, None);
        steps += o.sum.steps;
        if let Some(why) = evid::inconclusive(prop, &o) {
            inconclusive += 1;
            by.entry(format!("(inconclusive) {}", why)).or_default().push((seed, String::new()));
            continue;
        }
        let mut seen = vec![];
        for v in oracle::check(prop, &sc, &o) {
            if !seen.contains(&v.sig) {
                seen.push(v.sig.clone());
                by.entry(v.sig).or_default().push((seed, v.msg));
            }
        }
    }
    for (sig, v) in &by {
        println!("{} {}: {} runs", prop, sig, v.len());
        for (seed, msg) in v.iter().take(max) {
            println!("    seed {}: {}", seed, msg.chars().take(400).collect::<String>());
        }
    }
    println!("{} {} runs, {} inconclusive, {} steps, {:?}", prop, count, inconclusive, steps, t0.elapsed());
}

fn determinism(prop: &str, from: u64, count: u64) {
    let mut bad = 0;
    for seed in from..from + count {
        let sc = gen::scenario(prop, seed);
        let o = rt::execute(&sc, seed, None);
        let o2 = rt::execute(&sc, seed, None);
        let o3 = rt::execute(&sc, seed, Some(&o.sum.trace));
        let f = [rt::fingerprint(&o), rt::fingerprint(&o2), rt::fingerprint(&o3)];
        if f[0] != f[1] || f[0] != f[2] {
            bad += 1;
            println!("{} seed {}: {:x?}", prop, seed, f);
            for x in [&o2, &o3] {
                if let Some(n) = o.recs.iter().zip(&x.recs).position(|(a, b)| format!("{:?}", a) != format!("{:?}", b)) {
                    println!("   {:?}\n   {:?}", o.recs[n], x.recs[n]);
                }
            }
        }
    }
    println!("{}: {} seeds, {} differ", prop, count, bad);
    if bad > 0 {
        std::process::exit(1)
    }
}
