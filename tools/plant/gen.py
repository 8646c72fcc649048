import os, subprocess, json, sys
SW='/tmp/gw'
OUT='/verif/seeded'
DEMO='''#!/bin/bash
# Builds the program beside this script against the crates of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
astro-run = { path = "$repo/crates/astro-run" }
astro-run-remote-runner = { path = "$repo/crates/remote-runner" }
astro-run-scheduler = { path = "$repo/crates/scheduler" }
astro-runner = { path = "$repo/crates/runner" }
parking_lot = "0.12.1"
tokio-stream = "0.1.14"
tokio = { version = "1.32.0", features = ["full"] }
EOF
if [ -d "$repo/target" ] && [ -w "$repo/target" ]; then export CARGO_TARGET_DIR="$repo/target"; else export CARGO_TARGET_DIR="$work/target"; fi
cd "$work" || exit 2
mkdir "$work/scratch"
export DEMO_SCRATCH="$work/scratch"
cargo build --offline -q 2> "$work/build.log" || { cat "$work/build.log"; exit 3; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
rc=$?
rm -f "$CARGO_TARGET_DIR/debug/demo" "$CARGO_TARGET_DIR/debug/demo.d"
exit $rc
'''
PRELUDE='''#![allow(unused)]
use astro_run::{
  async_trait, stream, AstroRun, AstroRunPlugin, AstroRunSignal, Context, HookNoopResult, JobId, Log, Plugin, RunResponse,
  RunResult, Runner, Signal, Step, StepId, StreamExt, TriggerEvent, Workflow, WorkflowId, WorkflowLog, WorkflowState,
  WorkflowRunResult, JobRunResult, StepRunResult,
};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct FnRunner<F>(F);
#[async_trait]
impl<F: Fn(Context) -> RunResponse + Send + Sync + 'static> Runner for FnRunner<F> {
  async fn run(&self, ctx: Context) -> RunResponse {
    (self.0)(ctx)
  }
}

fn ms(n: u64) -> Duration {
  Duration::from_millis(n)
}

async fn workflow(engine: &AstroRun, id: &str, config: &str) -> Workflow {
  Workflow::builder().id(id).config(config).build(engine).await.unwrap()
}

async fn within<T>(what: &str, d: Duration, f: impl std::future::Future<Output = T>) -> T {
  match tokio::time::timeout(d, f).await {
    Ok(v) => v,
    Err(_) => {
      eprintln!("{what}: no end within {d:?}");
      std::process::exit(1)
    }
  }
}

fn check(ok: bool, what: impl std::fmt::Display) {
  if !ok {
    eprintln!("FAILED: {what}");
    std::process::exit(1);
  }
}
'''
PLANTS=[]
def plant(id,prop,edits,demo,needs,breaks):
    PLANTS.append((id,prop,edits,demo,needs,breaks))
exec(open('/tmp/plant/plants.py').read())
sel=sys.argv[1:]
for id,prop,edits,demo,needs,breaks in PLANTS:
    if sel and id not in sel: continue
    subprocess.check_call(['git','-C',SW,'checkout','-q','-f','HEAD'])
    for f,a,b in edits:
        p=f"{SW}/crates/{f}"; s=open(p).read()
        assert s.count(a)==1,(id,f,s.count(a),a)
        open(p,'w').write(s.replace(a,b))
    diff=subprocess.check_output(['git','-C',SW,'diff'],text=True)
    d=f"{OUT}/{id}"; os.makedirs(d,exist_ok=True)
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.sh","w").write(DEMO); os.chmod(d+"/demo.sh",0o755)
    open(d+"/main.rs","w").write(PRELUDE+demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
subprocess.check_call(['git','-C',SW,'checkout','-q','-f','HEAD'])
