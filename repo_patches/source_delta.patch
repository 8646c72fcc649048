From 7d92346e5f9d9ac86625ae9756c7598d2104ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 01/25] fix: start a job with dependencies only once

A waiting job stayed in the waiting list after it had been started, so every
further job result that arrived while it ran started it again.
---
 crates/astro-run/src/workflow/mod.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/crates/astro-run/src/workflow/mod.rs b/crates/astro-run/src/workflow/mod.rs
index 4e7c511..0096d1b 100644
--- a/crates/astro-run/src/workflow/mod.rs
+++ b/crates/astro-run/src/workflow/mod.rs
@@ -96,7 +96,6 @@ impl Workflow {
         workflow_state = WorkflowState::Cancelled;
       }
 
-      waiting_jobs.retain(|(k, _)| k != &key);
       job_results.insert(key, job_result);
 
       if job_results.len() == total_jobs {
@@ -106,20 +105,18 @@ impl Workflow {
         break;
       }
 
-      for (job_id, job) in waiting_jobs.iter() {
-        if !job.depends_on.is_empty() {
-          let mut all_finished = true;
-          for depends_on_key in &job.depends_on {
-            if !job_results.contains_key(depends_on_key) {
-              all_finished = false;
-              break;
-            }
-          }
-
-          if all_finished {
-            self.run_job(job_id.clone(), job.clone(), ctx.clone(), sender.clone());
-          }
-        }
+      // A job leaves the waiting list when it is started, so that it runs only once
+      let (ready_jobs, pending_jobs): (Vec<_>, Vec<_>) =
+        waiting_jobs.into_iter().partition(|(_, job)| {
+          job
+            .depends_on
+            .iter()
+            .all(|depends_on_key| job_results.contains_key(depends_on_key))
+        });
+      waiting_jobs = pending_jobs;
+
+      for (job_id, job) in ready_jobs {
+        self.run_job(job_id, job, ctx.clone(), sender.clone());
       }
     }
 
-- 
2.43.0


From 24a886a4177e5213c0071531c31a6ea8205cb40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 02/25] fix: reject workflows with circular job dependencies

A workflow whose jobs depend on each other in a circle (or on themselves) was
accepted as long as some other job had no dependencies, and never finished.
---
 crates/astro-run/src/user_config.rs | 31 ++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/user_config.rs b/crates/astro-run/src/user_config.rs
index 20e07ff..aa637a9 100644
--- a/crates/astro-run/src/user_config.rs
+++ b/crates/astro-run/src/user_config.rs
@@ -1,6 +1,6 @@
 use crate::{Condition, EnvironmentVariables, Error, Id, Result};
 use serde::{Deserialize, Serialize};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 #[derive(Debug, Clone, Deserialize, Serialize)]
 pub struct ContainerOptions {
@@ -113,6 +113,35 @@ impl UserWorkflow {
       ));
     }
 
+    // Jobs whose dependencies can all be satisfied. A job left over depends on itself,
+    // directly or through other jobs, and would never be started
+    let mut satisfiable_jobs: HashSet<&Id> = HashSet::new();
+    loop {
+      let total = satisfiable_jobs.len();
+
+      for (job_name, job) in &workflow.jobs {
+        let is_satisfiable = job
+          .depends_on
+          .iter()
+          .flatten()
+          .all(|depend_job_key| satisfiable_jobs.contains(depend_job_key));
+
+        if is_satisfiable {
+          satisfiable_jobs.insert(job_name);
+        }
+      }
+
+      if satisfiable_jobs.len() == total {
+        break;
+      }
+    }
+
+    if satisfiable_jobs.len() != workflow.jobs.len() {
+      return Err(Error::workflow_config_error(
+        "Jobs cannot have circular dependencies",
+      ));
+    }
+
     Ok(())
   }
 }
-- 
2.43.0


From c0bad2670ecdbdd1ab3f1286054cb2bd80e5fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 03/25] fix: measure the step timeout from the start of the
 step

The timer was created anew after every log line or signal, so that a step which
kept writing never timed out.
---
 crates/astro-run/src/execution_context/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index fb4ea6e..c68b9f6 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -105,10 +105,16 @@ impl ExecutionContext {
 
     self.call_on_state_change(event).await;
 
+    // The timeout covers the whole step, it does not start over with every log line
+    let sleep = time::sleep(timeout);
+    tokio::pin!(sleep);
+    let mut is_timed_out = false;
+
     loop {
       tokio::select! {
         // Timeout
-        _ = time::sleep(timeout) => {
+        _ = &mut sleep, if !is_timed_out => {
+          is_timed_out = true;
           // Ignore error
           signal.timeout().ok();
         }
-- 
2.43.0


From adf8c5806d5da8e0edc713bcfc3141fa57575340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 04/25] fix: start no further step of a cancelled job

The job signal reached only the step that was running when it was raised. A job
cancelled between two steps, or whose step ended otherwise than cancelled, went
on to run its remaining steps.
---
 crates/astro-run/src/execution_context/mod.rs | 7 +++++++
 crates/astro-run/src/workflow/job.rs          | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index c68b9f6..926fa9e 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -205,6 +205,13 @@ impl ExecutionContext {
     self.signal_manager.cancel_job(job_id)
   }
 
+  pub(crate) fn is_job_cancelled(&self, job_id: &JobId) -> bool {
+    self
+      .signal_manager
+      .get_signal(job_id)
+      .is_some_and(|signal| signal.is_cancelled())
+  }
+
   pub(crate) async fn is_match(&self, condition: &Condition) -> bool {
     self.condition_matcher.is_match(condition).await
   }
diff --git a/crates/astro-run/src/workflow/job.rs b/crates/astro-run/src/workflow/job.rs
index f12604a..9ab9caf 100644
--- a/crates/astro-run/src/workflow/job.rs
+++ b/crates/astro-run/src/workflow/job.rs
@@ -60,6 +60,14 @@ impl Job {
         skipped = true;
       }
 
+      // The job may have been cancelled while no step was running
+      if !skipped && ctx.is_job_cancelled(&self.id) {
+        if job_state.is_in_progress() {
+          job_state = WorkflowState::Cancelled;
+        }
+        skipped = true;
+      }
+
       if skipped {
         log::trace!("Step {} is skipped", step.id.to_string());
 
-- 
2.43.0


From 9fadad87c0a1ac5dec19eff8980b7684e8d9c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 05/25] fix: let only the first end of a stream set its result

The check and the update were two separate critical sections, so that a second,
concurrent end could replace the result a reader had already seen.
---
 crates/astro-run/src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/astro-run/src/stream.rs b/crates/astro-run/src/stream.rs
index 0223139..d0d1081 100644
--- a/crates/astro-run/src/stream.rs
+++ b/crates/astro-run/src/stream.rs
@@ -104,12 +104,12 @@ impl StreamSender {
   }
 
   pub fn end(&self, result: RunResult) {
-    if self.is_ended() {
+    let mut state = self.state.lock();
+    if state.result.is_some() {
       log::trace!("StreamSender: already ended");
       return;
     }
 
-    let mut state = self.state.lock();
     state.result = Some(result);
 
     if let Some(waker) = state.waker.take() {
-- 
2.43.0


From f6959573df6d739bc5705561221d42436fe8f54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 06/25] fix: forward every event to the remote runners

Events went through a broadcast channel of 30. A burst that the runners were
slower than made the receiver lag, which ended the forwarding loop for good.
---
 crates/remote-runner/src/client.rs | 53 +++++++++++++-----------------
 1 file changed, 22 insertions(+), 31 deletions(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index b06dee4..67222f2 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -6,7 +6,7 @@ use astro_run_protocol::{ProtocolEvent, RunResponse};
 use astro_run_scheduler::Scheduler;
 use parking_lot::Mutex;
 use std::{collections::HashMap, sync::Arc};
-use tokio::sync::broadcast;
+use tokio::sync::mpsc;
 use tokio_stream::StreamExt;
 
 type GRPCClient = RemoteRunnerClient<tonic::transport::Channel>;
@@ -22,7 +22,7 @@ struct Client {
 pub struct AstroRunRemoteRunnerClient {
   clients: Arc<Mutex<HashMap<String, Client>>>,
   scheduler: Arc<Box<dyn Scheduler>>,
-  event_sender: broadcast::Sender<ProtocolEvent>,
+  event_senders: Arc<Mutex<Vec<mpsc::UnboundedSender<ProtocolEvent>>>>,
 }
 
 #[astro_run::async_trait]
@@ -64,9 +64,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   async fn on_log(&self, log: astro_run::WorkflowLog) -> HookNoopResult {
     let event = ProtocolEvent::StepLog(log);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.dispatch_event(event);
 
     Ok(())
   }
@@ -74,9 +72,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   async fn on_step_completed(&self, result: astro_run::StepRunResult) -> HookNoopResult {
     let event = ProtocolEvent::StepCompleted(result);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.dispatch_event(event);
 
     Ok(())
   }
@@ -84,9 +80,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   async fn on_job_completed(&self, result: astro_run::JobRunResult) -> HookNoopResult {
     let event = ProtocolEvent::JobCompleted(result);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.dispatch_event(event);
 
     Ok(())
   }
@@ -94,9 +88,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   async fn on_workflow_completed(&self, result: astro_run::WorkflowRunResult) -> HookNoopResult {
     let event = ProtocolEvent::WorkflowCompleted(result);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.dispatch_event(event);
 
     Ok(())
   }
@@ -104,9 +96,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   async fn on_state_change(&self, event: astro_run::WorkflowStateEvent) -> HookNoopResult {
     let event = ProtocolEvent::StateChange(event);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.dispatch_event(event);
 
     Ok(())
   }
@@ -114,9 +104,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   async fn on_run_step(&self, event: astro_run::RunStepEvent) -> HookNoopResult {
     let event = ProtocolEvent::RunStep(event);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.dispatch_event(event);
 
     Ok(())
   }
@@ -124,9 +112,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   async fn on_run_job(&self, event: astro_run::RunJobEvent) -> HookNoopResult {
     let event = ProtocolEvent::RunJob(event);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.dispatch_event(event);
 
     Ok(())
   }
@@ -134,9 +120,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   async fn on_run_workflow(&self, event: astro_run::RunWorkflowEvent) -> HookNoopResult {
     let event = ProtocolEvent::RunWorkflow(event);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.dispatch_event(event);
 
     Ok(())
   }
@@ -171,7 +155,8 @@ impl AstroRunRemoteRunnerClient {
   where
     T: Into<String>,
   {
-    let mut receiver = self.event_sender.subscribe();
+    let (event_sender, mut receiver) = mpsc::unbounded_channel();
+    self.event_senders.lock().push(event_sender);
 
     for url in urls {
       let url = url.into();
@@ -191,7 +176,7 @@ impl AstroRunRemoteRunnerClient {
       }
     }
 
-    while let Ok(event) = receiver.recv().await {
+    while let Some(event) = receiver.recv().await {
       let clients = self.clients.lock().clone();
       for (_, mut client) in clients {
         if let Err(err) = client.client.send_event(event.clone()).await {
@@ -204,6 +189,14 @@ impl AstroRunRemoteRunnerClient {
     Ok(())
   }
 
+  fn dispatch_event(&self, event: ProtocolEvent) {
+    // The receiver of a sender that fails has been dropped
+    self
+      .event_senders
+      .lock()
+      .retain(|sender| sender.send(event.clone()).is_ok());
+  }
+
   async fn connect(url: String) -> Result<Client> {
     let mut client = GRPCClient::connect(url)
       .await
@@ -324,11 +317,9 @@ impl AstroRunRemoteRunnerClientBuilder {
       .scheduler
       .unwrap_or_else(|| Box::new(astro_run_scheduler::DefaultScheduler::new()));
 
-    let (event_sender, _) = broadcast::channel(30);
-
     Ok(AstroRunRemoteRunnerClient {
       scheduler: Arc::new(scheduler),
-      event_sender,
+      event_senders: Arc::new(Mutex::new(Vec::new())),
       clients: Arc::new(Mutex::new(HashMap::new())),
     })
   }
-- 
2.43.0


From 1217a1cfa7caced16c232992a00a6a76655fd336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:59 +0000
Subject: [PATCH 07/25] fix: tell the scheduler about runs and their completion

The remote runner client never called the scheduler's hooks: the default
scheduler counted every step ever run as still running, and kept a job bound to
its runner after it had completed.
---
 crates/remote-runner/src/client.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 67222f2..3817606 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -70,6 +70,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_step_completed(&self, result: astro_run::StepRunResult) -> HookNoopResult {
+    self.scheduler.on_step_completed(result.clone());
+
     let event = ProtocolEvent::StepCompleted(result);
 
     self.dispatch_event(event);
@@ -78,6 +80,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_job_completed(&self, result: astro_run::JobRunResult) -> HookNoopResult {
+    self.scheduler.on_job_completed(result.clone());
+
     let event = ProtocolEvent::JobCompleted(result);
 
     self.dispatch_event(event);
@@ -86,6 +90,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_workflow_completed(&self, result: astro_run::WorkflowRunResult) -> HookNoopResult {
+    self.scheduler.on_workflow_completed(result.clone());
+
     let event = ProtocolEvent::WorkflowCompleted(result);
 
     self.dispatch_event(event);
@@ -102,6 +108,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_step(&self, event: astro_run::RunStepEvent) -> HookNoopResult {
+    self.scheduler.on_run_step(event.source.clone());
+
     let event = ProtocolEvent::RunStep(event);
 
     self.dispatch_event(event);
@@ -110,6 +118,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_job(&self, event: astro_run::RunJobEvent) -> HookNoopResult {
+    self.scheduler.on_run_job(event.source.clone());
+
     let event = ProtocolEvent::RunJob(event);
 
     self.dispatch_event(event);
@@ -118,6 +128,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_workflow(&self, event: astro_run::RunWorkflowEvent) -> HookNoopResult {
+    self.scheduler.on_run_workflow(event.source.clone());
+
     let event = ProtocolEvent::RunWorkflow(event);
 
     self.dispatch_event(event);
-- 
2.43.0


From 4417176ac413a43ee0baec90289d9abfce28e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 08/25] fix: keep host steps off runners that do not support
 the host

The || of a host/<os>-<arch> match took the runner last used by the job even if
it does not support running on the host.
---
 crates/scheduler/src/default.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/scheduler/src/default.rs b/crates/scheduler/src/default.rs
index 8ca7251..d3b4797 100644
--- a/crates/scheduler/src/default.rs
+++ b/crates/scheduler/src/default.rs
@@ -62,8 +62,9 @@ impl Scheduler for DefaultScheduler {
         if r.id == last_used_id {
           if is_runs_on_host {
             let container_name = container_name.clone().unwrap();
-            return r.support_host && container_name == format!("host/{}", r.os)
-              || container_name == format!("host/{}-{}", r.os, r.arch);
+            return r.support_host
+              && (container_name == format!("host/{}", r.os)
+                || container_name == format!("host/{}-{}", r.os, r.arch));
           }
 
           return true;
-- 
2.43.0


From 1584b5717587f0bc6d9da7d4889c87bde12d0691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 09/25] fix: read the whole output of a command

Reading stopped as soon as either stream was closed or a line was not UTF-8, and
a line in progress was lost when the other stream had something to read. The
output was cut, and a command that went on to write was killed by SIGPIPE.
---
 crates/runner/src/command.rs | 57 +++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index bfff992..dd98fe6 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -73,39 +73,42 @@ impl Command {
       "Failed to get stderr from child process".to_string(),
     ))?;
 
-    let out = BufReader::new(out);
-    let err = BufReader::new(err);
-
-    let mut lines = out.lines();
-    let mut errors = err.lines();
-
-    loop {
+    let mut out = BufReader::new(out);
+    let mut err = BufReader::new(err);
+    // A line in progress, kept here so that it survives the other branch being taken
+    let mut line = Vec::new();
+    let mut error = Vec::new();
+    let mut is_out_open = true;
+    let mut is_err_open = true;
+
+    // Both streams are read to their end, each may be closed before the other one
+    while is_out_open || is_err_open {
       tokio::select! {
-        line = lines.next_line() => {
-          match line {
-            Ok(Some(line)) => {
-              sender.log(line);
+        res = out.read_until(b'\n', &mut line), if is_out_open => {
+          match res {
+            Ok(0) if line.is_empty() => {
+              is_out_open = false;
             }
-            Ok(None) => {
-                break;
+            Ok(_) => {
+              sender.log(Self::take_line(&mut line));
             }
             Err(err) => {
               sender.error(err.to_string());
-              break;
+              is_out_open = false;
             }
           }
         }
-        error = errors.next_line() => {
-          match error {
-            Ok(Some(error)) => {
-              sender.error(error);
+        res = err.read_until(b'\n', &mut error), if is_err_open => {
+          match res {
+            Ok(0) if error.is_empty() => {
+              is_err_open = false;
             }
-            Ok(None) => {
-              break;
+            Ok(_) => {
+              sender.error(Self::take_line(&mut error));
             }
             Err(err) => {
               sender.error(err.to_string());
-              break;
+              is_err_open = false;
             }
           }
         }
@@ -132,6 +135,18 @@ impl Command {
     Ok(())
   }
 
+  /// Take a line out of the buffer, without its line ending
+  fn take_line(buffer: &mut Vec<u8>) -> String {
+    let line = String::from_utf8_lossy(buffer);
+    let line = match line.strip_suffix('\n') {
+      Some(line) => line.strip_suffix('\r').unwrap_or(line).to_string(),
+      None => line.to_string(),
+    };
+    buffer.clear();
+
+    line
+  }
+
   fn build_command(&self) -> Cmd {
     let mut command;
 
-- 
2.43.0


From 855ec5eb7459dfcb7b7a6fb716b586ac4c4304e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 10/25] fix: kill the command of a step that is cancelled or
 times out

The future was dropped but the process it had started was left running.
---
 crates/runner/src/command.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index dd98fe6..669de29 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -61,6 +61,8 @@ impl Command {
     let mut child = command
       .stdout(Stdio::piped())
       .stderr(Stdio::piped())
+      // The step is over when the future is dropped, on a cancellation or a timeout
+      .kill_on_drop(true)
       .spawn()
       .map_err(|err| {
         Error::internal_runtime_error(format!("Failed to spawn child process: {}", err))
-- 
2.43.0


From 353cd9f38931b4003f18a1a1a9950bb5367ede69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 11/25] fix: wait until the entrypoint of a step is written

The file was dropped while its last write could still be under way: the step
could run a truncated script, or fail with a busy text file, and an error of
that write went unnoticed.
---
 crates/runner/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/runner/src/utils.rs b/crates/runner/src/utils.rs
index dd14606..a1ac6a3 100644
--- a/crates/runner/src/utils.rs
+++ b/crates/runner/src/utils.rs
@@ -26,6 +26,9 @@ pub async fn create_executable_file(file_path: &PathBuf, content: &String) -> Re
 
   file.write_all(content.as_bytes()).await?;
 
+  // A write goes on in the background, and so does its failure
+  file.flush().await?;
+
   // Fix Text file busy
   drop(file);
 
-- 
2.43.0


From 704203a9921131ea8d1f5f83a631449a57e55a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 12/25] fix: finish a step when its command has finished

The branch of the select took only an error of the command. After a success it
was disabled and the executor waited for a signal that never came: the working
directory of the step was left behind and the after-run hooks were not called.
---
 crates/runner/src/executors/docker.rs | 6 ++++--
 crates/runner/src/executors/host.rs   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 8623861..73dcd60 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -48,8 +48,10 @@ impl Executor for DockerExecutor {
 
       // Run the command
       tokio::select! {
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        res = command.run(sender.clone()) => {
+          if let Err(err) = res {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           log::trace!("Killing running docker: {}", metadata.docker_name);
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index fb1f244..620bf94 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -37,8 +37,10 @@ impl Executor for HostExecutor {
 
       tokio::select! {
         // Run the command
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        res = command.run(sender.clone()) => {
+          if let Err(err) = res {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           // TODO: cancel the command
-- 
2.43.0


From 5dafc15b25f3c45da3674ebfd8cdd415891715ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 13/25] fix: remove the directory of a step whose entrypoint
 cannot be written

---
 crates/runner/src/executors/docker.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 73dcd60..af0863c 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -44,7 +44,14 @@ impl Executor for DockerExecutor {
     if !is_completed {
       // Create step working directory
       fs::create_dir_all(&metadata.step_host_working_directory).await?;
-      utils::create_executable_file(&metadata.entrypoint_path, &ctx.command.run).await?;
+      if let Err(err) =
+        utils::create_executable_file(&metadata.entrypoint_path, &ctx.command.run).await
+      {
+        fs::remove_dir_all(&metadata.step_host_working_directory)
+          .await
+          .ok();
+        return Err(err);
+      }
 
       // Run the command
       tokio::select! {
-- 
2.43.0


From bdcc5a03abc3673de04e15cbf91617c668010908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 14/25] fix: report a step cancelled before it starts as
 cancelled

It was reported as failed with exit code 1, and so was a timed out one.
---
 crates/runner/src/executors/docker.rs | 6 ++++++
 crates/runner/src/executors/host.rs   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index af0863c..9693828 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -82,6 +82,12 @@ impl Executor for DockerExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step is already completed");
+
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index 620bf94..78ab571 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -59,6 +59,12 @@ impl Executor for HostExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
+
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
-- 
2.43.0


From be3a776fc1e1e8c670abcd2be3de5ad9327cb7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 15/25] fix: keep the working directory of a job until the
 workflow is completed

A host step removed the directory that the steps of the job share, and with it
what the earlier steps had left there for the later ones.
---
 crates/runner/src/executors/host.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index 78ab571..222b4a2 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -32,7 +32,8 @@ impl Executor for HostExecutor {
     let is_completed = ctx.signal.is_cancelled() || ctx.signal.is_timeout();
 
     if !is_completed {
-      // Create step working directory
+      // Create job working directory, it is shared by the steps of the job and removed when
+      // the workflow is completed
       fs::create_dir_all(&metadata.job_data_directory).await?;
 
       tokio::select! {
@@ -53,9 +54,6 @@ impl Executor for HostExecutor {
         }
       }
 
-      // Clean up working directory
-      fs::remove_dir_all(&metadata.job_data_directory).await?;
-
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
-- 
2.43.0


From 40b9f0ad1c4f46d800f20ad1628bc85ce7d8b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 16/25] fix: forget the trigger event of a completed workflow

A later run of the same workflow id without a trigger event cleaned up the
directory of the earlier one, and the entries were never removed.
---
 crates/runner/src/astro_runner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/runner/src/astro_runner.rs b/crates/runner/src/astro_runner.rs
index 749c753..9072f82 100644
--- a/crates/runner/src/astro_runner.rs
+++ b/crates/runner/src/astro_runner.rs
@@ -98,7 +98,7 @@ impl AstroRunner {
   }
 
   fn cleanup_workflow_working_directory(&self, result: astro_run::WorkflowRunResult) -> Result<()> {
-    let event = self.state.lock().workflow_events.get(&result.id).cloned();
+    let event = self.state.lock().workflow_events.remove(&result.id);
 
     let mut directory = self.working_directory.clone();
 
-- 
2.43.0


From dfbba212d2aa541519dfb68a43091714c6e444fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 17/25] fix: match the conditions against all changed files of
 a pull request

Only the first page of 30 files was fetched, so that a change beyond it was not
seen and the workflow, job or step was skipped.
---
 .../execution_context/condition_matcher.rs    | 43 +++++++++++++------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/crates/astro-run/src/execution_context/condition_matcher.rs b/crates/astro-run/src/execution_context/condition_matcher.rs
index 3249f17..e07aeb7 100644
--- a/crates/astro-run/src/execution_context/condition_matcher.rs
+++ b/crates/astro-run/src/execution_context/condition_matcher.rs
@@ -3,6 +3,8 @@ use octocrate::{APIConfig, AppAuthorization, GitHubAPI, PersonalAccessToken};
 use parking_lot::Mutex;
 use std::sync::Arc;
 
+const PULL_REQUEST_FILES_PER_PAGE: usize = 100;
+
 #[derive(Clone)]
 pub struct ConditionMatcher {
   pub github_auth: Option<GithubAuthorization>,
@@ -111,20 +113,35 @@ impl ConditionMatcher {
     } = self.event.as_ref().unwrap();
     let github_api = self.get_github_api_by_repo(repo_owner, repo_name).await?;
 
-    let pull_request_files = github_api
-      .pulls
-      .list_files(
-        repo_owner,
-        repo_name,
-        pr_number.ok_or(Error::workflow_config_error("pr_number is not provided"))?,
-      )
-      .send()
-      .await
-      .map_err(|e| {
-        Error::internal_runtime_error(format!("Failed to get pull request files: {}", e))
-      })?;
+    let pr_number = pr_number.ok_or(Error::workflow_config_error("pr_number is not provided"))?;
+    let mut files = vec![];
+
+    // The files are listed in pages, a page that is not full is the last one
+    for page in 1_i64.. {
+      let query = octocrate::pulls::list_files::Query::builder()
+        .per_page(PULL_REQUEST_FILES_PER_PAGE as i64)
+        .page(page)
+        .build();
+
+      let pull_request_files = github_api
+        .pulls
+        .list_files(repo_owner, repo_name, pr_number)
+        .query(&query)
+        .send()
+        .await
+        .map_err(|e| {
+          Error::internal_runtime_error(format!("Failed to get pull request files: {}", e))
+        })?;
+
+      let total = pull_request_files.len();
+      files.extend(pull_request_files.into_iter().map(|f| f.filename));
+
+      if total < PULL_REQUEST_FILES_PER_PAGE {
+        break;
+      }
+    }
 
-    Ok(pull_request_files.into_iter().map(|f| f.filename).collect())
+    Ok(files)
   }
 
   async fn get_github_api_by_repo(
-- 
2.43.0


From 27a56130fa41930c53aca96bb521e67aa22b0195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 18/25] fix: end a step only after its directory has been
 removed

The result was reported first. A workflow started again right after its end had
the directory of its step removed under it by the step of the earlier run.
---
 crates/runner/src/command.rs          | 14 +++++++++++---
 crates/runner/src/executors/docker.rs | 28 +++++++++++++++++----------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index 669de29..21ceeae 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -56,7 +56,17 @@ impl Command {
     Err(Error::internal_runtime_error(stderr))
   }
 
+  /// Run the command, and end the stream with its result
   pub async fn run(&mut self, sender: StreamSender) -> Result<()> {
+    let res = self.execute(&sender).await?;
+
+    sender.end(res);
+
+    Ok(())
+  }
+
+  /// Run the command, and leave it to the caller to end the stream
+  pub async fn execute(&mut self, sender: &StreamSender) -> Result<RunResult> {
     let mut command = self.build_command();
     let mut child = command
       .stdout(Stdio::piped())
@@ -132,9 +142,7 @@ impl Command {
       })
       .unwrap_or_else(|| RunResult::Failed { exit_code: 1 });
 
-    sender.end(res);
-
-    Ok(())
+    Ok(res)
   }
 
   /// Take a line out of the buffer, without its line ending
diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 9693828..3dfffcc 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -5,7 +5,7 @@ use crate::{
   metadata::{Metadata, PathBufTryToString},
   utils,
 };
-use astro_run::{Context, Result, StreamSender, TriggerEvent};
+use astro_run::{Context, Result, RunResult, StreamSender, TriggerEvent};
 use std::path::PathBuf;
 use tokio::fs;
 
@@ -54,10 +54,14 @@ impl Executor for DockerExecutor {
       }
 
       // Run the command
-      tokio::select! {
-        res = command.run(sender.clone()) => {
-          if let Err(err) = res {
-            log::error!("Step run error: {}", err);
+      let result = tokio::select! {
+        res = command.execute(&sender) => {
+          match res {
+            Ok(result) => result,
+            Err(err) => {
+              log::error!("Step run error: {}", err);
+              RunResult::Failed { exit_code: 1 }
+            }
           }
         }
         signal = ctx.signal.recv() => {
@@ -70,15 +74,19 @@ impl Executor for DockerExecutor {
 
           log::trace!("Step received signal: {:?}", signal);
           if let astro_run::Signal::Cancel = signal {
-            sender.cancelled();
+            RunResult::Cancelled
           } else {
-            sender.timeout();
+            RunResult::Failed { exit_code: 123 }
           }
         }
-      }
+      };
+
+      // Clean up working directory, before the next run of the step can begin
+      let removed = fs::remove_dir_all(&metadata.step_host_working_directory).await;
+
+      sender.end(result);
 
-      // Clean up working directory
-      fs::remove_dir_all(&metadata.step_host_working_directory).await?;
+      removed?;
       log::trace!("Step run finished");
     } else {
       log::trace!("Step is already completed");
-- 
2.43.0


From 17738938d638e2359cd1430af208addb816ce771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 19/25] fix: keep the signal of a step that is run again

The server removed a signal when the StepCompleted event of the step arrived.
That event is forwarded in the background, so when a step was run again under
the same id the late event of the first run removed the signal of the second:
a cancel or timeout never reached it. The signal now belongs to the run that
registered it.
---
 crates/remote-runner/src/runner_server.rs | 54 ++++++++++++++++++-----
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/crates/remote-runner/src/runner_server.rs b/crates/remote-runner/src/runner_server.rs
index cfc4125..d6ef492 100644
--- a/crates/remote-runner/src/runner_server.rs
+++ b/crates/remote-runner/src/runner_server.rs
@@ -8,6 +8,44 @@ use std::{collections::HashMap, env, sync::Arc};
 use tokio::sync::mpsc;
 use tokio_stream::{wrappers::ReceiverStream, StreamExt};
 
+type SharedSignals = Arc<Mutex<HashMap<StepId, Arc<astro_run::AstroRunSignal>>>>;
+
+/// Keeps the signal of a step registered until the step has finished
+struct SignalRegistration {
+  signals: SharedSignals,
+  id: StepId,
+  signal: Arc<astro_run::AstroRunSignal>,
+}
+
+impl SignalRegistration {
+  fn new(signals: SharedSignals, ctx: &Context) -> Self {
+    let id = ctx.id.clone();
+    let signal = Arc::new(ctx.signal.clone());
+
+    signals.lock().insert(id.clone(), signal.clone());
+
+    Self {
+      signals,
+      id,
+      signal,
+    }
+  }
+}
+
+impl Drop for SignalRegistration {
+  fn drop(&mut self) {
+    let mut signals = self.signals.lock();
+
+    // The step may have been started again in the meantime
+    if signals
+      .get(&self.id)
+      .map_or(false, |signal| Arc::ptr_eq(signal, &self.signal))
+    {
+      signals.remove(&self.id);
+    }
+  }
+}
+
 pub struct AstroRunRemoteRunnerServer {
   id: String,
   max_runs: i32,
@@ -15,7 +53,7 @@ pub struct AstroRunRemoteRunnerServer {
   support_host: bool,
   runner: Arc<Box<dyn Runner>>,
   plugin_driver: SharedPluginDriver,
-  signals: Arc<Mutex<HashMap<StepId, astro_run::AstroRunSignal>>>,
+  signals: SharedSignals,
 }
 
 impl AstroRunRemoteRunnerServer {
@@ -43,10 +81,12 @@ impl AstroRunRemoteRunnerServer {
     runner: Arc<Box<dyn Runner>>,
     sender: mpsc::Sender<Result<RunResponse, tonic::Status>>,
     ctx: astro_run::Context,
+    registration: SignalRegistration,
   ) {
     let id = ctx.id.clone();
 
     tokio::spawn(async move {
+      let _registration = registration;
       let mut stream = runner.run(ctx).await?;
 
       while let Some(log) = stream.next().await {
@@ -85,14 +125,11 @@ impl RemoteRunnerExt for AstroRunRemoteRunnerServer {
 
     let context = request.into_inner();
 
-    self
-      .signals
-      .lock()
-      .insert(context.id.clone(), context.signal.clone());
+    let registration = SignalRegistration::new(self.signals.clone(), &context);
 
     let runner = self.runner.clone();
 
-    Self::run(runner, tx, context);
+    Self::run(runner, tx, context, registration);
 
     Ok(tonic::Response::new(ReceiverStream::new(rx)))
   }
@@ -121,11 +158,6 @@ impl RemoteRunnerExt for AstroRunRemoteRunnerServer {
         }
       }
       ProtocolEvent::StepCompleted(result) => {
-        // Remove signal once step is completed
-        let step_id = &result.id;
-
-        self.signals.lock().remove(step_id);
-
         // Dispatch event to plugins and runner
         self.plugin_driver.on_step_completed(result.clone()).await;
         if let Err(err) = self.runner.on_step_completed(result).await {
-- 
2.43.0


From 639e5dc90a0803d034a618b855b3f2ad0f2357aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 20/25] fix: let messages to and from remote runners be of any
 size

The default limit of 4 MiB for a decoded message failed remote steps with a
larger log line or script, and dropped the events that carried them.
---
 crates/remote-runner/src/client.rs        | 4 +++-
 crates/remote-runner/src/runner_server.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 3817606..0a85c04 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -210,9 +210,11 @@ impl AstroRunRemoteRunnerClient {
   }
 
   async fn connect(url: String) -> Result<Client> {
+    // A log line may be larger than the default limit of a message
     let mut client = GRPCClient::connect(url)
       .await
-      .map_err(|e| Error::internal_runtime_error(format!("Failed to connect: {}", e)))?;
+      .map_err(|e| Error::internal_runtime_error(format!("Failed to connect: {}", e)))?
+      .max_decoding_message_size(usize::MAX);
 
     let res = client
       .get_runner_metadata(astro_run_protocol::Empty {})
diff --git a/crates/remote-runner/src/runner_server.rs b/crates/remote-runner/src/runner_server.rs
index d6ef492..f0f3ae2 100644
--- a/crates/remote-runner/src/runner_server.rs
+++ b/crates/remote-runner/src/runner_server.rs
@@ -66,7 +66,8 @@ impl AstroRunRemoteRunnerServer {
       .parse()
       .map_err(|_| Error::internal_runtime_error("Failed to parse address"))?;
 
-    let service = RemoteRunnerServer::new(self);
+    // A log line or a script may be larger than the default limit of a message
+    let service = RemoteRunnerServer::new(self).max_decoding_message_size(usize::MAX);
 
     tonic::transport::Server::builder()
       .add_service(service)
-- 
2.43.0


From cea68eae1d78dbc67312c660f945909e286f87c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 21/25] fix: deliver each event once when the remote client is
 started more than once

Every call of start forwarded all events to all the clients, so that with two calls
each runner received every event twice. A call now forwards to the runners it has
connected itself.
---
 crates/remote-runner/src/client.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 0a85c04..f973e70 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -170,6 +170,9 @@ impl AstroRunRemoteRunnerClient {
     let (event_sender, mut receiver) = mpsc::unbounded_channel();
     self.event_senders.lock().push(event_sender);
 
+    // Each call of `start` forwards the events to the runners it has connected
+    let mut connected_clients = vec![];
+
     for url in urls {
       let url = url.into();
       match Self::connect(url.clone()).await {
@@ -180,6 +183,7 @@ impl AstroRunRemoteRunnerClient {
             continue;
           }
           log::trace!("Connected to runner: {}", client.metadata.id);
+          connected_clients.push(client.clone());
           clients.insert(client.id.clone(), client);
         }
         Err(err) => {
@@ -189,8 +193,7 @@ impl AstroRunRemoteRunnerClient {
     }
 
     while let Some(event) = receiver.recv().await {
-      let clients = self.clients.lock().clone();
-      for (_, mut client) in clients {
+      for client in connected_clients.iter_mut() {
         if let Err(err) = client.client.send_event(event.clone()).await {
           log::error!("Failed to send event: {}", err);
         }
-- 
2.43.0


From 62ee840180148dc35f075a58307322991e739d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 22/25] fix: match conditions against all changed files of a
 commit, not only the first 300

The files of a commit are listed in pages, like those of a pull request.
---
 .../execution_context/condition_matcher.rs    | 41 +++++++++++++------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/crates/astro-run/src/execution_context/condition_matcher.rs b/crates/astro-run/src/execution_context/condition_matcher.rs
index e07aeb7..999c113 100644
--- a/crates/astro-run/src/execution_context/condition_matcher.rs
+++ b/crates/astro-run/src/execution_context/condition_matcher.rs
@@ -3,7 +3,7 @@ use octocrate::{APIConfig, AppAuthorization, GitHubAPI, PersonalAccessToken};
 use parking_lot::Mutex;
 use std::sync::Arc;
 
-const PULL_REQUEST_FILES_PER_PAGE: usize = 100;
+const FILES_PER_PAGE: usize = 100;
 
 #[derive(Clone)]
 pub struct ConditionMatcher {
@@ -89,17 +89,32 @@ impl ConditionMatcher {
     } = self.event.as_ref().unwrap();
     let github_api = self.get_github_api_by_repo(repo_owner, repo_name).await?;
 
-    let commit = github_api
-      .repos
-      .get_commit(repo_owner, repo_name, sha)
-      .send()
-      .await
-      .map_err(|e| Error::internal_runtime_error(format!("Failed to get commit: {}", e)))?;
+    let mut files = vec![];
 
-    let files: Vec<String> = commit
-      .files
-      .map(|files| files.iter().map(|f| f.filename.clone()).collect())
-      .unwrap_or(vec![]);
+    // The files are listed in pages, a page that is not full is the last one
+    for page in 1_i64.. {
+      let query = octocrate::repos::get_commit::Query::builder()
+        .per_page(FILES_PER_PAGE as i64)
+        .page(page)
+        .build();
+
+      let commit = github_api
+        .repos
+        .get_commit(repo_owner, repo_name, sha)
+        .query(&query)
+        .send()
+        .await
+        .map_err(|e| Error::internal_runtime_error(format!("Failed to get commit: {}", e)))?;
+
+      let commit_files = commit.files.unwrap_or_default();
+
+      let total = commit_files.len();
+      files.extend(commit_files.into_iter().map(|f| f.filename));
+
+      if total < FILES_PER_PAGE {
+        break;
+      }
+    }
 
     Ok(files)
   }
@@ -119,7 +134,7 @@ impl ConditionMatcher {
     // The files are listed in pages, a page that is not full is the last one
     for page in 1_i64.. {
       let query = octocrate::pulls::list_files::Query::builder()
-        .per_page(PULL_REQUEST_FILES_PER_PAGE as i64)
+        .per_page(FILES_PER_PAGE as i64)
         .page(page)
         .build();
 
@@ -136,7 +151,7 @@ impl ConditionMatcher {
       let total = pull_request_files.len();
       files.extend(pull_request_files.into_iter().map(|f| f.filename));
 
-      if total < PULL_REQUEST_FILES_PER_PAGE {
+      if total < FILES_PER_PAGE {
         break;
       }
     }
-- 
2.43.0


From c04fa6ee0220a3d342c5bfa24fcb4d187e2297ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 23/25] fix: steps of different workflows could share a docker
 container name

---
 crates/runner/src/executors/docker.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 3dfffcc..0d8918b 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -6,7 +6,11 @@ use crate::{
   utils,
 };
 use astro_run::{Context, Result, RunResult, StreamSender, TriggerEvent};
-use std::path::PathBuf;
+use std::{
+  collections::hash_map::DefaultHasher,
+  hash::{Hash, Hasher},
+  path::PathBuf,
+};
 use tokio::fs;
 
 pub struct DockerExecutor {
@@ -34,7 +38,13 @@ impl Executor for DockerExecutor {
       builder = builder.repository(event.repo_owner, event.repo_name);
     }
 
-    let metadata = builder.build();
+    let mut metadata = builder.build();
+
+    // Workflow ids and job keys may contain dashes: the steps of workflow `a`, job `b-c` and of
+    // workflow `a-b`, job `c` need containers of different names
+    let mut hasher = DefaultHasher::new();
+    ctx.command.id.hash(&mut hasher);
+    metadata.docker_name = format!("{}-{:016x}", metadata.docker_name, hasher.finish());
 
     // Generate docker command
     let mut command = Self::into_command(ctx.clone(), metadata.clone())?;
-- 
2.43.0


From 26dd130e3b8def0a30cce9a44f17ed477985e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:19 +0000
Subject: [PATCH 24/25] fix: keep the host's shell from interpreting the values
 of a docker step's environment

---
 crates/runner/src/docker.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/docker.rs b/crates/runner/src/docker.rs
index 64fc7bd..3a6b241 100644
--- a/crates/runner/src/docker.rs
+++ b/crates/runner/src/docker.rs
@@ -64,6 +64,18 @@ impl Docker {
     self
   }
 
+  /// The shell that runs the command takes these characters literally when they are escaped
+  fn escape(value: &str) -> String {
+    #[cfg(not(target_os = "windows"))]
+    let value = value
+      .replace('\\', "\\\\")
+      .replace('"', "\\\"")
+      .replace('$', "\\$")
+      .replace('`', "\\`");
+
+    value.to_string()
+  }
+
   fn generate_docker_command(&self) -> String {
     let mut docker_command: Vec<String> = ["docker", "run", "--tty"]
       .iter()
@@ -86,7 +98,7 @@ impl Docker {
 
     for (key, value) in &self.environments {
       docker_command.push("-e".to_string());
-      docker_command.push(format!("{}=\"{}\"", key, value));
+      docker_command.push(format!("{}=\"{}\"", key, Self::escape(value)));
     }
 
     if let Some(working_dir) = &self.working_dir {
-- 
2.43.0


From 9d03f4f99a40a85b3806b12e627e709c3e79dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:19 +0000
Subject: [PATCH 25/25] fix: mount volumes that have options into the container
 of a docker step

---
 crates/runner/src/executors/docker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 0d8918b..9c999a9 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -143,7 +143,8 @@ impl DockerExecutor {
 
     if let Some(Some(volumes)) = ctx.command.container.as_ref().map(|c| c.volumes.clone()) {
       for volume in volumes {
-        if let [host_path, container_path] = volume.split(':').collect::<Vec<&str>>()[..] {
+        // The path in the container may be followed by options, such as `/data:/data:ro`
+        if let Some((host_path, container_path)) = volume.split_once(':') {
           docker = docker.volume(host_path, container_path);
         }
       }
-- 
2.43.0

