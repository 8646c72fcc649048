plant("C01-start-retry","C01",[("astro-run/src/execution_context/mod.rs",'''    let mut receiver = match self
      .runner
      .run(Context {
        id: step_id.clone(),
        signal: signal.clone(),
        command: step.into(),
        event: self.condition_matcher.event.clone(),
        payload: self.payload_string(),
      })
      .await
    {
''','''    let context = Context {
      id: step_id.clone(),
      signal: signal.clone(),
      command: step.into(),
      event: self.condition_matcher.event.clone(),
      payload: self.payload_string(),
    };

    // A runner may not be ready yet, give it a second chance
    let response = match self.runner.run(context.clone()).await {
      Err(err) => {
        log::trace!("Starting step {:?} again after {:?}", step_id, err);
        self.runner.run(context).await
      }
      response => response,
    };

    let mut receiver = match response {
''')],'''
#[tokio::main]
async fn main() {
  // The runner starts the work of the first step and then fails to hand out its stream
  let runs = Arc::new(AtomicUsize::new(0));
  let n = runs.clone();
  let engine = AstroRun::builder()
    .runner(FnRunner(move |ctx: Context| {
      if ctx.id.step_number() == 0 {
        n.fetch_add(1, SeqCst);
        return Err(astro_run::Error::error("connection lost after the start"));
      }
      let (tx, rx) = stream();
      tx.succeeded();
      Ok(rx)
    }))
    .build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n      - run: y\\n        continue-on-error: true\\n").await;
  let res = within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  check(res.state == WorkflowState::Failed, "the workflow failed");
  check(runs.load(SeqCst) == 1, format!("the step was handed to the runner {} times", runs.load(SeqCst)));
}
''',"a runner that returns an error from run() for a step","a step whose start fails is handed to the runner a second time, so it may be executed twice")

plant("C02-job-result-lost","C02",[("astro-run/src/workflow/mod.rs",'''      if let Err(err) = sender.send((key.clone(), result)).await {''','''      // The channel has room for the results, no need to wait for the workflow here
      if let Err(err) = sender.try_send((key.clone(), result)) {''')],'''
#[tokio::main(flavor = "current_thread")]
async fn main() {
  // Fifteen jobs that complete before the workflow gets a turn
  let engine = AstroRun::builder()
    .runner(FnRunner(|_| {
      let (tx, rx) = stream();
      tx.succeeded();
      Ok(rx)
    }))
    .build();
  let mut config = String::from("jobs:\\n");
  for i in 0..15 {
    config += &format!("  j{i}:\\n    steps:\\n      - run: x\\n");
  }
  let w = workflow(&engine, "w", &config).await;
  let res = within("workflow", ms(10_000), w.run(engine.execution_context().build())).await;
  check(res.jobs.len() == 15, "every job has a result");
  check(res.state == WorkflowState::Succeeded, "the workflow succeeded");
}
''',"more than ten jobs of a workflow completing before the workflow task takes their results","the result of a job is dropped when the channel is full, and the workflow never ends")

plant("C03-allowed-failure","C03",[("astro-run/src/workflow/job.rs",'''        WorkflowState::Failed => !step.continue_on_error,
''','''        WorkflowState::Failed => failed && !step.continue_on_error,
'''),("astro-run/src/workflow/job.rs",'''    let mut steps = Vec::new();
''','''    let mut steps = Vec::new();
    let mut failed = false;
'''),("astro-run/src/workflow/job.rs",'''      let result = ctx.run(step).await;

      match result.state {
        WorkflowState::Failed => {
''','''      let may_fail = step.continue_on_error;
      let result = ctx.run(step).await;

      match result.state {
        WorkflowState::Failed => {
          // A step that may fail does not stop the ones after it
          failed |= !may_fail;
''')],'''
#[tokio::main]
async fn main() {
  let ran = Arc::new(Mutex::new(vec![]));
  let r = ran.clone();
  let engine = AstroRun::builder()
    .runner(FnRunner(move |ctx: Context| {
      r.lock().unwrap().push(ctx.id.step_number());
      let (tx, rx) = stream();
      if ctx.id.step_number() == 1 {
        tx.failed(3);
      } else {
        tx.succeeded();
      }
      Ok(rx)
    }))
    .build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n      - run: y\\n        continue-on-error: true\\n      - run: z\\n").await;
  let res = within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  let ran = ran.lock().unwrap().clone();
  check(ran == vec![0, 1], format!("steps run: {ran:?}"));
  check(res.jobs["a"].steps[2].state == WorkflowState::Skipped, "the third step is skipped");
}
''',"a failing step that is itself marked continue-on-error, followed by a step that is not","steps run after a failed step although they are not marked continue-on-error")

plant("C04-failed-then-cancelled","C04",[("astro-run/src/workflow/job.rs",'''        WorkflowState::Cancelled => {
          job_state = WorkflowState::Cancelled;
        }
''','''        // A failure is final
        WorkflowState::Cancelled if job_state.is_in_progress() => {
          job_state = WorkflowState::Cancelled;
        }
''')],'''
#[tokio::main]
async fn main() {
  // The first step fails, the job is cancelled while its continue-on-error step runs
  let engine = AstroRun::builder()
    .runner(FnRunner(move |ctx: Context| {
      let (tx, rx) = stream();
      if ctx.id.step_number() == 0 {
        tx.failed(7);
      } else {
        tokio::spawn(async move {
          match ctx.signal.recv().await {
            Signal::Cancel => tx.cancelled(),
            Signal::Timeout => tx.timeout(),
          }
        });
      }
      Ok(rx)
    }))
    .build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n      - run: y\\n        continue-on-error: true\\n").await;
  let e = engine.clone();
  tokio::spawn(async move {
    tokio::time::sleep(ms(500)).await;
    e.cancel_job(&JobId::new("w", "a")).unwrap();
  });
  let res = within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  check(res.jobs["a"].steps[1].state == WorkflowState::Cancelled, "the second step is cancelled");
  check(res.jobs["a"].state == WorkflowState::Cancelled, format!("the job is reported as {:?}", res.jobs["a"].state));
}
''',"a failed step, then a continue-on-error step of the same job that ends cancelled","a job with a cancelled step is reported as failed")

plant("C05-step-completed-background","C05",[("astro-run/src/execution_context/mod.rs",'''    if let Err(err) = self.runner.on_step_completed(result.clone()).await {
      log::error!("Failed to handle step completed: {:?}", err);
    }
''','''    // The job does not have to wait for the runner here
    let runner = self.runner.clone();
    tokio::spawn(async move {
      if let Err(err) = runner.on_step_completed(result).await {
        log::error!("Failed to handle step completed: {:?}", err);
      }
    });
''')],'''
struct Slow(Arc<Mutex<Vec<String>>>);
#[async_trait]
impl Runner for Slow {
  async fn run(&self, _ctx: Context) -> RunResponse {
    let (tx, rx) = stream();
    tx.succeeded();
    Ok(rx)
  }
  async fn on_step_completed(&self, result: StepRunResult) -> HookNoopResult {
    tokio::time::sleep(ms(50)).await;
    self.0.lock().unwrap().push(format!("step {}", result.id.step_number()));
    Ok(())
  }
  async fn on_job_completed(&self, result: JobRunResult) -> HookNoopResult {
    self.0.lock().unwrap().push(format!("job {}", result.id.job_key()));
    Ok(())
  }
}
#[tokio::main]
async fn main() {
  let events = Arc::new(Mutex::new(vec![]));
  let engine = AstroRun::builder().runner(Slow(events.clone())).build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n").await;
  within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  tokio::time::sleep(ms(300)).await;
  let events = events.lock().unwrap().clone();
  check(events == vec!["step 0".to_string(), "job a".to_string()], format!("events: {events:?}"));
}
''',"a runner whose step-completed hook takes longer than the rest of the job","the runner is told about the completion of a step after that of its job or workflow")

plant("C06-cancel-drops-buffered","C06",[("astro-run/src/execution_context/mod.rs",'''            Signal::Cancel => {
              signal.cancel().ok();
            }
''','''            Signal::Cancel => {
              signal.cancel().ok();
              // Nothing left to cancel
              if receiver.result().is_some() {
                break;
              }
            }
''')],'''
#[tokio::main]
async fn main() {
  let engine: Arc<Mutex<Option<AstroRun>>> = Arc::new(Mutex::new(None));
  let lines = Arc::new(AtomicUsize::new(0));
  let (e, n) = (engine.clone(), lines.clone());
  let built = AstroRun::builder()
    .plugin(
      AstroRunPlugin::builder("canceller")
        .on_log(move |_| {
          if n.fetch_add(1, SeqCst) == 0 {
            e.lock().unwrap().as_ref().unwrap().cancel_job(&JobId::new("w", "a")).unwrap();
          }
          Ok(())
        })
        .build(),
    )
    .runner(FnRunner(|_| {
      let (tx, rx) = stream();
      for i in 0..500 {
        tx.log(format!("line {i}"));
      }
      tx.succeeded();
      Ok(rx)
    }))
    .build();
  *engine.lock().unwrap() = Some(built.clone());
  let w = workflow(&built, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n").await;
  within("workflow", ms(20_000), w.run(built.execution_context().build())).await;
  check(lines.load(SeqCst) == 500, format!("{} of 500 lines delivered", lines.load(SeqCst)));
}
''',"a cancellation accepted after the runner has ended the step but before all its buffered lines were delivered","lines a step logged before its end are lost")

plant("C07-timeout-via-job","C07",[("astro-run/src/execution_context/mod.rs",'''          // Ignore error
          signal.timeout().ok();
''','''          // Ignore error, the step is signalled below
          job_signal.timeout().ok();
''')],'''
#[tokio::main]
async fn main() {
  // Two steps of a job time out
  let engine = AstroRun::builder()
    .runner(FnRunner(|ctx: Context| {
      let (tx, rx) = stream();
      tokio::spawn(async move {
        match ctx.signal.recv().await {
          Signal::Cancel => tx.cancelled(),
          Signal::Timeout => tx.timeout(),
        }
      });
      Ok(rx)
    }))
    .build();
  let w = workflow(
    &engine,
    "w",
    "jobs:\\n  a:\\n    steps:\\n      - run: x\\n        timeout: 100ms\\n      - run: y\\n        timeout: 100ms\\n        continue-on-error: true\\n",
  )
  .await;
  let res = within("workflow", ms(10_000), w.run(engine.execution_context().build())).await;
  check(res.jobs["a"].steps.iter().all(|s| s.exit_code == Some(123)), "both steps timed out");
}
''',"a second step of the same job running into its timeout","the second timeout within a job never reaches the step (and a job can no longer be cancelled after a timeout)")

plant("C08-unregister-late","C08",[("astro-run/src/execution_context/mod.rs",'''    self.signal_manager.unregister_signal(&result.id);
    self.plugin_driver.on_job_completed(result.clone()).await;

    if let Err(err) = self.runner.on_job_completed(result).await {
      log::error!("Failed to handle job completed: {:?}", err);
    }
''','''    let id = result.id.clone();
    self.plugin_driver.on_job_completed(result.clone()).await;

    if let Err(err) = self.runner.on_job_completed(result).await {
      log::error!("Failed to handle job completed: {:?}", err);
    }

    self.signal_manager.unregister_signal(&id);
''')],'''
#[tokio::main]
async fn main() {
  let engine: Arc<Mutex<Option<AstroRun>>> = Arc::new(Mutex::new(None));
  let accepted = Arc::new(AtomicUsize::new(0));
  let (e, n) = (engine.clone(), accepted.clone());
  let built = AstroRun::builder()
    .plugin(
      AstroRunPlugin::builder("canceller")
        .on_job_completed(move |result| {
          if e.lock().unwrap().as_ref().unwrap().cancel_job(&result.id).is_ok() {
            n.fetch_add(1, SeqCst);
          }
          Ok(())
        })
        .build(),
    )
    .runner(FnRunner(|_| {
      let (tx, rx) = stream();
      tx.succeeded();
      Ok(rx)
    }))
    .build();
  *engine.lock().unwrap() = Some(built.clone());
  let w = workflow(&built, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n").await;
  within("workflow", ms(20_000), w.run(built.execution_context().build())).await;
  check(accepted.load(SeqCst) == 0, "a finished job could be cancelled");
}
''',"a cancellation requested while the completion of the job is being announced","cancelling a job that has already finished is accepted")

plant("C09-stale-waker","C09",[("astro-run/src/stream.rs",'''    state.waker = Some(cx.waker().clone());

    let logs''','''    state.waker.get_or_insert_with(|| cx.waker().clone());

    let logs''')],'''
#[tokio::main]
async fn main() {
  // The receiver is first polled by one task and then awaited by another one
  let (tx, mut rx) = stream();
  let first = tokio::spawn(async move {
    let waiting = tokio::time::timeout(ms(50), rx.next()).await;
    assert!(waiting.is_err());
    rx
  });
  let mut rx = first.await.unwrap();
  let second = tokio::spawn(async move {
    let mut lines = vec![];
    while let Some(line) = rx.next().await {
      lines.push(line.message);
    }
    (lines, rx.result())
  });
  tokio::time::sleep(ms(200)).await;
  tx.log("a");
  tx.succeeded();
  let (lines, result) = within("stream", ms(5_000), second).await.unwrap();
  check(lines == vec!["a".to_string()], "the line arrived");
  check(result == Some(RunResult::Succeeded), "the result arrived");
}
''',"a receiver polled by one task and then awaited by another","the task waiting for a line or the end is never woken")

plant("C09-lost-wakeup","C09",[("astro-run/src/stream.rs",'''    let mut state = self.state.lock();
    state.waker = Some(cx.waker().clone());

    let logs = state.logs.clone();
    let total = logs.len();
''','''    // Sending goes on while the lines are looked at
    let (logs, is_ended) = {
      let state = self.state.lock();
      (state.logs.clone(), state.result.is_some())
    };
    let total = logs.len();
'''),("astro-run/src/stream.rs",'''    if state.result.is_some() {
      return std::task::Poll::Ready(None);
    }

    std::task::Poll::Pending
''','''    if is_ended {
      return std::task::Poll::Ready(None);
    }

    self.state.lock().waker = Some(cx.waker().clone());

    std::task::Poll::Pending
''')],'''
#[tokio::main(flavor = "multi_thread", worker_threads = 4)]
async fn main() {
  // Threads that end streams against tasks that read them
  for round in 0..60_000 {
    let (tx, mut rx) = stream();
    let go = Arc::new(AtomicUsize::new(0));
    let g = go.clone();
    let sender = tokio::task::spawn_blocking(move || {
      g.fetch_add(1, SeqCst);
      while g.load(SeqCst) < 2 {
        std::hint::spin_loop();
      }
      for _ in 0..(round % 97) * 3 {
        std::hint::spin_loop();
      }
      tx.succeeded();
    });
    let reader = tokio::spawn(async move {
      go.fetch_add(1, SeqCst);
      while go.load(SeqCst) < 2 {
        std::hint::spin_loop();
      }
      while rx.next().await.is_some() {}
    });
    sender.await.unwrap();
    within("stream", ms(5_000), reader).await.unwrap();
  }
}
''',"a stream ended by another thread between the consumer's look at the lines and its registration for being woken","the consumer of a stream waits forever")

plant("C10-double-accept","C10",[("astro-run/src/signals/signal.rs",'''  pub fn cancel(&self) -> Result<()> {
    let mut state = self.state.lock();
    if state.signal.is_some() {
      return Err(Error::error("Signal has been cancelled or timeout."));
    }

    state.signal''','''  pub fn cancel(&self) -> Result<()> {
    if self.is_cancelled() || self.is_timeout() {
      return Err(Error::error("Signal has been cancelled or timeout."));
    }

    let mut state = self.state.lock();
    state.signal''')],'''
fn main() {
  // Two threads raise the same signal at the same time
  for round in 0..400_000u64 {
    let signal = AstroRunSignal::new();
    let go = Arc::new(AtomicUsize::new(0));
    if round % 1000 == 0 && round > 0 {
      std::thread::yield_now();
    }
    let accepted = PAIR.with(|pair| pair.run(signal.clone()));
    check(accepted == 1, format!("{accepted} requests were accepted"));
  }
}
thread_local! { static PAIR: Pair = Pair::new(); }
/// A second thread that takes part in every round
struct Pair {
  to: std::sync::mpsc::Sender<(AstroRunSignal, Arc<AtomicUsize>)>,
  from: std::sync::mpsc::Receiver<bool>,
}
impl Pair {
  fn new() -> Self {
    let (to, inbox) = std::sync::mpsc::channel::<(AstroRunSignal, Arc<AtomicUsize>)>();
    let (outbox, from) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
      for (signal, go) in inbox {
        go.fetch_add(1, SeqCst);
        while go.load(SeqCst) < 2 {
          std::hint::spin_loop();
        }
        outbox.send(signal.cancel().is_ok()).unwrap();
      }
    });
    Pair { to, from }
  }
  fn run(&self, signal: AstroRunSignal) -> usize {
    let go = Arc::new(AtomicUsize::new(0));
    self.to.send((signal.clone(), go.clone())).unwrap();
    go.fetch_add(1, SeqCst);
    while go.load(SeqCst) < 2 {
      std::hint::spin_loop();
    }
    let mine = signal.cancel().is_ok();
    let theirs = self.from.recv().unwrap();
    mine as usize + theirs as usize
  }
}
''',"two threads raising one signal at the same instant","both requests are accepted, and the kind observers see may change")

REMOTE='''
struct NoPlugin;
impl Plugin for NoPlugin {
  fn name(&self) -> &'static str {
    "none"
  }
}
async fn serve(port: u16, id: &str, runner: impl Runner + 'static, plugin: impl Plugin + 'static) {
  let b = astro_run_remote_runner::AstroRunRemoteRunnerServer::builder().id(id).support_docker(true).runner(runner).plugin(plugin);
  let server = b.build().unwrap();
  tokio::spawn(async move {
    server.serve(&format!("127.0.0.1:{port}")).await.unwrap();
  });
  tokio::time::sleep(ms(300)).await;
}
fn port() -> u16 {
  std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}
async fn connect(urls: Vec<String>) -> astro_run_remote_runner::AstroRunRemoteRunnerClient {
  let client = astro_run_remote_runner::AstroRunRemoteRunnerClient::builder().build().unwrap();
  let mut c = client.clone();
  tokio::spawn(async move { c.start(urls).await });
  tokio::time::sleep(ms(800)).await;
  client
}
'''
plant("C11-burst-dropped","C11",[("remote-runner/src/runner_server.rs",'''        if let Err(err) = sender.send(Ok(RunResponse::log(id.clone(), log))).await {''','''        if let Err(err) = sender.try_send(Ok(RunResponse::log(id.clone(), log))) {''')],REMOTE+'''
#[tokio::main]
async fn main() {
  let p = port();
  serve(p, "r", FnRunner(|_| {
    let (tx, rx) = stream();
    for i in 0..5000 {
      tx.log(format!("line {i}"));
    }
    tx.succeeded();
    Ok(rx)
  }), NoPlugin).await;
  let client = connect(vec![format!("http://127.0.0.1:{p}")]).await;
  let lines = Arc::new(Mutex::new(vec![]));
  let l = lines.clone();
  let engine = AstroRun::builder()
    .plugin(AstroRunPlugin::builder("p").on_log(move |log| { l.lock().unwrap().push(log.message); Ok(()) }).build())
    .runner(client)
    .build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n").await;
  let res = within("workflow", ms(60_000), w.run(engine.execution_context().build())).await;
  check(res.state == WorkflowState::Succeeded, "succeeded");
  let lines = lines.lock().unwrap();
  check(lines.len() == 5000, format!("{} of 5000 lines arrived", lines.len()));
}
''',"a remote step that logs faster than the network takes it (more than 30 lines ahead)","log lines of a remote step are lost")

plant("C12-run-retry","C12",[("remote-runner/src/client.rs",'''    let response = client.client.run(context.clone()).await.map_err(|e| {''','''    let response = match client.client.run(context.clone()).await {
      // The connection may have been idle for too long, it is established again by the next request
      Err(e) if e.code() == tonic::Code::Unknown || e.code() == tonic::Code::Unavailable => {
        client.client.run(context.clone()).await
      }
      response => response,
    };

    let response = response.map_err(|e| {''')],REMOTE+'''
use tokio::io::{AsyncReadExt, AsyncWriteExt};
#[tokio::main]
async fn main() {
  // A proxy that breaks the connection once the runner has got the step, before it has answered
  let (p, q) = (port(), port());
  let runs = Arc::new(AtomicUsize::new(0));
  let cut = Arc::new(tokio::sync::Notify::new());
  let (n, c) = (runs.clone(), cut.clone());
  let slow = Arc::new(AtomicBool::new(false));
  serve(p, "r", FnRunner(move |_| {
    if n.fetch_add(1, SeqCst) == 0 {
      c.notify_one();
    }
    let (tx, rx) = stream();
    tx.succeeded();
    Ok(rx)
  }), NoPlugin).await;
  let listener = tokio::net::TcpListener::bind(("127.0.0.1", q)).await.unwrap();
  let s = slow.clone();
  tokio::spawn(async move {
    loop {
      let (client, _) = listener.accept().await.unwrap();
      let server = tokio::net::TcpStream::connect(("127.0.0.1", p)).await.unwrap();
      let (mut cr, mut cw) = client.into_split();
      let (mut sr, mut sw) = server.into_split();
      let (slow, cut) = (s.clone(), cut.clone());
      let slow2 = slow.clone();
      let up = tokio::spawn(async move { tokio::io::copy(&mut cr, &mut sw).await.ok(); });
      let down = tokio::spawn(async move {
        let mut buf = vec![0; 4096];
        while let Ok(n) = sr.read(&mut buf).await {
          if n == 0 { break; }
          if slow.load(SeqCst) { tokio::time::sleep(ms(2_000)).await; }
          if cw.write_all(&buf[..n]).await.is_err() { break; }
        }
      });
      tokio::spawn(async move {
        cut.notified().await;
        up.abort();
        down.abort();
        slow2.store(false, SeqCst);
      });
    }
  });
  let client = connect(vec![format!("http://127.0.0.1:{q}")]).await;
  slow.store(true, SeqCst);
  let (tx, _rx) = stream();
  let ctx = Context { id: StepId::new("w", "a", 0), signal: AstroRunSignal::new(), command: Default::default(), event: None, payload: None };
  let mut ctx = ctx;
  ctx.command.id = ctx.id.clone();
  let mut rx = client.run(ctx).await.unwrap();
  within("step", ms(30_000), async { while rx.next().await.is_some() {} }).await;
  tokio::time::sleep(ms(500)).await;
  check(runs.load(SeqCst) == 1, format!("the step was executed {} times, reported as {:?}", runs.load(SeqCst), rx.result()));
}
''',"a connection that breaks after the runner has received a step and before its response has arrived","the step is executed a second time")

plant("C13-background-logs","C13",[("remote-runner/src/runner_server.rs",'''      ProtocolEvent::StepLog(log) => {
        self.plugin_driver.on_log(log.clone()).await;
        if let Err(err) = self.runner.on_log(log).await {
          log::error!("Failed to handle log event: {}", err);
        }
      }
''','''      ProtocolEvent::StepLog(log) => {
        // Logs are frequent, do not let the client wait for their hooks
        let plugin_driver = self.plugin_driver.clone();
        let runner = self.runner.clone();
        tokio::spawn(async move {
          plugin_driver.on_log(log.clone()).await;
          if let Err(err) = runner.on_log(log).await {
            log::error!("Failed to handle log event: {}", err);
          }
        });
      }
''')],REMOTE+'''
struct Observer(Arc<Mutex<Vec<String>>>);
#[async_trait]
impl Plugin for Observer {
  fn name(&self) -> &'static str {
    "observer"
  }
  async fn on_log(&self, log: WorkflowLog) -> HookNoopResult {
    // The first line takes longer to handle
    if log.message == "0" {
      tokio::time::sleep(ms(200)).await;
    }
    self.0.lock().unwrap().push(log.message);
    Ok(())
  }
}
#[tokio::main]
async fn main() {
  let p = port();
  let lines = Arc::new(Mutex::new(vec![]));
  let observer = Observer(lines.clone());
  serve(p, "r", FnRunner(|_| {
    let (tx, rx) = stream();
    for i in 0..10 {
      tx.log(i.to_string());
    }
    tx.succeeded();
    Ok(rx)
  }), observer).await;
  let client = connect(vec![format!("http://127.0.0.1:{p}")]).await;
  let engine = AstroRun::builder().runner(client).build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n").await;
  within("workflow", ms(60_000), w.run(engine.execution_context().build())).await;
  tokio::time::sleep(ms(1_500)).await;
  let lines = lines.lock().unwrap().clone();
  let expected: Vec<String> = (0..10).map(|i| i.to_string()).collect();
  check(lines == expected, format!("lines seen by the plugin of the remote runner: {lines:?}"));
}
''',"a plugin or runner hook on the remote runner that takes longer for one log line than for the next","the remote runner's plugins see log lines out of order")

plant("C14-register-after-start","C14",[("remote-runner/src/runner_server.rs",'''    ctx: astro_run::Context,
    registration: SignalRegistration,
  ) {
    let id = ctx.id.clone();

    tokio::spawn(async move {
      let _registration = registration;
      let mut stream = runner.run(ctx).await?;
''','''    signals: SharedSignals,
    ctx: astro_run::Context,
  ) {
    let id = ctx.id.clone();

    tokio::spawn(async move {
      let context = ctx.clone();
      let mut stream = runner.run(ctx).await?;

      // Only a step that has been started can be signalled
      let _registration = SignalRegistration::new(signals, &context);
'''),("remote-runner/src/runner_server.rs",'''    let context = request.into_inner();

    let registration = SignalRegistration::new(self.signals.clone(), &context);

    let runner = self.runner.clone();

    Self::run(runner, tx, context, registration);
''','''    Self::run(self.runner.clone(), tx, self.signals.clone(), request.into_inner());
''')],REMOTE+'''
struct SlowStart;
#[async_trait]
impl Runner for SlowStart {
  async fn run(&self, ctx: Context) -> RunResponse {
    // Preparing the environment takes a moment
    tokio::time::sleep(ms(1_500)).await;
    let (tx, rx) = stream();
    tokio::spawn(async move {
      match ctx.signal.recv().await {
        Signal::Cancel => tx.cancelled(),
        Signal::Timeout => tx.timeout(),
      }
    });
    Ok(rx)
  }
}
#[tokio::main]
async fn main() {
  let p = port();
  serve(p, "r", SlowStart, NoPlugin).await;
  let client = connect(vec![format!("http://127.0.0.1:{p}")]).await;
  let engine = AstroRun::builder().runner(client).build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n").await;
  let e = engine.clone();
  tokio::spawn(async move {
    tokio::time::sleep(ms(600)).await;
    e.cancel_job(&JobId::new("w", "a")).unwrap();
  });
  let res = within("workflow", ms(10_000), w.run(engine.execution_context().build())).await;
  check(res.jobs["a"].steps[0].state == WorkflowState::Cancelled, "the step was cancelled");
}
''',"a cancellation or timeout that arrives while the remote runner is still preparing the step (its run() has not returned)","the signal is dropped and the step runs on")

plant("C15-count-dropped","C15",[("scheduler/src/default.rs",'''      if *runs_count <= 0 {''','''      if *runs_count <= 1 {''')],'''
use astro_run_scheduler::{DefaultScheduler, RunnerMetadata, Scheduler};
fn ctx(job: &str, n: usize) -> Context {
  let id = StepId::new("w", job, n);
  let mut c = Context { id: id.clone(), signal: AstroRunSignal::new(), command: Default::default(), event: None, payload: None };
  c.command.id = id;
  c
}
fn done(job: &str, n: usize) -> StepRunResult {
  StepRunResult { id: StepId::new("w", job, n), state: WorkflowState::Succeeded, exit_code: None, started_at: None, completed_at: None }
}
#[tokio::main]
async fn main() {
  let s = DefaultScheduler::new();
  let r = |id: &str| RunnerMetadata { id: id.to_string(), support_docker: true, ..Default::default() };
  // Two steps on the first runner, one of them completes; one step on the second runner
  let one = vec![r("a")];
  s.schedule(&one, &ctx("j0", 0)).await.unwrap();
  s.schedule(&one, &ctx("j1", 0)).await.unwrap();
  s.on_step_completed(done("j0", 0));
  let n = s.state.lock().runs_count.get("a").cloned();
  check(n == Some(1), format!("one step is in progress: {n:?}"));
  let two = vec![r("a"), r("b")];
  check(s.schedule(&two, &ctx("j2", 0)).await.unwrap().id == "b", "the idle runner is chosen");
}
''',"two steps in progress on one runner, one of which completes","the runner counts as idle while a step is in progress, so the next job goes to it instead of an idle one")

plant("C15-reuse-uncounted","C15",[("scheduler/src/default.rs",'''      let runs_count = state.runs_count.entry(runner.id.clone()).or_insert(0);
      *runs_count += 1;

      if !is_runs_on_host {
        // Update job runner
        state.job_runners.insert(job_id, runner.id.clone());
      }
''','''      let is_reused = state.job_runners.get(&job_id) == Some(&runner.id);
      let runs_count = state.runs_count.entry(runner.id.clone()).or_insert(0);
      // The job is counted already
      if !is_reused || *runs_count == 0 {
        *runs_count += 1;
      }

      if !is_runs_on_host {
        // Update job runner
        state.job_runners.insert(job_id, runner.id.clone());
      }
''')],'''
use astro_run_scheduler::{DefaultScheduler, RunnerMetadata, Scheduler};
fn ctx(job: &str, n: usize) -> Context {
  let id = StepId::new("w", job, n);
  let mut c = Context { id: id.clone(), signal: AstroRunSignal::new(), command: Default::default(), event: None, payload: None };
  c.command.id = id;
  c
}
fn done(job: &str, n: usize) -> StepRunResult {
  StepRunResult { id: StepId::new("w", job, n), state: WorkflowState::Succeeded, exit_code: None, started_at: None, completed_at: None }
}
#[tokio::main]
async fn main() {
  let s = DefaultScheduler::new();
  let r = |id: &str| RunnerMetadata { id: id.to_string(), support_docker: true, ..Default::default() };
  let one = vec![r("a")];
  s.schedule(&one, &ctx("j0", 0)).await.unwrap();
  s.schedule(&one, &ctx("j1", 0)).await.unwrap();
  s.on_step_completed(done("j0", 0));
  // The second step of the first job runs beside the first step of the second one
  s.schedule(&one, &ctx("j0", 1)).await.unwrap();
  let n = s.state.lock().runs_count.get("a").cloned();
  check(n == Some(2), format!("two steps are in progress: {n:?}"));
}
''',"two jobs on one runner, one of which goes on to its next docker step","a step in progress is not counted, so that runners with work look less loaded than they are")

plant("C16-killed-succeeds","C16",[("runner/src/command.rs",'''    let res = status
      .code()
      .map(|code| {
        if code == 0 {
          RunResult::Succeeded
        } else {
          RunResult::Failed { exit_code: code }
        }
      })
      .unwrap_or_else(|| RunResult::Failed { exit_code: 1 });
''','''    let res = match status.code().unwrap_or_default() {
      0 => RunResult::Succeeded,
      code => RunResult::Failed { exit_code: code },
    };
''')],'''
#[tokio::main]
async fn main() {
  let dir = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap());
  let runner = astro_runner::AstroRunner::builder().working_directory(dir).build().unwrap();
  let engine = AstroRun::builder().runner(runner).build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: echo a; kill -9 $$\\n        container: host/linux\\n").await;
  let res = within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  let step = &res.jobs["a"].steps[0];
  check(step.state == WorkflowState::Failed && step.exit_code == Some(1), format!("a killed command is reported as {:?}", step.state));
}
''',"a command that is killed by a signal (out of memory, say)","a killed command is reported as succeeded")

plant("C17-after-run-skipped","C17",[("runner/src/astro_runner.rs",'''      if !sender.is_ended() {
        sender.end(RunResult::Failed { exit_code: 1 });
      }

      plugins.on_after_run(ctx).await;
''','''      if !sender.is_ended() {
        sender.end(RunResult::Failed { exit_code: 1 });
        // It has not been run
        return;
      }

      plugins.on_after_run(ctx).await;
''')],'''
struct Count(Arc<AtomicUsize>, Arc<AtomicUsize>);
#[async_trait]
impl astro_runner::Plugin for Count {
  fn name(&self) -> &'static str {
    "count"
  }
  async fn on_before_run(&self, ctx: Context) -> astro_run::Result<Context> {
    self.0.fetch_add(1, SeqCst);
    Ok(ctx)
  }
  async fn on_after_run(&self, _ctx: Context) -> HookNoopResult {
    self.1.fetch_add(1, SeqCst);
    Ok(())
  }
}
#[tokio::main]
async fn main() {
  // A working directory that cannot be created
  let dir = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap()).join("file");
  std::fs::write(&dir, "x").unwrap();
  let (before, after) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
  let runner = astro_runner::AstroRunner::builder()
    .plugin(Count(before.clone(), after.clone()))
    .working_directory(dir)
    .build()
    .unwrap();
  let engine = AstroRun::builder().runner(runner).build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: echo a\\n        container: host/linux\\n").await;
  let res = within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  check(res.state == WorkflowState::Failed, "the workflow failed");
  tokio::time::sleep(ms(300)).await;
  let n = (before.load(SeqCst), after.load(SeqCst));
  check(n == (1, 1), format!("before-run and after-run hooks called {n:?} times"));
}
''',"a file-system error while the environment of a step is prepared","the after-run hook of the plugins is not called for a step whose before-run hook was")

DOCKER='''
fn stub_docker(dir: &std::path::Path) {
  // Stands in for docker: runs the script mounted as the entrypoint, a "kill" ends it
  use std::os::unix::fs::PermissionsExt;
  let bin = dir.join("bin");
  std::fs::create_dir_all(&bin).unwrap();
  let f = bin.join("docker");
  std::fs::write(&f, "#!/bin/sh\\nif [ \\"$1\\" = run ]; then\\n  for a in \\"$@\\"; do case \\"$a\\" in *:/home/work/runner/entrypoint) e=\\"${a%%:*}\\";; esac; done\\n  cp \\"$e\\" \\"$DEMO_SCRATCH/script\\"\\n  exec sh \\"$e\\"\\nfi\\n").unwrap();
  std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
  std::env::set_var("PATH", format!("{}:{}", bin.display(), std::env::var("PATH").unwrap()));
}
'''
plant("C17-shebang-trim","C17",[("runner/src/utils.rs",'''  if !content.starts_with("#!") {''','''  if !content.trim_start().starts_with("#!") {''')],DOCKER+'''
#[tokio::main]
async fn main() {
  let dir = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap());
  stub_docker(&dir);
  let runner = astro_runner::AstroRunner::builder().working_directory(dir.join("w")).build().unwrap();
  let engine = AstroRun::builder().runner(runner).build();
  let run = "  #!not a shebang\\necho a\\n";
  let mut w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n").await;
  w.jobs.get_mut("a").unwrap().steps[0].run = run.to_string();
  within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  let script = std::fs::read_to_string(dir.join("script")).unwrap();
  check(script == format!("#!/bin/sh\\n{run}"), format!("the script is {script:?}"));
}
''',"a command that begins with white space followed by #!","the script of a docker step has no interpreter line, and cannot be executed as an entrypoint")

plant("C18-raised-timeout-runs","C18",[("runner/src/executors/host.rs",'''    let is_completed = ctx.signal.is_cancelled() || ctx.signal.is_timeout();
''','''    let is_completed = ctx.signal.is_cancelled();
''')],'''
#[tokio::main]
async fn main() {
  let dir = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap());
  let runner = astro_runner::AstroRunner::builder().working_directory(dir.join("w")).build().unwrap();
  for i in 0..40 {
    let signal = AstroRunSignal::new();
    signal.timeout().unwrap();
    let mut ctx = Context { id: StepId::new("w", "a", i), signal, command: Default::default(), event: None, payload: None };
    ctx.command.id = ctx.id.clone();
    ctx.command.container = Some(astro_run::ContainerOptions { name: "host/linux".into(), volumes: None, security_opts: None });
    ctx.command.run = format!("touch {}/ran", dir.display());
    let mut rx = runner.run(ctx).await.unwrap();
    within("step", ms(10_000), async { while rx.next().await.is_some() {} }).await;
    check(rx.result() == Some(RunResult::Failed { exit_code: 123 }), "reported as timed out");
    check(!dir.join("w/w/a/data").exists(), "the environment of a step that is already timed out was prepared");
  }
  tokio::time::sleep(ms(300)).await;
  check(!dir.join("ran").exists(), "a step that was already timed out ran its command");
}
''',"a host step whose timeout signal was raised before the runner is asked to run it","the command of a step that has already timed out is started")

plant("C19-prune-repository","C19",[("runner/src/astro_runner.rs",'''    if let Some(event) = event {
      directory = directory.join(&event.repo_owner).join(&event.repo_name);
    }

    directory = directory.join(result.id.inner());

    if directory.exists() {
      fs::remove_dir_all(directory)?;
    }
''','''    let is_idle = self.state.lock().workflow_events.is_empty();

    if let Some(event) = event {
      directory = directory.join(&event.repo_owner).join(&event.repo_name);

      // Leave nothing behind when no other workflow of the repository is running
      if is_idle && directory.exists() {
        fs::remove_dir_all(&directory)?;
      }
    }

    directory = directory.join(result.id.inner());

    if directory.exists() {
      fs::remove_dir_all(directory)?;
    }
''')],'''
#[tokio::main]
async fn main() {
  let dir = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap()).join("w");
  let runner = astro_runner::AstroRunner::builder().working_directory(dir.clone()).build().unwrap();
  let engine = AstroRun::builder().runner(runner).build();
  let caches = dir.join("panghu-huang/astro-run/caches");
  std::fs::create_dir_all(&caches).unwrap();
  std::fs::write(caches.join("registry"), "x").unwrap();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: touch a\\n        container: host/linux\\n").await;
  let ctx = engine.execution_context().event(TriggerEvent::default()).build();
  within("workflow", ms(20_000), w.run(ctx)).await;
  check(caches.join("registry").exists(), "the caches of the repository were removed with the workflow");
  check(!dir.join("panghu-huang/astro-run/w").exists(), "the files of the workflow are removed");
}
''',"a workflow with a trigger event that completes while no other one has run a step on the runner, in a repository with caches or files of a workflow that has not run a step yet","completing a workflow removes the cached files of its repository")

plant("C20-failure-cached","C20",[("astro-run/src/execution_context/condition_matcher.rs",'''        log::trace!("Failed to get condition payload: {}", err);

        true
''','''        log::trace!("Failed to get condition payload: {}", err);

        // Do not ask again in this run
        let TriggerEvent { event, branch, .. } = self.event.clone().unwrap();
        *self.payload.lock() = Some(ConditionPayload {
          event,
          branch,
          paths: vec![],
        });

        true
''')],'''
#[tokio::main]
async fn main() {
  // The hosting API cannot be reached, there is no network
  let engine = AstroRun::builder()
    .github_personal_token("token")
    .runner(FnRunner(|_| {
      let (tx, rx) = stream();
      tx.succeeded();
      Ok(rx)
    }))
    .build();
  let w = workflow(
    &engine,
    "w",
    "jobs:\\n  a:\\n    steps:\\n      - run: x\\n        on:\\n          push:\\n            paths:\\n              - src/**\\n      - run: y\\n        on:\\n          push:\\n            paths:\\n              - src/**\\n",
  )
  .await;
  // An address that is refused at once, whatever the network
  std::env::set_var("HTTPS_PROXY", "http://127.0.0.1:1");
  std::env::set_var("https_proxy", "http://127.0.0.1:1");
  let ctx = engine.execution_context().event(TriggerEvent { sha: "0000".into(), ..Default::default() }).build();
  let res = within("workflow", ms(60_000), w.run(ctx)).await;
  let states: Vec<_> = res.jobs["a"].steps.iter().map(|s| s.state.clone()).collect();
  check(states.iter().all(|s| *s == WorkflowState::Succeeded), format!("the steps are {states:?}"));
}
''',"a failing hosting API and a second condition on paths in the same run","conditions after the first one are decided on an empty list of files instead of being treated as matching")

plant("C21-unregister-key","C21",[("astro-run/src/signals/mod.rs",'''    self.signals.lock().remove(job_id);
''','''    let key = job_id.job_key();
    self.signals.lock().retain(|id, _| id.job_key() != key);
''')],'''
#[tokio::main]
async fn main() {
  // Two workflows with a job of the same name, the first one completes while the second one runs
  let engine = AstroRun::builder()
    .runner(FnRunner(|ctx: Context| {
      let (tx, rx) = stream();
      tokio::spawn(async move {
        if ctx.command.run == "wait" {
          match ctx.signal.recv().await {
            Signal::Cancel => tx.cancelled(),
            Signal::Timeout => tx.timeout(),
          }
        } else {
          tokio::time::sleep(ms(200)).await;
          tx.succeeded();
        }
      });
      Ok(rx)
    }))
    .build();
  let a = workflow(&engine, "a", "jobs:\\n  build:\\n    steps:\\n      - run: x\\n").await;
  let b = workflow(&engine, "b", "jobs:\\n  build:\\n    steps:\\n      - run: wait\\n        timeout: 5s\\n").await;
  let ctx = engine.execution_context().build();
  let second = tokio::spawn(async move { b.run(ctx).await });
  tokio::time::sleep(ms(100)).await;
  within("workflow", ms(20_000), a.run(engine.execution_context().build())).await;
  check(engine.cancel_job(&JobId::new("b", "build")).is_ok(), "the job of the second workflow can be cancelled");
  let res = within("workflow", ms(20_000), second).await.unwrap();
  check(res.state == WorkflowState::Cancelled, "the second workflow is cancelled");
}
''',"two workflows with a job of the same key at the same time, one of which completes that job first","the job of the other workflow can no longer be cancelled, and its next step panics")

plant("C22-failed-hook-resets","C22",[("astro-run/src/plugins/plugin_driver.rs",'''    let mut step = step;
    for plugin in &self.plugins {
      match plugin.on_before_run_step(step.clone()).await {
        Ok(new_step) => step = new_step,
        Err(err) => {
''','''    let original = step;
    let mut step = original.clone();
    for plugin in &self.plugins {
      match plugin.on_before_run_step(step.clone()).await {
        Ok(new_step) => step = new_step,
        Err(err) => {
          step = original.clone();
''')],'''
#[tokio::main]
async fn main() {
  let ran = Arc::new(Mutex::new(vec![]));
  let r = ran.clone();
  let engine = AstroRun::builder()
    .plugin(AstroRunPlugin::builder("first").on_before_run_step(|mut step| { step.run += "+1"; Ok(step) }).build())
    .plugin(AstroRunPlugin::builder("failing").on_before_run_step(|_| Err(astro_run::Error::error("x"))).build())
    .plugin(AstroRunPlugin::builder("last").on_before_run_step(|mut step| { step.run += "+2"; Ok(step) }).build())
    .runner(FnRunner(move |ctx: Context| {
      r.lock().unwrap().push(ctx.command.run);
      let (tx, rx) = stream();
      tx.succeeded();
      Ok(rx)
    }))
    .build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n").await;
  within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  let ran = ran.lock().unwrap().clone();
  check(ran == vec!["x+1+2".to_string()], format!("the runner got {ran:?}"));
}
''',"a plugin whose before-run-step hook fails after another plugin has changed the step","the changes of the plugins before the failing one are lost")

plant("C23-subsecond-timeout","C23",[("astro-run/src/workflow/step.rs",'''      secrets: command.secrets,
      timeout: command.timeout,
      on: None,
''','''      secrets: command.secrets,
      timeout: Duration::from_secs(command.timeout.as_secs()),
      on: None,
''')],REMOTE+'''
#[tokio::main]
async fn main() {
  let p = port();
  let seen = Arc::new(Mutex::new(None));
  let s = seen.clone();
  serve(p, "r", FnRunner(move |ctx: Context| {
    *s.lock().unwrap() = Some(ctx.command.timeout);
    let (tx, rx) = stream();
    tx.succeeded();
    Ok(rx)
  }), NoPlugin).await;
  let client = connect(vec![format!("http://127.0.0.1:{p}")]).await;
  let engine = AstroRun::builder().runner(client).build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n        timeout: 2500ms\\n").await;
  within("workflow", ms(60_000), w.run(engine.execution_context().build())).await;
  let seen = *seen.lock().unwrap();
  check(seen == Some(ms(2_500)), format!("the timeout arrived as {seen:?}"));
}
''',"a remote runner and a timeout that is not a whole number of seconds","the timeout of a step is cut to whole seconds on its way through the remote hooks")

plant("C05-hook-failure-stops","C05",[("astro-run/src/plugins/plugin_driver.rs",'''  pub async fn on_job_completed(&self, result: JobRunResult) {
    for plugin in &self.plugins {
      if let Err(err) = plugin.on_job_completed(result.clone()).await {
        log::error!(
          "Plugin {} failed to handle job completed: {}",
          plugin.name(),
          err
        );
      }
    }
  }
''','''  pub async fn on_job_completed(&self, result: JobRunResult) {
    if let Err(err) = self.notify_job_completed(result).await {
      log::error!("A plugin failed to handle job completed: {}", err);
    }
  }

  async fn notify_job_completed(&self, result: JobRunResult) -> crate::Result<()> {
    for plugin in &self.plugins {
      plugin.on_job_completed(result.clone()).await?;
    }

    Ok(())
  }
''')],'''
#[tokio::main]
async fn main() {
  let seen = Arc::new(AtomicUsize::new(0));
  let s = seen.clone();
  let engine = AstroRun::builder()
    .plugin(AstroRunPlugin::builder("failing").on_job_completed(|_| Err(astro_run::Error::error("x"))).build())
    .plugin(AstroRunPlugin::builder("observer").on_job_completed(move |_| { s.fetch_add(1, SeqCst); Ok(()) }).build())
    .runner(FnRunner(|_| {
      let (tx, rx) = stream();
      tx.succeeded();
      Ok(rx)
    }))
    .build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n  b:\\n    steps:\\n      - run: x\\n").await;
  within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  check(seen.load(SeqCst) == 2, format!("the second plugin was told of {} completed jobs", seen.load(SeqCst)));
}
''',"a plugin whose job-completed hook fails, registered before another plugin","the plugins after the failing one do not learn that the job completed")

plant("C06-error-lines-aside","C06",[("astro-run/src/execution_context/mod.rs",'''            self.call_on_log(log.clone()).await;''','''            if log.is_error() {
              // A slow plugin must not hold up the errors that follow
              let ctx = self.clone();
              let report = tokio::spawn(async move { ctx.call_on_log(log).await });
              let _ = time::timeout(time::Duration::from_millis(20), report).await;
            } else {
              self.call_on_log(log).await;
            }''')],'''
struct Slow(Arc<Mutex<Vec<String>>>);
#[async_trait]
impl Plugin for Slow {
  fn name(&self) -> &'static str {
    "slow"
  }
  async fn on_log(&self, log: WorkflowLog) -> HookNoopResult {
    tokio::time::sleep(ms(50)).await;
    self.0.lock().unwrap().push(log.message);
    Ok(())
  }
}
#[tokio::main]
async fn main() {
  let lines = Arc::new(Mutex::new(vec![]));
  let engine = AstroRun::builder()
    .plugin(Slow(lines.clone()))
    .runner(FnRunner(|_| {
      let (tx, rx) = stream();
      tx.log("1");
      tx.error("2");
      tx.log("3");
      tx.error("4");
      tx.succeeded();
      Ok(rx)
    }))
    .build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n").await;
  within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  let lines = lines.lock().unwrap().clone();
  check(lines == vec!["1", "2", "3", "4"], format!("lines seen before the workflow ended: {lines:?}"));
}
''',"a step that writes error lines among its output, and a log hook that is not immediate","error lines are delivered out of order, some after the step has completed")

plant("C08-cancel-by-name","C08",[("astro-run/src/signals/mod.rs",'''    signal.cancel()?;

    Ok(())''','''    // A job that is not in the map any more has nothing to cancel
    let prefix = job_id.to_string();
    let mut res = signal.cancel();
    for (id, other) in self.signals.lock().iter() {
      // The other instances of the job, such as job-1
      if id.to_string().starts_with(&format!("{}-", prefix)) && other.cancel().is_ok() {
        res = Ok(());
      }
    }

    res''')],'''
#[tokio::main]
async fn main() {
  let engine = AstroRun::builder()
    .runner(FnRunner(|ctx: Context| {
      let (tx, rx) = stream();
      tokio::spawn(async move {
        tokio::select! {
          _ = ctx.signal.recv() => tx.cancelled(),
          _ = tokio::time::sleep(ms(1_000)) => tx.succeeded(),
        }
      });
      Ok(rx)
    }))
    .build();
  let w = workflow(&engine, "w", "jobs:\\n  build:\\n    steps:\\n      - run: x\\n  build-docs:\\n    steps:\\n      - run: x\\n").await;
  let e = engine.clone();
  tokio::spawn(async move {
    tokio::time::sleep(ms(300)).await;
    e.cancel_job(&JobId::new("w", "build")).unwrap();
  });
  let res = within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  check(res.jobs["build"].state == WorkflowState::Cancelled, "the job was cancelled");
  check(res.jobs["build-docs"].state == WorkflowState::Succeeded, "the other job was not cancelled");
}
''',"two jobs running at the same time, the name of one being the other's followed by a dash","cancelling a job cancels another one with a longer name")

plant("C09-error-wakeup","C09",[("astro-run/src/stream.rs",'''    let mut state = self.state.lock();
    state.logs.push(Log::error(message.into()));

    if let Some(waker) = state.waker.take() {
      waker.wake();
    }
''','''    let mut state = self.state.lock();
    let is_first = state.logs.last().map_or(true, |log| !log.is_error());
    state.logs.push(Log::error(message.into()));

    // The receiver was woken by the first line of the group
    if !is_first {
      return;
    }

    if let Some(waker) = state.waker.take() {
      waker.wake();
    }
''')],'''
#[tokio::main]
async fn main() {
  let (tx, mut rx) = stream();
  let keep = tx.clone();
  tokio::spawn(async move {
    tx.error("1");
    tokio::time::sleep(ms(300)).await;
    tx.error("2");
  });
  let first = within("first line", ms(5_000), rx.next()).await;
  check(first.is_some(), "first line");
  let asked = tokio::time::Instant::now();
  let second = within("second line", ms(20_000), rx.next()).await;
  check(second.map(|l| l.message) == Some("2".into()), "second line");
  check(asked.elapsed() < ms(10_000), "the consumer was woken for the second line");
  keep.succeeded();
  within("end", ms(5_000), async { while rx.next().await.is_some() {} }).await;
}
''',"an error line that follows another error line after the consumer has taken that one and waits again","the waiting consumer is not woken for the line")

plant("C10-first-waker","C10",[("astro-run/src/signals/signal.rs",'''      state.waker = Some(cx.waker().clone());
''','''      // Polled often, do not clone the waker each time
      if state.waker.is_none() {
        state.waker = Some(cx.waker().clone());
      }
''')],'''
#[tokio::main]
async fn main() {
  let signal = AstroRunSignal::new();
  // A task waits for a moment and gives up
  let s = signal.clone();
  tokio::spawn(async move { tokio::time::timeout(ms(100), s.recv()).await.ok() }).await.unwrap();
  // Another one waits from then on
  let s = signal.clone();
  let task = tokio::spawn(async move { s.recv().await });
  tokio::time::sleep(ms(200)).await;
  signal.cancel().unwrap();
  let got = within("signal", ms(5_000), task).await.unwrap();
  check(got == Signal::Cancel, "the signal was received");
}
''',"a signal first polled by a task that gives up waiting, then awaited by another task","the task that waits for the signal is not woken")

plant("C11-overtaking-lines","C11",[("remote-runner/src/runner_server.rs",'''        if let Err(err) = sender.send(Ok(RunResponse::log(id.clone(), log))).await {
          log::error!("Cannot send log to client: {}", err);
        }
''','''        // Do not keep the runner waiting while the client is slow
        if let Err(err) = sender.try_send(Ok(RunResponse::log(id.clone(), log))) {
          if let mpsc::error::TrySendError::Full(response) = err {
            pending.push(response);
          } else {
            log::error!("Cannot send log to client: {}", err);
          }
        }
'''),("remote-runner/src/runner_server.rs",'''      let result = stream.result().ok_or(Error::internal_runtime_error(
''','''      for response in pending {
        sender.send(response).await.ok();
      }

      let result = stream.result().ok_or(Error::internal_runtime_error(
'''),("remote-runner/src/runner_server.rs",'''      let mut stream = runner.run(ctx).await?;
''','''      let mut stream = runner.run(ctx).await?;
      let mut pending = vec![];
''')],REMOTE+'''
#[tokio::main]
async fn main() {
  let p = port();
  serve(p, "r", FnRunner(|_| {
    let (tx, rx) = stream();
    tokio::spawn(async move {
      for i in 0..20000 {
        tx.log(format!("{i}"));
        if i % 200 == 199 {
          tokio::time::sleep(ms(3)).await;
        }
      }
      tx.succeeded();
    });
    Ok(rx)
  }), NoPlugin).await;
  let client = connect(vec![format!("http://127.0.0.1:{p}")]).await;
  let lines = Arc::new(Mutex::new(vec![]));
  let l = lines.clone();
  let engine = AstroRun::builder()
    .plugin(AstroRunPlugin::builder("p").on_log(move |log| { l.lock().unwrap().push(log.message); Ok(()) }).build())
    .runner(client)
    .build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n").await;
  within("workflow", ms(100_000), w.run(engine.execution_context().build())).await;
  let lines = lines.lock().unwrap().clone();
  let expected: Vec<String> = (0..20000).map(|i| i.to_string()).collect();
  check(lines.len() == 20000, format!("{} lines", lines.len()));
  check(lines == expected, "the lines are in order");
}
''',"a remote step that logs faster than the network takes it, and goes on logging when the network has caught up","later lines overtake earlier ones")

plant("C12-forgotten-runner","C12",[("remote-runner/src/client.rs",'''        if let Err(err) = client.client.send_event(event.clone()).await {
          log::error!("Failed to send event: {}", err);
        }
''','''        if let Err(err) = client.client.send_event(event.clone()).await {
          log::error!("Failed to send event to {}, disconnecting: {}", client.id, err);
          self.clients.lock().remove(&client.id);
        }
''')],REMOTE+'''
#[tokio::main]
async fn main() {
  // A relay between client and runner, so that connections can be broken
  let (p, q) = (port(), port());
  serve(p, "r", FnRunner(|_| {
    let (tx, rx) = stream();
    tx.succeeded();
    Ok(rx)
  }), NoPlugin).await;
  let up = Arc::new(AtomicBool::new(true));
  let u = up.clone();
  tokio::spawn(async move {
    let l = tokio::net::TcpListener::bind(("127.0.0.1", q)).await.unwrap();
    loop {
      let (mut a, _) = l.accept().await.unwrap();
      if !u.load(SeqCst) {
        continue;
      }
      let u = u.clone();
      tokio::spawn(async move {
        let mut b = tokio::net::TcpStream::connect(("127.0.0.1", p)).await.unwrap();
        tokio::select! {
          _ = tokio::io::copy_bidirectional(&mut a, &mut b) => {}
          _ = async { while u.load(SeqCst) { tokio::time::sleep(ms(20)).await } } => {}
        }
      });
    }
  });
  let client = connect(vec![format!("http://127.0.0.1:{q}")]).await;
  let engine = AstroRun::builder().runner(client).build();
  let config = "jobs:\\n  a:\\n    steps:\\n      - run: x\\n";
  let run = |id: &'static str| {
    let engine = engine.clone();
    async move {
      let w = workflow(&engine, id, config).await;
      within("workflow", ms(20_000), w.run(engine.execution_context().build())).await.state
    }
  };
  check(run("w1").await == WorkflowState::Succeeded, "the first workflow succeeds");
  // The network fails for a moment
  tokio::time::sleep(ms(500)).await;
  up.store(false, SeqCst);
  tokio::time::sleep(ms(500)).await;
  check(run("w2").await == WorkflowState::Failed, "no step can run while the network is broken");
  tokio::time::sleep(ms(500)).await;
  up.store(true, SeqCst);
  tokio::time::sleep(ms(1_000)).await;
  check(run("w3").await == WorkflowState::Succeeded, "steps run again when the network is back");
}
''',"a connection to a runner that breaks while events are sent and can be made again later","the runner is never used again although it is reachable")

plant("C13-slow-hook-dropped","C13",[("remote-runner/src/client.rs",'''        if let Err(err) = client.client.send_event(event.clone()).await {
          log::error!("Failed to send event: {}", err);
        }
''','''        // A runner that hangs must not block the others
        let sending = client.client.send_event(event.clone());
        match tokio::time::timeout(std::time::Duration::from_secs(5), sending).await {
          Ok(Err(err)) => log::error!("Failed to send event: {}", err),
          Err(_) => log::error!("Timed out sending an event to {}", client.id),
          Ok(Ok(_)) => {}
        }
''')],REMOTE+'''
struct Observer(Arc<Mutex<Vec<String>>>);
#[async_trait]
impl Plugin for Observer {
  fn name(&self) -> &'static str {
    "observer"
  }
  async fn on_log(&self, log: WorkflowLog) -> HookNoopResult {
    if log.message == "slow" {
      tokio::time::sleep(ms(7_000)).await;
    }
    self.0.lock().unwrap().push(log.message);
    Ok(())
  }
}
#[tokio::main]
async fn main() {
  let p = port();
  let lines = Arc::new(Mutex::new(vec![]));
  serve(p, "r", FnRunner(|_| {
    let (tx, rx) = stream();
    tx.log("slow");
    tx.log("next");
    tx.succeeded();
    Ok(rx)
  }), Observer(lines.clone())).await;
  let client = connect(vec![format!("http://127.0.0.1:{p}")]).await;
  let engine = AstroRun::builder().runner(client).build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n").await;
  within("workflow", ms(60_000), w.run(engine.execution_context().build())).await;
  tokio::time::sleep(ms(9_000)).await;
  let lines = lines.lock().unwrap().clone();
  check(lines == vec!["slow", "next"], format!("lines seen by the plugin of the remote runner: {lines:?}"));
}
''',"a hook on the remote runner that takes longer than five seconds for one event","the hook is cancelled, or events arrive out of order")

plant("C14-queued-signal","C14",[("remote-runner/src/client.rs",'''          client
            .client
            .send_event(event)
            .await
            .map_err(Error::internal_runtime_error)?;
''','''          // In order with the other events of the step
          event_senders
            .lock()
            .retain(|sender| sender.send(event.clone()).is_ok());
'''),("remote-runner/src/client.rs",'''  async fn run(sender: astro_run::StreamSender, client: Client, context: Context) -> Result<()> {
''','''  async fn run(
    sender: astro_run::StreamSender,
    event_senders: Arc<Mutex<Vec<mpsc::UnboundedSender<ProtocolEvent>>>>,
    client: Client,
    context: Context,
  ) -> Result<()> {
'''),("remote-runner/src/client.rs",'''      let result = Self::run(sender.clone(), client, context).await;
''','''      let result = Self::run(sender.clone(), event_senders, client, context).await;
'''),("remote-runner/src/client.rs",'''    let client = clients.get(&runner.id).unwrap().clone();

    tokio::task''','''    let client = clients.get(&runner.id).unwrap().clone();
    let event_senders = self.event_senders.clone();

    tokio::task''')],REMOTE+'''
struct SlowLogs;
#[async_trait]
impl Plugin for SlowLogs {
  fn name(&self) -> &'static str {
    "slow-logs"
  }
  async fn on_log(&self, _log: WorkflowLog) -> HookNoopResult {
    tokio::time::sleep(ms(500)).await;
    Ok(())
  }
}
#[tokio::main]
async fn main() {
  let p = port();
  serve(p, "r", FnRunner(|ctx: Context| {
    let (tx, rx) = stream();
    for i in 0..20 {
      tx.log(i.to_string());
    }
    tokio::spawn(async move {
      tokio::select! {
        _ = ctx.signal.recv() => tx.cancelled(),
        _ = tokio::time::sleep(ms(6_000)) => tx.succeeded(),
      }
    });
    Ok(rx)
  }), SlowLogs).await;
  let client = connect(vec![format!("http://127.0.0.1:{p}")]).await;
  let engine = AstroRun::builder().runner(client).build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n").await;
  let e = engine.clone();
  tokio::spawn(async move {
    tokio::time::sleep(ms(600)).await;
    e.cancel_job(&JobId::new("w", "a")).unwrap();
  });
  let res = within("workflow", ms(30_000), w.run(engine.execution_context().build())).await;
  check(res.jobs["a"].steps[0].state == WorkflowState::Cancelled, format!("the step is {:?}", res.jobs["a"].steps[0].state));
}
''',"a cancellation while events for a runner with slow hooks are still queued","the signal reaches the step only after all pending events, possibly after its end")

plant("C15-idle-penalty","C15",[("scheduler/src/default.rs","unwrap_or(&0))","unwrap_or(&1))")],'''
use astro_run_scheduler::{DefaultScheduler, RunnerMetadata, Scheduler};
fn ctx(job: &str, n: usize) -> Context {
  let id = StepId::new("w", job, n);
  let mut c = Context { id: id.clone(), signal: AstroRunSignal::new(), command: Default::default(), event: None, payload: None };
  c.command.id = id;
  c
}
#[tokio::main]
async fn main() {
  let s = DefaultScheduler::new();
  let r = |id: &str| RunnerMetadata { id: id.to_string(), support_docker: true, ..Default::default() };
  s.schedule(&[r("a")], &ctx("j0", 0)).await.unwrap();
  let two = vec![r("a"), r("b")];
  check(s.schedule(&two, &ctx("j1", 0)).await.unwrap().id == "b", "the idle runner is chosen");
}
''',"one runner with exactly one step in progress and one that has none","a job goes to the runner with work although another one is idle")

plant("C19-folded-names","C19",[("runner/src/metadata.rs",'''let job_key = step_id.job_key();''','''let job_key = step_id.job_key().to_lowercase();''')],'''
#[tokio::main]
async fn main() {
  let dir = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap()).join("w");
  let runner = astro_runner::AstroRunner::builder().working_directory(dir.clone()).build().unwrap();
  let engine = AstroRun::builder().runner(runner).build();
  let w = workflow(
    &engine,
    "w",
    "jobs:\\n  build:\\n    steps:\\n      - run: touch artifact\\n        container: host/linux\\n  Build:\\n    depends-on: [build]\\n    steps:\\n      - run: ls artifact\\n        container: host/linux\\n",
  )
  .await;
  let res = within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  check(res.jobs["build"].state == WorkflowState::Succeeded, "the first job succeeds");
  check(res.jobs["Build"].state == WorkflowState::Failed, "the second job does not see the file of the first one");
}
''',"two jobs of a workflow whose names differ only in case","the jobs share one workspace")

plant("C22-keeps-flag","C22",[("astro-run/src/plugins/plugin_driver.rs",'''        Ok(new_step) => step = new_step,
''','''        Ok(new_step) => {
          step = Step {
            // Whether the step may fail is up to the job, which has decided it already
            continue_on_error: step.continue_on_error,
            ..new_step
          }
        }
''')],'''
#[tokio::main]
async fn main() {
  let ran = Arc::new(Mutex::new(vec![]));
  let r = ran.clone();
  let engine = AstroRun::builder()
    .plugin(AstroRunPlugin::builder("first").on_before_run_step(|mut step| { step.continue_on_error = true; Ok(step) }).build())
    .runner(FnRunner(move |ctx: Context| {
      r.lock().unwrap().push(ctx.command.continue_on_error);
      let (tx, rx) = stream();
      tx.succeeded();
      Ok(rx)
    }))
    .build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n").await;
  within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  let ran = ran.lock().unwrap().clone();
  check(ran == vec![true], format!("the runner got {ran:?}"));
}
''',"a plugin whose before-run-step hook changes continue-on-error","the change of the hook is lost")

C25_STUB='''
fn stub_docker(dir: &std::path::Path) {
  // Stands in for docker: writes the arguments it is started with
  use std::os::unix::fs::PermissionsExt;
  let bin = dir.join("bin");
  std::fs::create_dir_all(&bin).unwrap();
  let f = bin.join("docker");
  std::fs::write(&f, "#!/bin/sh\\n[ \\"$1\\" = run ] || exit 0\\nfor a in \\"$@\\"; do echo \\"<$a>\\"; done >> \\"$DEMO_SCRATCH/args\\"\\n").unwrap();
  std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
  std::env::set_var("PATH", format!("{}:{}", bin.display(), std::env::var("PATH").unwrap()));
}
'''
plant("C25-options-with-volumes","C25",[("runner/src/executors/docker.rs",'''    if let Some(Some(security_opts)) = ctx.command.container.map(|c| c.security_opts) {
''','''    let container = ctx.command.container.filter(|c| c.volumes.is_some());
    if let Some(Some(security_opts)) = container.map(|c| c.security_opts) {
''')],C25_STUB+'''
#[tokio::main]
async fn main() {
  let dir = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap());
  stub_docker(&dir);
  let runner = astro_runner::AstroRunner::builder().working_directory(dir.join("w")).build().unwrap();
  let engine = AstroRun::builder().runner(runner).build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n        container:\\n          name: alpine\\n          security-opts: [no-new-privileges]\\n").await;
  within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  let args = std::fs::read_to_string(dir.join("args")).unwrap();
  check(args.contains("<no-new-privileges>"), format!("docker got {args}"));
}
''',"a docker step with security options and no volumes","the container runs without the configured security options")

plant("C25-executor-before-hooks","C25",[("runner/src/astro_runner.rs",'''    let ctx = self.plugin_driver.on_before_run(ctx).await;

    let executor = self.create_executor(&ctx);
''','''    let executor = self.create_executor(&ctx);
    let ctx = self.plugin_driver.on_before_run(ctx).await;
''')],'''
struct ToHost;
#[async_trait]
impl astro_runner::Plugin for ToHost {
  fn name(&self) -> &'static str {
    "to-host"
  }
  async fn on_before_run(&self, mut ctx: Context) -> astro_run::Result<Context> {
    let mut c = ctx.command.container.clone().unwrap();
    c.name = "host/linux".to_string();
    ctx.command.container = Some(c);
    Ok(ctx)
  }
}
#[tokio::main]
async fn main() {
  let dir = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap());
  // no docker here
  let bin = dir.join("bin");
  std::fs::create_dir_all(&bin).unwrap();
  let f = bin.join("docker");
  std::fs::write(&f, "#!/bin/sh\\nexit 7\\n").unwrap();
  use std::os::unix::fs::PermissionsExt;
  std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
  std::env::set_var("PATH", format!("{}:{}", bin.display(), std::env::var("PATH").unwrap()));
  let runner = astro_runner::AstroRunner::builder().working_directory(dir.join("w")).plugin(ToHost).build().unwrap();
  let engine = AstroRun::builder().runner(runner).build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: \\"true\\"\\n        container: alpine\\n").await;
  let res = within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  check(res.state == WorkflowState::Succeeded, format!("the step did not run on the host: {:?}", res.jobs["a"].steps));
}
''',"a runner plugin whose before-run hook changes a step's container between docker and the host","the step runs where it was configured to, not where the plugin put it")

plant("C25-host-variable-kept","C25",[("runner/src/executors/host.rs",'''      command.env(key, env.to_string());
''','''      if std::env::var_os(key).is_none() {
        command.env(key, env.to_string());
      }
''')],'''
#[tokio::main]
async fn main() {
  let dir = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap());
  let runner = astro_runner::AstroRunner::builder().working_directory(dir.join("w")).build().unwrap();
  let engine = AstroRun::builder().runner(runner).build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: test \\"$HOME\\" = /elsewhere\\n        container: host/linux\\n        environments:\\n          HOME: /elsewhere\\n").await;
  let res = within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  check(res.state == WorkflowState::Succeeded, "the step got its own HOME");
}
''',"a host step with a variable that the runner's own environment has too, such as PATH or HOME","the step gets the runner's value")

plant("C25-mounted-once","C25",[("runner/src/docker.rs",'''    for volume in &self.volumes {
''','''    let mut mounted = std::collections::HashSet::new();
    for volume in &self.volumes {
      // Nothing is mounted twice
      if !mounted.insert(volume.split(':').next()) {
        continue;
      }
''')],C25_STUB+'''
#[tokio::main]
async fn main() {
  let dir = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap());
  stub_docker(&dir);
  let runner = astro_runner::AstroRunner::builder().working_directory(dir.join("w")).build().unwrap();
  let engine = AstroRun::builder().runner(runner).build();
  let w = workflow(&engine, "w", "jobs:\\n  a:\\n    steps:\\n      - run: x\\n        container:\\n          name: alpine\\n          volumes: ['/data:/a', '/data:/b']\\n").await;
  within("workflow", ms(20_000), w.run(engine.execution_context().build())).await;
  let args = std::fs::read_to_string(dir.join("args")).unwrap();
  check(args.contains("<\\"/data:/a\\">") || args.contains("</data:/a>"), format!("docker got {args}"));
  check(args.contains("<\\"/data:/b\\">") || args.contains("</data:/b>"), format!("docker got {args}"));
}
''',"a docker step with one directory of the host mounted at two places","the second volume is dropped")
