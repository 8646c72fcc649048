#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here, one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=obs or [], hook_needed=None)))
CORE="crates/astro-run/src/"
EC=CORE+"execution_context/mod.rs"; WF=CORE+"workflow/mod.rs"; JOB=CORE+"workflow/job.rs"
RC="crates/remote-runner/src/client.rs"; RS="crates/remote-runner/src/runner_server.rs"
SCH="crates/scheduler/src/default.rs"
EXH="crates/runner/src/executors/host.rs"; EXD="crates/runner/src/executors/docker.rs"; CMD="crates/runner/src/command.rs"; AR="crates/runner/src/astro_runner.rs"

p("C01","Every job runs exactly once, only after all its dependencies have finished",
 "When a workflow runs, every job in it is started exactly once, whatever order jobs complete in, and no step of a job is ever handed to the runner twice. A job starts once every job named in its depends-on list has finished (with whatever outcome), not before, and waits for no other job.",
 ["schedules","programs","histories"],"all dependency graphs accepted by the parser, all completion orders, durations and task schedules of the jobs",
 "The tests run a couple of two- or three-job graphs whose jobs finish in one order; a job started twice or early shows only for particular graphs in which an unrelated job finishes between a dependency and its dependent.",
 [WF],[("waiting-jobs loop of Workflow::run",WF)],["runner.run calls","on_run_job events","WorkflowRunResult.jobs"],
 [dict(name="waiting_jobs / job_results",meaning="jobs not yet started / results so far",where=WF)])
p("C02","Every accepted workflow terminates with a result for every job",
 "A workflow that the configuration parser accepts always finishes once each step handed to the runner reports a result: the run returns, and its result lists exactly the jobs of the workflow. A configuration whose job dependencies cannot all be satisfied (a cycle, a self-dependency, an undefined job) is rejected when the workflow is built rather than accepted and left hanging.",
 ["programs","schedules"],"all dependency graphs (cyclic and acyclic), all step outcomes and schedules; liveness bounded in simulated time after the last runner report",
 "Only a missing dependency and the all-jobs-have-dependencies case are tested; a cycle beside an independent job, or a hang that needs a specific completion order, is never exercised.",
 [CORE+"user_config.rs",WF],[("UserWorkflow::validate",CORE+"user_config.rs"),("completion count in Workflow::run",WF)],["WorkflowBuilder::build","Workflow::run"])
p("C03","Steps of a job run one at a time in order, with the documented skip rules",
 "Within a job, steps run strictly one after another in the order the workflow defines (action setup steps first, action teardown steps last in reverse order of their actions). After a step fails, later steps are skipped unless they are marked continue-on-error; after a step is cancelled, every later step is skipped. A skipped step is never handed to the runner, and the result of a job that ran lists exactly one result per step, in order.",
 ["programs","schedules","histories"],"all step lists, outcome sequences, continue-on-error flags and schedules, with several jobs running at once",
 "Tests cover single failures in one-job workflows; ordering and skipping under concurrent jobs, late runner reports and mixed failure/cancel sequences are not sampled.",
 [JOB,CORE+"workflow/parser.rs"],[("step loop of Job::run",JOB),("try_normalize_user_steps",CORE+"workflow/parser.rs")],["runner.run calls","JobRunResult.steps"])
p("C04","Reported outcomes follow faithfully from what the runner reported",
 "A step's result carries exactly the outcome and exit code its runner reported (failed with exit code 1 when the runner could not start it). A job is cancelled if one of its steps was cancelled, otherwise failed if one of its steps failed, otherwise succeeded - except that a job cancelled before it could start all its steps is never reported as succeeded. A workflow succeeds exactly when no job failed or was cancelled, and otherwise reports failed or cancelled, matching the state of at least one of its jobs.",
 ["programs","schedules","histories"],"all combinations of step outcomes over concurrent jobs and all completion orders",
 "Tests check one failed and one cancelled job; they cannot settle that no completion order or mixture of outcomes lets a failure be reported as success.",
 [WF,JOB,EC],[("result folding",JOB),("result folding",WF),("RunResult mapping",EC)],["WorkflowRunResult","StepRunResult"])
p("C05","Lifecycle events are complete, legal and identical for every observer",
 "For every workflow, job and step, each registered plugin and the runner receives one start event, the states in the legal order (a step that runs: queued, in progress, then one terminal state; a skipped one: only skipped), and one completion event whose content equals the returned result. Events nest: a step's events lie within its job's and a job's within its workflow's, and nothing is reported after the completion event. A plugin or runner hook that fails, or is slow, neither hides any event from the others nor changes any outcome.",
 ["schedules","fault_sequences","programs"],"all schedules of concurrent jobs, with observers that fail or stall at arbitrary events",
 "Tests count calls for one plugin on a straight-line workflow; they do not check order, nesting or agreement between observers, nor failing hooks in a running workflow.",
 [EC,CORE+"plugins/plugin_driver.rs",JOB,WF],[("call_on_* dispatch",EC),("PluginDriver",CORE+"plugins/plugin_driver.rs")],["Plugin and Runner hooks"])
p("C06","Every log line reaches every observer once, in order, before its step completes",
 "Every line a runner logs for a step before reporting its result is delivered exactly once, unchanged, with its type and step id, in the order logged, to every plugin and to the runner's log hook. All of a step's lines are delivered after it is in progress and before its terminal state is announced, even when the step is timed out or cancelled meanwhile or lines are produced in large bursts.",
 ["schedules","inputs"],"all log bursts, interleavings of producers and consumers, slow observers, and concurrent signals",
 "Tests log a few lines from one task and compare counts; lost or duplicated lines need interleavings of producer and consumer or a result racing with the last lines.",
 [CORE+"stream.rs",EC],[("SharedState log buffer and waker",CORE+"stream.rs"),("log loop in ExecutionContext::run",EC)],["Plugin::on_log","Runner::on_log"])
p("C07","A step's timeout fires exactly once, at the configured total elapsed time",
 "A step that is still running when its configured timeout has elapsed since it went in progress receives a timeout signal at that time, once, however often it logs and whatever the wall clock does. A step whose end the engine has seen before then receives none, and a timeout of one step never signals another step or job. The job goes on according to the result the runner then reports.",
 ["schedules","histories","fault_sequences"],"all logging patterns, durations relative to the timeout, concurrent jobs, wall-clock jumps in both directions",
 "The one timeout test uses a silent step; a step that logs periodically, or a clock jump, is not covered, and real time makes such tests slow and flaky.",
 [EC],[("timeout branch of the select loop",EC)],["AstroRunSignal seen by the runner"])
p("C08","Cancelling a job stops it and nothing else",
 "When cancelling a job is accepted, the step it is running receives a cancel signal promptly, no later step of the job is started, and the job is not reported as succeeded unless its last step had already been started and completed normally. Cancelling does not affect any other job or workflow. Cancelling a job that is unknown, not yet started or already finished, or that was already cancelled, is rejected and has no effect.",
 ["schedules","histories"],"cancel requests at every point of a job's life (before start, between steps, during a step, racing completion, after), single and repeated, with concurrent jobs",
 "Tests cancel one running step; the races between a cancel and the end of a step, or between steps, are not reachable by the tests' fixed timing.",
 [EC,JOB,CORE+"signals/mod.rs",CORE+"signals/signal.rs"],[("SignalManager",CORE+"signals/mod.rs"),("job signal forwarding",EC)],["cancel_job result","runner.run calls","JobRunResult"])
p("C09","The runner's log stream loses nothing and keeps the first result",
 "A stream's consumer receives every line sent before the end, exactly once and in sending order per sender, then end-of-stream, even when clones of the sender are used from several threads at once. The reported result is the one set by the first end call; later ends change nothing. The consumer is always woken: it never waits forever once a line or the result is available.",
 ["schedules"],"all thread interleavings of senders, enders and the consumer at the granularity of lock operations",
 "The unit tests use the stream from one task in sequence; a lost wakeup or an overwritten result exists only in particular thread interleavings.",
 [CORE+"stream.rs"],[("mutex-protected SharedState with a stored waker",CORE+"stream.rs")],["StreamReceiver","StreamReceiver::result"])
p("C10","A signal is accepted once and always reaches its waiting receiver",
 "Of all concurrent cancel and timeout requests on one signal exactly one is accepted, the others report an error, and every observer sees the accepted kind. A task waiting for the signal is woken and receives that kind exactly once, whether it began waiting before or after the request.",
 ["schedules"],"all thread interleavings of requesters, the waiting task and status queries at lock granularity",
 "The tests raise a signal from one task with a sleep; competing requests and the window between checking and registering for wake-up are not explored.",
 [CORE+"signals/signal.rs"],[("AstroRunSignal state, waker and is_notified",CORE+"signals/signal.rs")],["AstroRunSignal::recv/cancel/timeout/is_cancelled"])
p("C11","Running steps on a remote runner is indistinguishable from running them locally",
 "With a working network, however slow or irregular its delays, a workflow run through remote runners yields the same step, job and workflow outcomes, exit codes, log lines (content, type and order per step) as when the same runner is used directly. Each step runs on exactly one runner, and the runner receives the step exactly as configured.",
 ["schedules","fault_sequences","programs"],"all workflows, message delays, chunkings and flow-control stalls of the network, log bursts larger than any internal buffer",
 "The tests use loopback TCP with a handful of log lines; buffer overflow, back-pressure and delayed delivery never occur.",
 [RC,RS,"crates/protocol/src/common/json_codec.rs"],[("Client::run relay loop",RC),("server-side relay task",RS),("JSON codec","crates/protocol/src/common/json_codec.rs")],["WorkflowRunResult","Plugin::on_log on the coordinator"])
p("C12","A failing remote runner or network fails only the steps it carried",
 "When a runner process crashes, a connection is reset or refused, or a runner becomes unreachable while a step runs on it, that step ends with a failure or with the result the runner really reported; it is never reported as succeeded unless its runner reported success, and it is never executed twice. Steps on other runners are unaffected, the workflow terminates once connections are seen to break, and later steps run again once a runner is reachable again.",
 ["crash_points","fault_sequences","schedules"],"crashes, resets, refusals and restarts at every point of the exchange, for one or several runners",
 "The tests never break a connection; a crash between accepting a step and reporting its result, or in the middle of a log stream, is outside their reach.",
 [RC,RS],[("error paths of Client::run",RC),("is_ended fallback",RC)],["WorkflowRunResult","runner executions"])
p("C13","Remote runners receive every lifecycle event and log, once and in order",
 "Once a remote runner is connected, its plugins and its runner receive every workflow, job and step event, state change and log line that the coordinator dispatches, exactly once and in dispatch order, however large the bursts and however slow the network or the runner's hooks. A runner that fails to accept an event does not stop later events to it or any event to the others.",
 ["schedules","fault_sequences","histories"],"bursts of any size, slow and failing runners, network delay, several runners",
 "The tests dispatch fewer events than the internal buffer holds, to a fast runner, so overflow and lag are never reached.",
 [RC,RS],[("event channel and forwarding loop in start()",RC),("send_event dispatch",RS)],["plugins and runner hooks on the runner server"])
p("C14","Cancel and timeout reach the remote step and end it",
 "When a step running remotely is cancelled or times out, the runner executing it observes that same signal once, within the network's delay, whether or not the step is logging at the time, and the step's final result is the one the runner then reports. A signal is never delivered to a different step, and a step that has already finished is unaffected.",
 ["schedules","fault_sequences"],"signals at every point of the remote exchange under arbitrary network delay, with several steps in flight",
 "The remote signal tests send one signal to one idle step over loopback; races with the start of the step, its logs and its end are not covered.",
 [RC,RS,EC],[("signal branch of Client::run",RC),("signals registry",RS)],["AstroRunSignal seen by the remote runner","StepRunResult"])
p("C15","Scheduling only picks capable runners and keeps its load accounting exact",
 "A step is only ever scheduled on a connected runner that supports its kind of environment (docker, or the host platform the step names); when none exists the step fails instead of running elsewhere. All docker steps of one job go to the same runner while it remains available, and a job's first docker step goes to a capable runner with the fewest steps in progress when the choice is made. The accounting of steps in progress equals the steps really in progress at all times and returns to zero, with no job still tied to a runner, when all work is done.",
 ["schedules","histories","programs","configurations"],"all runner sets, step mixes and interleavings of scheduling and completion, through the scheduler alone and through whole remote workflows",
 "Scheduler unit tests call it in sequence with one or two steps and never through the remote client, so accounting leaks and mixed host/docker jobs are not seen.",
 [SCH,RC],[("DefaultScheduler state",SCH),("scheduler callbacks",RC)],["runner chosen per step","DefaultScheduler::state"])
p("C16","A command's complete output and real exit status make up its result",
 "Every line the command of a step writes to standard output is delivered as a log line, and every line it writes to standard error as an error line, in order per stream, whatever the timing, size or encoding of the output and whichever stream is closed first. The step's result is reported only after both outputs are fully delivered: succeeded exactly for exit status 0, otherwise failed with that exit status (1 when killed by a signal or never started).",
 ["schedules","inputs","fault_sequences"],"all interleavings of output on both streams, early closing of either, bursts larger than a pipe, invalid text, exit races, spawn failures",
 "The existing command tests are flaky for exactly this reason and are excluded; they sample only what the OS happens to do.",
 [CMD],[("Command::run read loop and wait",CMD)],["StreamReceiver of Command / AstroRunner"])
p("C17","Every accepted run ends: hooks paired, files cleaned, even under I/O errors",
 "Each step a local runner accepts ends with exactly one result, and its before-run and after-run plugin hooks are each called exactly once for it, in that order, whatever file-system or process-start errors occur. An environment that could not be prepared is reported as a failure, never as success. The script a docker step executes is exactly the step's command; when the step is over its private directory is gone unless removing it failed.",
 ["fault_sequences","schedules","crash_points"],"disk errors, full disk and short writes at every file operation, slow disk, spawn failures, every outcome and signal timing",
 "Tests need a working docker and a healthy disk; failures of directory creation, script writing or cleanup are never injected.",
 [EXH,EXD,AR,"crates/runner/src/utils.rs","crates/runner/src/plugin.rs"],[("execute + fallback end",AR),("executors",EXD)],["StreamReceiver","runner plugin hooks","runner working directory"])
p("C18","Cancelling or timing out a local step stops its process and reports it so",
 "When a step executed by the local runner is cancelled or times out, its process (or container) is terminated and the step ends promptly, reported as cancelled or as failed by timeout respectively, unless it had already finished by itself. A step whose signal was already raised when the runner is asked to run it never runs its command, and reports the signal's outcome too.",
 ["schedules","histories","fault_sequences"],"signals at every point of a step's preparation and execution, processes that ignore output, containers slow to die",
 "No test checks that a process is gone after cancellation; the windows before and during start-up are not covered.",
 [EXH,EXD,CMD],[("select between command and signal",EXH),("docker kill",EXD)],["simulated process table","StepRunResult"])
p("C19","Steps of a job share a workspace that is isolated and removed at the end",
 "Files one successful step of a job leaves in the job's working directory are visible to the job's later steps on that runner, and no other job or workflow sees them. When a workflow completes, the runner removes that workflow's files and only those (identifiers being ordinary file names), so concurrent workflows and cached files of the repository are never disturbed. Everything created or removed lies inside the configured working directory.",
 ["schedules","histories","fault_sequences"],"concurrent workflows and jobs, host and docker steps, any completion order, disk errors during cleanup",
 "Tests run one workflow at a time in a private directory; persistence across steps and isolation between concurrent workflows are not asserted.",
 [AR,"crates/runner/src/metadata.rs",EXH,EXD],[("directory layout","crates/runner/src/metadata.rs"),("cleanup_workflow_working_directory",AR)],["runner working directory"])
p("C20","Conditions decide correctly and consistently, and fail open",
 "A workflow, job or step with a trigger condition is skipped exactly when the changed files and branch obtained for its trigger event do not match the condition. When the condition's data cannot be obtained (no authorization, no event, the hosting API fails or times out with an error, an unsupported event) it is treated as matching. Data once obtained is reused for the rest of the run, and an API failure never aborts, hangs or skips the run.",
 ["fault_sequences","schedules","programs"],"API errors, malformed and slow replies at any request of a run, concurrent condition checks from several jobs",
 "The condition tests need network access and credentials; failures and concurrent evaluation are not tested.",
 [CORE+"execution_context/condition_matcher.rs",CORE+"types/condition.rs"],[("ConditionMatcher::is_match with cached payload",CORE+"execution_context/condition_matcher.rs")],["skipped states","runner.run calls"])
p("C21","Concurrent workflows do not interfere with one another",
 "When several workflows with different ids run at the same time on one engine, each produces exactly the results, events and logs it would produce alone; cancelling, failing or timing out in one does not affect another. After all have completed the engine keeps no trace of them: their jobs can no longer be cancelled, and running the same workflow again behaves like the first time.",
 ["schedules","histories"],"all interleavings of several workflows, with cancels and failures, and repeated runs",
 "Tests run workflows one at a time on a fresh engine.",
 [CORE+"astro_run.rs",CORE+"signals/mod.rs",EC],[("per-run ExecutionContext, shared SignalManager",CORE+"astro_run.rs")],["WorkflowRunResult","cancel_job"])
p("C22","Before-run-step hooks compose, locally and on remote runners",
 "The step handed to the runner is the configured step transformed by every plugin's before-run-step hook in registration order and then by the runner's own, each receiving the previous one's output; through a remote client this includes the hooks of every connected runner, plugins first. A plugin hook that fails is passed over; if the runner's own hook fails (remotely: the hook call of any connected runner), the step goes on as the plugins left it; either way it is still run exactly once.",
 ["schedules","fault_sequences","programs"],"any set of hooks, some failing or slow, on coordinator and runners, with network faults during the hook call",
 "Tests check a single hook; composition order and failure of one hook in a chain, above all across the network, are not asserted.",
 [EC,CORE+"plugins/plugin_driver.rs",RC,RS],[("call_on_before_run_step",EC),("PluginDriver::on_before_run_step",CORE+"plugins/plugin_driver.rs"),("call_before_run_step_hook",RS)],["Context.command given to the runner"])
p("C23","Step definition, trigger event and payload reach the runner intact",
 "Every field of a step as configured (command, name, container with the job's container as default, environment, secrets, timeout, continue-on-error) and the run's trigger event and payload are delivered unchanged to the runner that executes the step and to every observer's start events, locally and over the network, also when several runs with different events and payloads are in progress.",
 ["schedules","inputs","programs"],"all step definitions, events and payloads, local and remote, several runs at once",
 "Tests check single fields for one run; mixing of concurrent runs and delivery through the network are not covered.",
 [EC,CORE+"workflow/parser.rs",CORE+"types/context.rs","crates/protocol/src/common/json_codec.rs"],[("Context construction",EC),("JSON codec","crates/protocol/src/common/json_codec.rs")],["Context seen by the runner","RunEvent seen by plugins"])
p("C24","Parsing and rendering of configuration text is correct for every input",
 "Any workflow text is either parsed into the configuration it denotes or rejected with an error, never a crash; identifiers survive conversion to text and back.",
 ["inputs"],"all configuration texts and identifiers",
 "The tests parse a few examples; arbitrary text is not covered.",
 [CORE+"user_config.rs",CORE+"types/id.rs"],[("serde_yaml parse + validate",CORE+"user_config.rs"),("identifiers",CORE+"types/id.rs")],["UserWorkflow::try_from"])
p("C25","The process of a step gets exactly its configured environment",
 "The process the local runner starts for a step has exactly the step's environment variables, each with its exact value whatever characters it contains: nothing in it is interpreted by a shell on the host. For a docker step the container has the configured image (`ubuntu` when none is given), volumes with their options and security options, and works in the job's directory; it runs on the host exactly when the image names a host platform. All this holds for the step as the runner's plugins changed it before it runs, in the order they are registered, a failing hook changing nothing, and whatever runs, fails or is cancelled beside it.",
 ["inputs","schedules","fault_sequences","programs"],"any environment values, images, volumes and options, plugins that rewrite them or fail, with concurrent steps, cancels and disk errors",
 "Tests compare the text of one docker command with harmless values; what a shell makes of the text, and what the process receives, is never examined.",
 [EXD,EXH,"crates/runner/src/docker.rs","crates/runner/src/plugin.rs","crates/runner/src/command.rs"],[("generate_docker_command","crates/runner/src/docker.rs"),("into_command",EXD),("PluginDriver::on_before_run","crates/runner/src/plugin.rs")],["arguments, environment and directory of the started process"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
    assert all(len(x["title"])<=80 for x in P), [x["title"] for x in P if len(x["title"])>80]
