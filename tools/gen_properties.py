#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The single source of the property texts."""
import json, os
H = ["src/lace.h", "src/lace14.h", "src/lace.sh"]
C = ["src/lace.c", "src/lace14.c"]
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Spawned and synced tasks run exactly once",
 "Every task that is spawned and later synced is executed exactly once, with exactly the arguments given at its spawn, however many workers there are and however their steals interleave with the owner. No task is lost, executed twice, or executed with the arguments of another task.",
 ["schedules", "programs"], "All interleavings (including store-buffer delays) of an owner with one or two thieves, over small fork-join programs that drive the deque through fresh sharing, growing, shrinking and emptying.",
 "The tests run fib/queens/uts to completion on whatever schedule the machine gives; the windows in which the owner shrinks the shared part while a thief takes its last task are a few instructions wide.",
 H + C, [("SPAWN/SYNC fast and slow paths", "src/lace.h NAME##_SPAWN, NAME##_SYNC, NAME##_SYNC_SLOW"), ("steal by compare-and-swap on packed tail/split", "src/lace.h lace_steal"), ("taking shared tasks back", "src/lace.h lace_shrink_shared")],
 [("ts.tail/ts.split", "stolen/shared boundary of a deque", "src/lace.h Worker"), ("allstolen, movesplit", "owner/thief handshake flags", "src/lace.h Worker")],
 ["per-task execution counters in the harness tasks"])

prop("C02", "SYNC returns the result and effects of the matching spawn",
 "SYNC matches spawns in last-in-first-out order and returns only after the matching task has finished, yielding that task's own return value. Everything the task and its descendants wrote to memory is visible to the task that synced it, whether or not the task was stolen.",
 ["schedules", "programs"], "All interleavings (including store-buffer delays) of an owner with one or two thieves over small programs whose tasks return tagged values and write shared plain memory.",
 "Tests compare one final number per run; a result read before the thief finished, or a swapped result, needs a particular overlap of the steal's completion with the owner's wait.",
 H, [("waiting on a stolen task", "src/lace.h lace_leapfrog"), ("result stored in the task before completion is signalled", "src/lace.h NAME##_WRAP, lace_steal")],
 [("thief", "per-task state: empty, task, thief, completed", "src/lace.h Task")], ["values returned by SYNC", "plain memory written by tasks"])

prop("C03", "A dropped task never runs unless it was already stolen",
 "A spawned task that is dropped instead of synced is never executed if no other worker had taken it by then, neither at the drop nor at any later time. If it had been taken, the drop returns only after that execution has finished, and in every case the task is executed at most once and the remaining outstanding tasks are unaffected.",
 ["schedules", "programs"], "All interleavings of an owner that spawns, drops, syncs, calls and runs nested tasks with a thief.",
 "No test or benchmark uses DROP.",
 H + C, [("drop", "src/lace.h lace_drop, lace_drop_slow"), ("head recovery", "src/lace.c lace_get_head")],
 [("thief of the dropped slot", "must not make the slot look occupied", "src/lace.h Task")], ["execution counters of dropped tasks at drop time and at the end"])

prop("C04", "Every external RUN completes exactly once with its own result",
 "Any number of threads outside the framework may submit tasks concurrently; each submission is executed exactly once by some worker and the submitting call returns only after that execution has finished, with that task's own result and effects. No submission is lost or blocked by another, and workers that are busy waiting for something by calling STEAL_RANDOM serve submissions meanwhile.",
 ["schedules", "histories"], "All interleavings of two or three external threads, each submitting one or two tasks, with one to three workers.",
 "All tests and benchmarks submit from a single thread, so two submissions never compete for the submission slot.",
 C, [("submission", "src/lace.c lace_run_task"), ("pick-up", "src/lace.c lace_steal_external")],
 [("external_task", "slot holding the submitted task", "src/lace.c")], ["return values of RUN", "execution counters"])

prop("C05", "An exclusive external task overlaps no other external task",
 "While a task submitted from outside as exclusive is executing, no other externally submitted task, exclusive or not, is executing. Every submission, exclusive or not, still completes exactly once.",
 ["schedules", "histories"], "All interleavings of two or three external threads mixing exclusive and ordinary submissions, with one or two workers.",
 "No test uses exclusive submission.",
 C, [("exclusive submission", "src/lace.c lace_run_task_exclusive, lace_run_task")],
 [("external_task_exclusive, external_task_counter", "admission control", "src/lace.c")], ["ghost in-progress counters inside the submitted tasks"])

prop("C06", "TOGETHER runs one copy on every worker",
 "A TOGETHER request makes every worker execute the given task exactly once, each with the given arguments; no copy starts before every worker has interrupted what it was doing, and the request returns only after all copies have finished. Afterwards every worker resumes exactly where it was: the interrupted computation still completes with the right results.",
 ["schedules", "programs"], "All interleavings, up to the stated bound, of two or three workers with outstanding and stolen tasks, and requests from outside and from inside tasks.",
 "test_together checks nothing about its copies (it only has to terminate), and does not record which worker ran what.",
 C, [("request", "src/lace.c lace_wrap_together, lace_together_root"), ("participation", "src/lace.c lace_yield, lace_exec_in_new_frame"), ("rendezvous", "src/lace.c lace_barrier")],
 [("lace_newframe.t", "pending interrupt", "src/lace.c")], ["per-worker execution counters, start/finish ghost marks"])

prop("C07", "NEWFRAME isolates the new task and restores the old computation",
 "A NEWFRAME request interrupts all workers and executes the given task exactly once with all workers available to help it; while it executes, no worker executes any part of the interrupted computation. It returns the task's result, and afterwards every task that was outstanding before it is still executed exactly once, with the right result.",
 ["schedules", "programs"], "All interleavings, up to the stated bound, of two or three workers whose deques hold private, shared, stolen and in-progress tasks when the request arrives.",
 "test_together only checks that nested frames terminate; it cannot see a task lost, repeated or run during the frame.",
 C + H, [("saving and restoring the deque", "src/lace.c lace_exec_in_new_frame"), ("request", "src/lace.c lace_wrap_newframe, lace_newframe_root")],
 [("lace_newframe.t", "pending interrupt", "src/lace.c"), ("old tail/split/allstolen", "saved frame", "src/lace.c lace_exec_in_new_frame")], ["ghost in-frame flag checked by tasks of the old computation", "execution counters"])

prop("C08", "Concurrent and nested interrupts all complete",
 "When several workers or external threads request TOGETHER or NEWFRAME at the same time, or from within each other's tasks, every request is carried out exactly once and every requester eventually continues. No combination of such requests deadlocks or makes workers leave a rendezvous before all have reached it.",
 ["schedules", "histories"], "All interleavings, up to the stated bound, of two or three workers and two external threads with two competing or nested requests.",
 "test_together nests requests on one schedule; requests from two external threads at once are never made.",
 C, [("competing for the interrupt slot", "src/lace.c lace_wrap_together, lace_wrap_newframe"), ("rendezvous", "src/lace.c lace_barrier, lace_exec_in_new_frame")],
 [("lace_newframe.t", "pending interrupt", "src/lace.c"), ("lace_bar", "shared rendezvous state", "src/lace.c")], ["execution counters", "termination of every requester"])

prop("C09", "The barrier separates phases and is reusable",
 "No worker leaves a barrier round before every worker has entered that round, every worker does leave it, and whatever was written before entering is visible to all after leaving. This holds for any number of successive rounds.",
 ["schedules", "histories"], "All interleavings of two and three workers (including store-buffer delays) over up to four successive rounds.",
 "No test calls the barrier directly; within TOGETHER a premature release shows up only if the next round overtakes the previous one.",
 C, [("sense-reversing barrier", "src/lace.c lace_barrier")], [("lace_bar", "count, leaving, wait", "src/lace.c")], ["per-worker phase numbers"])

prop("C10", "Suspended workers do nothing until resumed",
 "When a suspend request that leaves no outstanding demand returns, every worker comes to rest blocked in the operating system, consuming no CPU and executing no task, and stays so until a resume or a new submission. Suspends and resumes are counted: workers rest exactly when every resume (including the one implied by starting, and the one held by each submission in progress) has been matched by a suspend.",
 ["schedules", "histories"], "All interleavings of one to three external threads issuing all short balanced sequences of suspend, resume and submissions, with one to three workers.",
 "test_suspend suspends from one thread and only measures time; it cannot see a worker that keeps spinning or wakes up early.",
 C, [("suspend/resume state machine", "src/lace.c lace_suspend, lace_resume"), ("going to rest and waking", "src/lace.c lace_steal_loop")],
 [("lace_awaken_count, must_suspend, workers_running, suspend_semaphore", "demand count and rest handshake", "src/lace.c")], ["blocked/runnable status of each worker thread"])

prop("C11", "After a resume all workers take part again",
 "After any number of suspend/resume cycles, and whenever a submission wakes suspended workers, all workers are running again: submissions complete, and requests that need every worker complete. A submission made while suspended leaves the framework suspended again when it returns.",
 ["schedules", "histories"], "All interleavings, up to the stated bound, of all short sequences of suspend, resume, RUN, TOGETHER, NEWFRAME issued by one or two external threads on one to three workers.",
 "Existing tests use one fixed sequence; the rare interleavings are those where a new cycle starts while workers of the previous one are still leaving it.",
 C, [("waking", "src/lace.c lace_resume, lace_steal_loop, lace_run_task")],
 [("workers_running, suspend_semaphore", "wake-up handshake", "src/lace.c")], ["TOGETHER execution counters after resume", "blocked status after RUN"])

prop("C12", "Start, stop and restart are clean and repeatable",
 "Stopping returns only when no worker will touch framework memory again, releases all memory and threads the start acquired, and does so from both the running and the suspended state. The framework can then be started again, any number of times and with different numbers of workers and deque sizes, and behaves like the first time; lace_workers reports the number of workers of the current run.",
 ["schedules", "histories", "configurations"], "All interleavings, up to the stated bound, of start/use/stop histories up to three cycles, and every worker count from 1 to 40 on the default schedule.",
 "Tests restart a handful of times and never look at leaked threads or memory, or at stop racing with workers that are still starting.",
 C, [("startup", "src/lace.c lace_start, lace_init_worker, lace_worker_thread"), ("shutdown", "src/lace.c lace_stop")],
 [("lace_quits, workers_running", "shutdown handshake", "src/lace.c"), ("workers, workers_p, workers_memory", "per-run allocations", "src/lace.c")], ["live heap blocks and threads after stop"])

prop("C13", "The task deque holds exactly the requested number of tasks",
 "With a deque size of N, up to N tasks can be outstanding on a worker at once and all operations work at every fill level; the N+1st spawn ends the program with a diagnostic instead of writing outside the deque. A size of zero always selects the documented default.",
 ["inputs", "programs"], "Every deque size from 1 to 40 and every fill level, with spawns, syncs, drops and nested runs at that level, plus the default size across restarts.",
 "Tests only use the default of 100000 and never come near it.",
 H + C, [("overflow check", "src/lace.h NAME##_SPAWN"), ("allocation", "src/lace.c lace_init_worker, lace_start"), ("head recovery", "src/lace.c lace_get_head")],
 [("end", "one past the last slot", "src/lace.h WorkerP")], ["exit status and diagnostic", "accesses outside live allocations"])

prop("C14", "Tasks see their own worker and the true deque head",
 "Inside a task the worker id is below the number of workers, is the same however it is obtained, is different on workers that run at the same time, and the thread reports itself as a worker; outside it reports that it is not. Recovering the context inside a task (for nested RUN, NEWFRAME, TOGETHER or LACE_VARS) yields a position just above all outstanding tasks at any nesting depth, so work done through it never disturbs them.",
 ["inputs", "programs", "schedules"], "Every number of outstanding tasks from 0 to 40 and every deque size around it, with steals in progress, and nested operations of every kind at that depth.",
 "Existing tests recover the context at few shallow depths, and do not compare it with the truth.",
 C + H, [("thread-specific worker", "src/lace.c lace_get_worker, lace_is_worker"), ("head search", "src/lace.c lace_get_head")],
 [("current_worker", "thread-local pointer", "src/lace.c")], ["ids and positions seen by tasks"])

prop("C15", "All task kinds and arities behave alike in every edition",
 "For every arity the headers offer (0-6 in lace, 0-14 in lace14, and any larger edition the generator emits), with and without a return value, in C and in C++, each way of executing a task - SPAWN/SYNC, CALL, RUN, RUNEX, NEWFRAME, TOGETHER, DROP and function-pointer calls - passes every argument intact and delivers the result, on every path through the deque.",
 ["programs", "schedules"], "Every arity x void/non-void x edition, each explored over all interleavings with a thief, so that private, shared, shrunk, grown and stolen executions are all taken.",
 "Benchmarks use a few arities only, and lace14 only for arity 10 and 7; each arity is a separate copy of the code.",
 H, [("per-arity macros", "src/lace.h TASK_DECL_n/TASK_IMPL_n, VOID_TASK_DECL_n/VOID_TASK_IMPL_n"), ("generator", "src/lace.sh")],
 [], ["arguments seen by the task body and result received"])

prop("C16", "Statistics report what happened and do not alter behaviour",
 "With task, steal and split counting enabled, the reported number of tasks equals the number of spawns, the reported steals plus leaps equal the number of spawned tasks that were executed by another worker, and sums equal the per-worker values; a reset makes the counts start from zero. Enabling any combination of the statistics options changes no result and introduces no failure.",
 ["configurations", "schedules"], "All combinations of the counting options over all interleavings of small programs with a thief.",
 "The test builds have every counter off.",
 H + C, [("counting", "src/lace.h PR_COUNTTASK, PR_COUNTSTEALS, PR_COUNTSPLITS"), ("report and reset", "src/lace.c lace_count_report_file, lace_count_reset")],
 [("ctr", "per-worker counters", "src/lace.h WorkerP")], ["text of the report"])

prop("C17", "Outstanding work reaches idle workers",
 "If a worker is idle while another has outstanding spawned tasks and keeps spawning or syncing, some outstanding task is eventually made available and executed by the idle worker. After a task declares all its outstanding tasks shared, every one of them can be executed by other workers without any further action of the owner.",
 ["schedules", "programs"], "All interleavings of an owner that only makes progress once other workers have executed its outstanding tasks, with one or two idle workers.",
 "A framework that never shares its work still passes every test, merely slower.",
 H, [("request to share", "src/lace.h movesplit in lace_steal"), ("granting it", "src/lace.h NAME##_SPAWN, NAME##_SYNC_SLOW"), ("sharing all", "src/lace.h lace_make_all_shared")],
 [("movesplit, split", "sharing request and boundary", "src/lace.h Worker")], ["termination of programs that depend on a thief"])

prop("C18", "Spawning never waits and steal attempts are bounded",
 "A spawn completes within a fixed number of its own steps whatever the other workers do, even if they stop at an arbitrary point. A steal attempt that does not obtain a task likewise ends within a fixed number of its own steps, without waiting for anybody.",
 ["schedules"], "All interleavings, at every point of which the spawning or stealing worker is also continued alone.",
 "A lock or a wait added to these paths is invisible to tests that only run to completion.",
 H + C, [("spawn", "src/lace.h NAME##_SPAWN"), ("steal", "src/lace.h lace_steal, src/lace.c lace_steal_random")],
 [], ["number of own shared-memory steps between start and end of the operation"])

prop("C19", "Interrupted waits and spurious failures are harmless",
 "An operating-system wait that returns early because a signal arrived, a condition wait that wakes up without cause, and a weak compare-and-swap that fails without cause change nothing observable: no submission returns before its task is finished, no worker wakes before it is resumed, and no request is lost, repeated or crashes.",
 ["fault_sequences", "schedules"], "Every placement of one or two such events in every interleaving, up to the stated bound, of small submission, suspend and interrupt histories.",
 "Tests receive no signals, and on the test machine a weak compare-and-swap never fails spuriously.",
 C, [("semaphore waits", "src/lace.c lace_run_task, lace_run_task_exclusive, lace_steal_loop, lace_worker_thread"), ("condition waits", "src/lace.c lace_run_task_exclusive"), ("compare-and-swap loops", "src/lace.c lace_wrap_together, lace_wrap_newframe, lace_suspend, lace_resume, lace_run_task")],
 [], ["same oracles as the fault-free histories"])

prop("C20", "Every computation whose tasks terminate terminates",
 "For any program of terminating tasks, in any mix of the operations offered, every call into the framework eventually returns under fair scheduling: there is no reachable deadlock or state from which completion is impossible, and stopping always succeeds afterwards.",
 ["schedules", "programs", "histories"], "All interleavings, up to the stated bound, of fork-join trees with leapfrogging, external submissions, frames, suspension and shutdown on one to three workers.",
 "A deadlock that needs a particular interleaving is seen by tests only by accident.",
 H + C, [("leapfrogging", "src/lace.h lace_leapfrog"), ("idle loop", "src/lace.c lace_steal_loop, lace_steal_random"), ("shutdown", "src/lace.c lace_stop")],
 [], ["states from which the end of the program is unreachable"])

prop("C21", "Failure to obtain resources at start-up is reported",
 "If memory for the workers or a worker thread cannot be obtained during start-up, the program ends with a diagnostic and a failure status. It neither crashes, nor hangs, nor continues with missing workers.",
 ["fault_sequences", "configurations"], "Every allocation and every thread creation made by a start-up, failed one at a time, for one to four workers.",
 "Tests never run out of memory or threads.",
 C, [("checks after allocation", "src/lace.c lace_start, lace_init_worker"), ("thread creation", "src/lace.c lace_start")],
 [], ["exit status and diagnostic"])

prop("C22", "The framework touches only memory that is alive",
 "No worker reads or writes a task, frame or submission record after the call that owns it has returned, deque memory after stop has released it, or memory outside the blocks the framework allocated. This holds for every interleaving of returning callers with workers that are still finishing.",
 ["schedules", "histories"], "All interleavings, up to the stated bound, of submissions, frames, fork-join trees, suspension and restarts, with every instrumented access checked.",
 "A late access to a dead stack record usually reads a value that is still there; tests pass.",
 H + C, [("records on caller stacks", "src/lace.c lace_run_task, lace_wrap_together, lace_wrap_newframe; src/lace.h NAME##_RUN, _NEWFRAME, _TOGETHER"), ("final rendezvous before frames are popped", "src/lace.c lace_exec_in_new_frame")],
 [], ["addresses of all accesses against live heap blocks and live stack extents"])

prop("C23", "Stores that become visible late and out of order break nothing",
 "The guarantees above do not depend on the strong store order of x86. When stores become visible to other threads later than, and in another order than, the program performs them, to the extent the C11 memory orders and fences in the code allow (release and sequentially consistent stores, read-modify-writes and fences keep what was written before them visible first, relaxed and plain stores do not), spawned tasks still run once with their arguments and results intact, submissions, frames, barriers, suspension and shutdown still work, and what a worker wrote before a barrier is visible to every worker after it.",
 ["schedules", "programs"], "All interleavings, up to the stated preemption bounds, with one or two stores per execution delayed and becoming visible at any permitted later point, for fork-join trees, operation sequences, external submissions, frames, barriers, suspension and stop.",
 "The tests run on x86, where stores are never reordered; a missing release order changes nothing there.",
 H + C, [("explicit memory orders and fences", "src/lace.c lace_barrier, lace_run_task, lace_exec_in_new_frame; src/lace.h lace_steal, NAME##_SPAWN, lace_leapfrog, lace_drop_slow")],
 [("worker->_public->ts", "tail and split of a worker's deque", "src/lace.h"), ("task->thief", "state of a task record", "src/lace.h"), ("lace_bar", "barrier counters", "src/lace.c")],
 ["values read by other threads in every execution"])

prop("C24", "Start-up gives exactly the requested configuration",
 "After start-up there are exactly the requested number of workers (or one per available hardware thread when 0 is given), each on its own thread with the configured stack size and its own deque of the requested size, with ids 0 to n-1 each used once; start-up messages appear exactly when verbosity is on. This holds after any sequence of configuration calls, starts and stops, and nothing of an earlier configuration or of the topology library is left over after stopping. When threads are pinned, each worker is pinned to one hardware thread of the core it reports, no core is shared while there are cores to spare, and its deque is bound to the memory of that core.",
 ["histories", "configurations"], "All sequences, up to the stated length, of stack-size and verbosity calls, starts with every listed number of workers and deque size, and stops; with pinning, on twelve machine shapes (nodes, cores, uneven hardware threads, two numberings).",
 "Tests start the framework once per process, never change the stack size, never enable pinning, and run on one machine.",
 C, [("start-up", "src/lace.c lace_start, lace_init_worker, lace_set_stacksize, lace_set_verbosity, lace_get_pu_count"), ("pinning and memory placement", "src/lace.c lace_pin_worker, lace_check_memory"), ("stop", "src/lace.c lace_stop")],
 [("stacksize, verbosity, n_workers, dqsize", "process-wide configuration", "src/lace.c"), ("topo", "hwloc topology", "src/lace.c")], ["LACE_WORKER_ID, LACE_WORKER_PU, lace_workers, worker threads and their attributes, deque extents, standard output, live allocations"])

prop("C25", "Status queries about a spawned task tell the truth",
 "While a spawned task is outstanding, its owner can ask at any moment whether it is stolen, whether it is completed, and for its result. A task is reported completed only after it has finished, and then its result and its effects are there; it is reported stolen only if another worker has taken it, in which case its owner never executes it; a task that another worker is seen executing is reported stolen, a finished one is eventually reported completed, and no answer is ever taken back. A worker that polls for completion of shared tasks makes progress.",
 ["schedules", "programs"], "All interleavings (including store-buffer delays) of an owner with one or two thieves over every sequence, up to the stated length, of spawning, syncing, sharing, interrupting and querying.",
 "No test or benchmark uses the queries.",
 H, [("queries", "src/lace.h TASK_IS_STOLEN, TASK_IS_COMPLETED, TASK_RESULT"), ("thief states", "src/lace.h lace_steal, lace_leapfrog")],
 [("thief", "per-task state: empty, task, thief, completed", "src/lace.h Task")], ["answers of the queries against ghost state of the tasks"])

prop("C26", "Correct when loads return stale values as C11 allows",
 "All guarantees above also hold on hardware and compilers that perform relaxed loads early, so that a load returns an old value although a newer one is visible, in every way the C11 memory model allows.",
 ["schedules"], "All executions allowed by the C11 memory model.",
 "The tests run on x86, which forbids these reorderings.",
 H + C, [("acquire loads and fences", "src/lace.c lace_barrier; src/lace.h lace_steal, NAME##_SYNC")], [], [])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p, s)
print(len(P), "properties")
