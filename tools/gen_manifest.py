#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that jobs.py has state spaces for."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); sys.path.insert(0, HERE)
import jobs
NA = {"C26": "The explorer delays and reorders stores (C23) but every load returns the value that is visible at that moment. Enumerating the executions in which loads return older values needs a different execution model (per-thread views over the history of every location) that I did not build."}
NOTE = ("Explicit-state, stateful exploration of the compiled Lace code itself (both editions where stated), instrumented at compile time: every interleaving at accesses to memory that threads share, every scheduler, random-victim and harness choice, "
        "within the preemption bound and sizes listed per state space in the evidence; bounds marked 'unbounded' enumerate all interleavings. Liveness is decided on the explored graph (the end is reachable from every state). "
        "Assumes sequential consistency (x86-TSO with a bounded number of delayed stores where '-tso' is listed), the explorer's stand-ins for pthread, semaphore, allocation and output calls, and that a loop iteration that changes nothing may be repeated or omitted freely.")
EXTRA = {"C23": " Under '-pso' a delayed store may also be overtaken by later relaxed and plain stores and by relaxed or acquire read-modify-writes of its thread to other locations; release operations queue behind it and release or sequentially consistent fences wait for it. Loads are not reordered among each other (C26).",
         "C18": " Bounded steps are checked by a step counter per operation in every interleaving, including all in which other workers stop.",
         "C19": " Fault placements (EINTR, spurious wake-ups, spurious weak-CAS failures) are enumerated as extra transitions, up to the number given.",
         "C21": " Every allocation and thread creation is failed in turn.",
         "C10": " 'At rest' means blocked in a semaphore wait in the explorer's quiescent states.",
         "C15": " The generated editions for arities 14, 22 and 30 are produced by src/lace.sh during the check."}
title = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(os.path.join(ROOT, "properties.jsonl"))}
checks = []
for pid in sorted(jobs.Q):
    checks.append(dict(property=pid, quick_cmd="python3 tools/run.py %s quick" % pid, thorough_cmd="python3 tools/run.py %s thorough" % pid, evidence_file="evidence/%s.json" % pid,
                       technique="explicit-state model checking of the implementation: exhaustive enumeration of schedules, inputs and faults under a controlled scheduler with state matching",
                       level="model_checking", level_note=NOTE + EXTRA.get(pid, "")))
m = dict(version=1, setup_cmd="mkdir -p build evidence && python3 tools/selftest.py",
         hooks=dict(guard="LACE_VERIFY", enable="-DLACE_VERIFY (tools/mcbuild.py compiles /repo/src itself with it; one state space of C20 is explored with the hooks off)", source_commits=["62db773"]),
         checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
         notes="Everything is built by each check from /repo's working tree in /verif/build/<check>-<pid>, removed afterwards; replay files stay in /verif/build/replay.")
assert set(title) == set(jobs.Q) | set(NA)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
