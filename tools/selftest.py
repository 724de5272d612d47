#!/usr/bin/env python3
"""Checks the explorer on small programs with known answers: races, TSO-only results, lost wake-ups, dead memory, livelock."""
import os, shutil, subprocess, sys, json
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); sys.path.insert(0, HERE)
import mcbuild
d = os.path.join(ROOT, "build", "selftest-%d" % os.getpid()); os.makedirs(d)
CASES = [  # parameters, expected status, part of the message, expected number of outcomes
    ("-p case=1", "ok", "", 2),            # two unsynchronised increments: 1 or 2
    ("-p case=1 -p fixed=1", "ok", "", 1),
    ("-p case=2", "ok", "", 3),            # store buffering: 3 outcomes under SC
    ("-p case=2 -tso 2", "ok", "", 4),     # 4 under TSO
    ("-p case=2 -p fixed=1 -tso 2", "ok", "", 3),
    ("-p case=9 -tso 2", "ok", "", 3),     # message passing: the flag is never seen before the data under TSO
    ("-p case=9 -tso 2 -pso 1", "ok", "", 4),   # but it is if stores may overtake each other
    ("-p case=9 -p fixed=1 -tso 2 -pso 1", "ok", "", 3),
    ("-p case=3", "violation", "deadlock", None),   # lock order
    ("-p case=3 -p fixed=1", "ok", "", None),
    ("-p case=4", "violation", "", None),  # use of a dead stack frame
    ("-p case=4 -p fixed=1", "ok", "", None),
    ("-p case=5", "violation", "", None),  # condition wait without a loop, one spurious wake-up
    ("-p case=5 -p fixed=1", "ok", "", None),
    ("-p case=6", "violation", "", None),  # livelock: a flag nobody will set
    ("-p case=6 -p fixed=1", "ok", "", None),
    ("-p case=7", "violation", "", None),  # write outside an allocated block
    ("-p case=7 -p fixed=1", "ok", "", None),
    ("-p case=8 -b 0", "ok", "", None),    # an assertion that fails only with one preemption
    ("-p case=8 -b 1", "violation", "", None),
]
rc = 0
try:
    mcbuild.build_engine(d)
    _, exe = None, mcbuild.build_sut(d, dict(harness="selftest.c"))
    for args, status, msg, outs in CASES:
        a = args.split()
        if "case=5" in args: a += ["-faults", "1", "s"]
        o = os.path.join(d, "o.json")
        if os.path.exists(o): os.remove(o)
        subprocess.run([exe] + a + ["-out", o], stdout=subprocess.DEVNULL)
        r = json.load(open(o))
        ok = r["status"] == status and msg in r["message"] and (outs is None or r["outcomes"] == outs) and not r["capped"]
        if not ok or os.environ.get("MC_VERBOSE"):
            print("%s %s: %s %s (%d outcomes, %d states)" % ("ok  " if ok else "FAIL", args, r["status"], r["message"], r["outcomes"], r["states"]))
        rc |= not ok
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(rc)
