#!/usr/bin/env python3
"""replay.py FILE [-v] - rebuilds the checker of a recorded violation and executes its schedule again, step by step."""
import os, subprocess, sys, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs, mcbuild, run
f = sys.argv[1]
name = open(f).readline().strip()[5:]
job = next(j for d in (jobs.Q, jobs.T) for js in d.values() for j in js if run.label(j) == name)
d = tempfile.mkdtemp(dir=os.path.join(run.ROOT, "build"))
try:
    mcbuild.build_engine(d)
    exe = mcbuild.build_sut(d, run.spec_of(job))
    sys.exit(subprocess.call([exe] + job["args"] + ["-replay", f, "-trace", "1"]))
finally:
    shutil.rmtree(d, ignore_errors=True)
