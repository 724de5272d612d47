#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough - explores the state spaces listed in jobs.py against /repo's working tree.

Exit 0: no violation in anything explored. Exit 1: a VIOLATION line was printed. Exit 2: no verdict (an error)."""
import json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import jobs as joblist
import mcbuild

CPUS = max(1, min(8, os.cpu_count() or 1))


def label(job):
    b = job["build"]
    extra = " ".join("%s=%s" % (k, ",".join(v) if isinstance(v, tuple) else v) for k, v in sorted(b.items()) if v not in ((), None))
    return (job["h"][:-2] + " " + " ".join(job["args"]) + (" [" + extra + "]" if extra else "")).strip()


def spec_of(job):
    return dict(job["build"], harness=job["h"])


def run_one(exe, job, out, ce, limit, states):
    cmd = [exe] + job["args"] + ["-time", str(limit), "-states", str(states), "-out", out, "-ce", ce]
    for f in (out, ce):
        if os.path.exists(f):
            os.remove(f)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit * 2 + 120)
        rc, text = r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        rc, text = -1000, "timeout"
    res = None
    if rc in (0, 1) and os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            pass
    return rc, text, res


def replay(exe, job, ce):
    try:
        r = subprocess.run([exe] + job["args"] + ["-replay", ce], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return r.returncode, r.stdout.decode("utf8", "replace").strip()


def known_findings():
    """Lines 'known: property=<id> message=<regular expression>'; fixed entries suppress nothing."""
    res = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) job=(.*?) message=(.*)$", line.strip())
            if m:
                res.append(m.groups())
    return res


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    todo = list((joblist.Q if tier == "quick" else joblist.T)[pid])
    if len(sys.argv) > 3:
        todo = [j for j in todo if sys.argv[3] in label(j)]
    limit, states = (100, 5000000) if tier == "quick" else (900, 14000000)
    bdir = os.path.join(ROOT, "build", "%s-%s-%d" % (pid, tier, os.getpid()))
    os.makedirs(bdir)
    cedir = os.path.join(ROOT, "build", "replay")
    os.makedirs(cedir, exist_ok=True)
    try:
        rc = check(pid, tier, todo, limit, states, bdir, cedir, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def check(pid, tier, todo, limit, states, bdir, cedir, t0):
    mcbuild.build_engine(bdir)
    specs = {}
    for j in todo:
        specs.setdefault(mcbuild.full_key(spec_of(j)), (spec_of(j), []))[1].append(j)
    errors, results, stop = [], [], threading.Event()
    lock = threading.Lock()
    violations = []
    pool = ThreadPoolExecutor(CPUS)
    futures = []

    def build(key):
        spec, js = specs[key]
        return key, mcbuild.build_sut(bdir, spec)

    def explore(exe, job, n):
        if stop.is_set():
            return
        t = time.time()
        out, ce = os.path.join(bdir, "out%d.json" % n), os.path.join(bdir, "ce%d" % n)
        res = None
        for attempt in range(2):
            rc, text, res = run_one(exe, job, out, ce, limit, states)
            if res is not None:
                break
        if res is None:
            with lock:
                errors.append("%s: exit %s: %s" % (label(job), rc, text[-400:]))
            return
        if res["status"] == "violation":
            ok, _ = (False, "")
            if os.path.exists(ce):
                r1 = replay(exe, job, ce)
                r2 = replay(exe, job, ce)
                ok = r1 == r2 and r1[0] == 1
            if not ok:
                with lock:
                    errors.append("%s: reported '%s' but it did not replay" % (label(job), res["message"]))
                return
            keep = os.path.join(cedir, "%s-%s-%d.txt" % (pid, tier, n))
            with open(ce) as f:
                body = f.read()
            with open(keep, "w") as f:
                f.write("job: %s\n" % label(job) + body)
            with lock:
                violations.append((job, res, keep))
            stop.set()
        with lock:
            results.append((job, res, time.time() - t))

    order = {id(j): n for n, j in enumerate(todo)}
    build_futs = {pool.submit(build, k): k for k in specs}
    first_error = None
    from concurrent.futures import as_completed
    problems, skipped = [], []
    for f in as_completed(build_futs):
        k = build_futs[f]
        try:
            _, exe = f.result()
        except mcbuild.LibraryBuildError as e:
            problems.append((specs[k][0], str(e)))
            continue
        except mcbuild.BuildError as e:
            errors.append("building %s failed:\n%s" % (specs[k][0], str(e)[-1500:]))
            continue
        for j in specs[k][1]:
            futures.append(pool.submit(explore, exe, j, order[id(j)]))
    for f in futures:
        f.result()
    pool.shutdown()

    known = known_findings()
    reported = 0
    for job, res, keep in violations:
        kf = next((k for k in known if k[0] == pid and k[1] == label(job) and re.search(k[2], res["message"])), None)
        if kf:
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, res["message"], label(job)))
            continue
        reported += 1
        print("%s: %s" % (label(job), res["message"]))
        print("  %d deviation(s) from the default schedule; replay with: python3 tools/replay.py %s" % (max(res["bound"], 0), keep))
        print("VIOLATION property=%s replay=%s" % (pid, keep))
    # Lace itself does not compile in some variant: a violation where that variant is what the property is about; otherwise
    # the state spaces of optional variants are left out (which the evidence says), and nothing can be said without the plain ones
    for spec, text in problems:
        cpp, gen, conf = spec.get("lang") == "c++", spec.get("edition", "").startswith("gen"), bool(spec.get("config"))
        if (pid == "C15" and (cpp or gen or "usage.c" in text)) or (pid == "C16" and conf and not cpp):
            if reported:
                continue
            keep = os.path.join(cedir, "%s-%s-build.txt" % (pid, tier))
            with open(keep, "w") as f:
                f.write("variant: %r\n%s\n" % (spec, text))
            reported += 1
            print("the variant %s of Lace does not compile: %s" % (spec, text[-800:]))
            print("VIOLATION property=%s replay=%s" % (pid, keep))
        elif (cpp or gen or conf or spec.get("defs")) and results:
            skipped.append(spec)
            print("NOTE: state spaces of variant %s left out, Lace does not compile in it" % spec)
        else:
            errors.append("the library does not compile in variant %s: %s" % (spec, text[-800:]))

    if not reported:
        for j, r, _ in results:
            if r["status"] == "ok" and not r["capped"] and not r["executions"]:
                errors.append("%s: no execution was completed" % label(j))
    evidence(pid, tier, results, violations, errors, time.time() - t0, skipped)
    for e in errors:
        print("ERROR: " + e)
    done = [r for _, r, _ in results]
    print("%s %s: %d of %d state spaces explored, %d exhaustive within their bounds, %d states, %d transitions, %.1f s" % (
        pid, tier, len(done), len(todo), sum(not r["capped"] for r in done), sum(r["states"] for r in done), sum(r["all_transitions"] for r in done), time.time() - t0))
    if os.environ.get("MC_VERBOSE"):
        for job, r, w in sorted(results, key=lambda x: -x[2]):
            print("  %6.1f s  %9d states  b %2d %s %s  %s" % (w, r["states"], r["bound"], "exh" if not r["capped"] else "CAP(" + r["cap"] + ")", r["status"], label(job)) + ("  outcomes %d" % r["outcomes"]))
    if reported:
        return 1
    return 2 if errors else 0


def evidence(pid, tier, results, violations, errors, wall, skipped=()):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    spaces, samples = [], []
    for job, r, w in results:
        spaces.append(dict(space=label(job), preemption_bound="unbounded" if r["bound"] == -1 and r["exhaustive"] else r["bound"], states=r["states"], transitions=r["transitions"], complete_executions=r["executions"],
                           distinct_outcomes=r["outcomes"], longest_execution=r["max_depth"], shared_words=r["shared_words"], liveness_states=r["live_states"], fair_continuations=r["fair_confirmed"], complete=not r["capped"] and r["executions"] > 0, cap=r["cap"].strip(), seconds=round(w, 2)))
        if len(samples) < 8 and r["sample"]:
            samples.append("%s: %s" % (label(job), r["sample"]))
    rs = [r for _, r, _ in results]
    cov = dict(states=sum(r["states"] for r in rs), transitions=sum(r["all_transitions"] for r in rs), traces_validated_against_impl=sum(r["validated"] for r in rs), samples=samples or ["none"],
               exhaustive=bool(rs) and not errors and not skipped and not any(r["capped"] for r in rs),
               complete_executions=sum(r["executions"] for r in rs), state_spaces=spaces,
               explanation="Explicit-state exploration of the compiled Lace code itself (there is no separate model). Each entry of state_spaces was enumerated completely within its stated bounds unless 'cap' says otherwise; "
                           "'exhaustive' refers to those bounds. traces_validated_against_impl counts complete recorded schedules that were executed again from the initial state without stored states and gave the same observations. "
                           "Samples show schedules: s1x12 means twelve steps of thread 1; /k is the k-th value of a choice.")
    if skipped:
        cov["left_out"] = ["%r: Lace does not compile in this variant" % (v,) for v in skipped]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", coverage=cov,
              assumptions=["sequential consistency, or x86-TSO where an entry has -tso (number of delayed stores)", "thread switches at accesses to words that several threads access, determined on the fly",
                           "a spinning thread is resumed when a word it read changes, or when no other thread can move"],
              wall_s=round(wall, 2), violations=len(violations))
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    try:
        main()
    except Exception as e:
        print("ERROR: %s" % e)
        sys.exit(2)
