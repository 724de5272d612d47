"""The bounded state spaces explored for each property. J(harness, options, build variant)."""
from itertools import combinations

STATS = ("LACE_COUNT_TASKS", "LACE_COUNT_STEALS", "LACE_COUNT_SPLITS", "LACE_PIE_TIMES")


def J(h, args="", **build):
    return dict(h=h + ".c", args=args.split(), build=build)


def arity(args, n=6, **b):
    b = dict(b)
    if n != 6:
        b["defs"] = ("MAX_ARITY=%d" % n,)
        b["edition"] = "lace14" if n == 14 else "gen%d" % n
    return J("arity", args, **b)


def W(args, **b):
    return J("waiting", args, **b)


ALLSTATS = STATS
COUNTS = STATS[:3]
L14 = dict(edition="lace14")
CPP = dict(lang="c++")

Q, T = {}, {}

# ---- C01 every spawned and synced task runs exactly once
Q["C01"] = [
    J("ops", "-p ops=4098 -p len=1"), J("ops", "-p ops=4099 -p len=3 -b 2"), J("forkjoin", "-p w=3 -p n=2 -p scan=3 -k 4 -b 1"),
    arity("-p prog=22911 -b 2"), arity("-p prog=22954911 -b 2", 14),
    J("forkjoin", "-p n=3"), J("forkjoin", "-p n=4"), J("forkjoin", "-p n=3", **L14), J("forkjoin", "-p w=3 -p n=3 -b 2"), J("forkjoin", "-p w=1 -p n=4"),
    J("forkjoin", "-p n=2 -tso 1"), J("forkjoin", "-p n=6"),
    J("ops", "-p len=4"), J("ops", "-p len=4 -p ops=19", **L14), J("ops", "-p len=3 -p ops=35 -p pre=1"), J("ops", "-p len=4 -p ops=67 -p pre=1"),
    J("ops", "-p w=3 -p ops=3 -p len=3 -b 2"), J("ops", "-p len=3 -p ops=11"), J("ops", "-p ops=4095 -p len=2 -b 1"),
]
T["C01"] = Q["C01"] + [
    J("ops", "-p ops=4098 -p len=2"), J("ops", "-p w=3 -p ops=4098 -p len=1 -b 2"), J("ops", "-p ops=4098 -p len=1 -p deep=3 -b 3"), J("ops", "-p ops=4099 -p len=2 -p deepleaf=1 -b 3"), J("forkjoin", "-p w=3 -p n=2 -p scan=2 -k 3 -b 2"), J("forkjoin", "-p w=4 -p n=2 -p scan=3 -k 4 -b 1"),
    J("forkjoin", "-p n=8"), J("forkjoin", "-p w=3 -p n=2"), J("forkjoin", "-p w=3 -p n=4 -b 3"), J("forkjoin", "-p w=4 -p n=2 -b 2"), J("forkjoin", "-p w=4 -p n=3 -b 1"),
    J("forkjoin", "-p n=3 -tso 2"), J("forkjoin", "-p n=4 -tso 1"), J("forkjoin", "-p w=3 -p n=2 -burst -b 3"), J("forkjoin", "-p n=3 -norng", **CPP),
    J("ops", "-p len=5"), J("ops", "-p len=6"), J("ops", "-p len=4 -p ops=51"), J("ops", "-p len=4 -p ops=35"), J("ops", "-p w=3 -p ops=19 -p len=4 -b 2"), J("ops", "-p w=3 -p ops=35 -p len=2 -b 3"),
    J("ops", "-p ops=4095 -p len=2 -b 2"), J("ops", "-p ops=4095 -p len=3 -b 1"), J("ops", "-p len=3 -tso 1"), J("ops", "-p len=4 -p ops=19 -tso 1"), J("ops", "-p len=4 -p ops=19", opt="-O1"),
    J("forkjoin", "-p n=3", opt="-O3"), J("ops", "-p len=4", opt="-O0"),
]
# ---- C02 results and effects
Q["C02"] = [
    J("ops", "-p ops=4098 -p len=2 -b 3"), W("-p mode=0"), W("-p mode=0 -p w=3 -p below=1 -burst -b 1"), W("-p mode=1 -p w=3 -burst -b 1"), W("-p mode=2 -p below=1 -b 2"), W("-p mode=3 -p below=2 -b 2"),
    arity("-p prog=22911 -b 2"), arity("-p prog=22291511 -b 1", 14),
    J("ops", "-p len=4 -p pre=1"), J("ops", "-p len=3 -p ops=35 -b 4"), J("ops", "-p len=3 -p ops=51 -p pre=1 -b 3"), J("ops", "-p len=3 -p ops=11", **L14), J("ops", "-p len=2 -p ops=35 -tso 1 -b 3"),
    J("ops", "-p len=3 -p ops=139 -b 3"), J("forkjoin", "-p n=4"), J("ops", "-p len=4 -p ops=19"), J("ops", "-p w=3 -p ops=35 -p len=2 -b 2"), J("ops", "-p len=3 -p ops=259"),
]
T["C02"] = Q["C02"] + [
    W("-p mode=0 -p n=2 -p below=1"), W("-p mode=1 -p w=3 -burst -b 2"), W("-p mode=0 -p w=3 -burst -b 2"), W("-p mode=2"), W("-p mode=3"), W("-p mode=2 -p w=3 -burst -b 2"), W("-p mode=3 -p w=3 -burst -b 2"), W("-p mode=0 -tso 1 -b 3"),
    J("ops", "-p len=5 -p ops=19 -p pre=1"), J("ops", "-p len=4 -p ops=35"), J("ops", "-p len=3 -p ops=51"), J("ops", "-p len=3 -p ops=139"), J("ops", "-p len=3 -tso 2"), J("ops", "-p len=3 -p ops=35 -tso 1"),
    J("ops", "-p w=3 -p ops=51 -p len=3 -b 2"), J("ops", "-p len=4 -p ops=99 -b 4", **CPP), J("ops", "-p len=5 -p ops=259 -b 3"),
]
# ---- C03 dropped tasks
Q["C03"] = [
    J("ops", "-p len=4 -p ops=7"), J("ops", "-p len=3 -p ops=7 -p droprest=1 -p pre=1"), J("ops", "-p len=3 -p ops=23 -p droprest=1", **L14), J("ops", "-p len=3 -p ops=13"), J("ops", "-p len=3 -p ops=39 -b 3"),
    J("ops", "-p len=3 -p ops=5 -p droprest=1 -tso 1"), J("ops", "-p w=3 -p ops=7 -p len=3 -b 2"), J("arity", "-p prog=33911"), J("arity", "-p prog=23954911"), J("ops", "-p len=3 -p ops=1541 -b 1"),
    J("ops", "-p len=3 -p ops=133 -b 3"), J("deque", "-p maxdq=10"), J("ops", "-p len=3 -p ops=2055 -p droprest=1"),
]
T["C03"] = Q["C03"] + [
    J("ops", "-p len=5 -p ops=7"), J("ops", "-p len=5 -p ops=23 -p pre=1"), J("ops", "-p len=5 -p ops=7 -p droprest=1"), J("ops", "-p len=4 -p ops=39"), J("ops", "-p len=4 -p ops=13"), J("ops", "-p len=3 -p ops=7 -tso 1"),
    J("ops", "-p w=3 -p ops=23 -p len=4 -b 2"), J("ops", "-p len=3 -p ops=1541 -b 2"), J("arity", "-p prog=33911", lang="c++"), arity("-p prog=33911", 14),
]
# ---- C04 external submissions
Q["C04"] = [
    W("-p mode=0 -p n=2 -b 3"), W("-p mode=1 -p w=3 -burst -b 1"),
    J("external", "-p w=1 -p n=3"), J("external", "-p w=2 -p n=2 -b 3"), J("external", "-p w=2 -p n=3 -b 1"), J("external", "-p w=1 -p n=2 -p twice=1"), J("external", "-p w=2 -p n=2 -p spawn=1 -b 2", **L14), J("external", "-p w=1 -p n=2 -p asleep=1"),
    J("external", "-p w=2 -p n=2 -p asleep=1 -b 2"), J("external", "-p w=1 -p n=2 -p k0=1"), J("external", "-p w=1 -p n=2 -p k0=1 -p k1=1"), J("external", "-p w=1 -p n=3 -p k0=1 -b 3"), J("external", "-p w=1 -p n=2 -tso 1"),
    J("external", "-p w=1 -p n=2 -faults 1 i"), J("external", "-p w=3 -p n=2 -b 1"), J("external", "-p w=1 -p n=3 -p twice=1 -b 2"),
]
T["C04"] = Q["C04"] + [
    J("external", "-p w=1 -p n=4"), J("external", "-p w=2 -p n=3"), J("external", "-p w=2 -p n=4 -b 2"), J("external", "-p w=1 -p n=3 -p twice=1"), J("external", "-p w=2 -p n=3 -p k0=1 -p k1=1 -b 2"), J("external", "-p w=2 -p n=2 -p spawn=1"),
    J("external", "-p w=2 -p n=2 -tso 1"), J("external", "-p w=1 -p n=3 -tso 1"), J("external", "-p w=1 -p n=2 -p twice=1 -faults 2 isc"), J("external", "-p w=2 -p n=2 -p asleep=1"), J("external", "-p w=2 -p n=2 -p twice=1 -b 3", **CPP),
]
# ---- C05 exclusive
Q["C05"] = [
    J("external", "-p exclusive=1 -p w=1 -p n=2 -p k0=1"), J("external", "-p exclusive=1 -p w=2 -p n=2 -p k0=1"), J("external", "-p exclusive=1 -p w=2 -p n=2 -p k0=1 -p k1=1"), J("external", "-p exclusive=1 -p w=2 -p n=3 -p k0=1 -b 2"),
    J("external", "-p exclusive=1 -p w=2 -p n=2 -p k0=1 -p spawn=1 -b 2", **L14), J("external", "-p exclusive=1 -p w=3 -p n=2 -p k0=1 -b 1"), J("external", "-p exclusive=1 -p w=2 -p n=2 -p k0=1 -p twice=1 -b 2"), J("external", "-p exclusive=1 -p w=1 -p n=3 -p k0=1 -p k1=1 -b 3"),
    J("external", "-p exclusive=1 -p w=1 -p n=2 -p k0=1 -p asleep=1"), J("external", "-p exclusive=1 -p w=1 -p n=3 -p k0=1"),
    J("external", "-p exclusive=1 -p w=2 -p n=2 -p k0=1 -p asleep=1 -b 2"),
]
T["C05"] = Q["C05"] + [
    J("external", "-p exclusive=1 -p w=2 -p n=3 -p k0=1 -p k1=1 -b 2"), J("external", "-p exclusive=1 -p w=2 -p n=3 -p k0=1 -b 3"), J("external", "-p exclusive=1 -p w=2 -p n=3 -p k0=1"), J("external", "-p exclusive=1 -p w=2 -p n=2 -p k0=1 -tso 1"), J("external", "-p exclusive=1 -p w=3 -p n=3 -p k0=1 -p k1=1 -p k2=1 -b 1"),
    J("external", "-p exclusive=1 -p w=2 -p n=2 -p k0=1 -p twice=1 -b 3"), J("external", "-p exclusive=1 -p w=2 -p n=2 -p k0=1 -p spawn=1", **CPP),
]


def I(args, **b):
    return J("interrupt", args, **b)


# ---- C06 TOGETHER
Q["C06"] = [
    W("-p mode=2 -b 3"), W("-p mode=2 -p w=3 -burst -b 1"),
    I("-p e0=1002"), I("-p e0=1005"), I("-p e0=1005 -p sub=1 -b 3"), I("-p e0=1022"), I("-p e0=1009 -b 3"), I("-p e0=20"), I("-p e0=21 -b 3"), I("-p w=3 -p e0=1005 -b 1"), I("-p w=3 -p e0=20 -b 1"),
    I("-p e0=1005 -p sub=1 -b 2", **L14), I("-p w=1 -p e0=1005 -p sub=8"), I("-p e0=1002 -tso 1 -b 2"), I("-p e0=1025 -p asleep=1 -b 2"), I("-p e0=1002 -p sub=4"), J("arity", "-p mode=1"),
]
T["C06"] = Q["C06"] + [
    I("-p e0=1005 -p sub=8"), I("-p e0=1009"), I("-p w=3 -p e0=1005 -p sub=1 -b 2"), I("-p w=3 -p e0=1009 -b 2"), I("-p w=4 -p e0=1002 -b 1"), I("-p e0=1005 -p sub=1 -tso 1 -b 3"), I("-p e0=1002 -p e1=1005"), I("-p e0=1058 -p sub=1 -b 3", **CPP), I("-p w=3 -p e0=1002 -b 3"),
    J("context", "-p ops=67 -p len=2"), arity("-p mode=1 -p inter=1 -b 1 -p v0=20", 14),
]
# ---- C07 NEWFRAME
Q["C07"] = [
    W("-p mode=3 -b 3"), W("-p mode=3 -p w=3 -burst -b 1"),
    I("-p e0=1003"), I("-p e0=1006"), I("-p e0=1006 -p sub=1 -b 3"), I("-p e0=1033 -p sub=1 -b 2"), I("-p e0=1009 -p ra=1 -p sub=8 -b 2"), I("-p e0=30"), I("-p e0=38 -b 3"), I("-p w=3 -p e0=1006 -p sub=1 -b 1"), I("-p e0=1006 -p sub=8 -b 3", **L14),
    I("-p w=1 -p e0=1006 -p sub=8"), I("-p e0=1003 -tso 1 -b 2"), I("-p e0=1036 -p asleep=1 -b 2"), I("-p e0=1066 -p sub=1 -b 2"), I("-p w=3 -p e0=31 -b 1"),
]
T["C07"] = Q["C07"] + [
    I("-p e0=1006 -p sub=8"), I("-p e0=1009 -p ra=1 -p sub=8"), I("-p w=3 -p e0=1006 -p sub=8 -b 2"), I("-p w=3 -p e0=1009 -p ra=1 -p sub=1 -b 2"), I("-p w=4 -p e0=1003 -b 1"), I("-p e0=1006 -p sub=1 -tso 1 -b 3"), I("-p e0=1003 -p e1=1006"), I("-p e0=1068 -p sub=1 -b 3", **CPP), I("-p w=3 -p e0=1003 -b 3"),
    J("context", "-p ops=35 -p len=2"),
]
# ---- C08 concurrent and nested
Q["C08"] = [
    I("-p e0=1007"), I("-p e0=1007 -p ra=1 -p rb=0"), I("-p e0=1007 -p ra=0 -p rb=0"), I("-p e0=1007 -p ra=1 -p rb=1"), I("-p e0=1002 -p e1=1003 -b 3"), I("-p e0=1005 -p e1=1006 -b 2"), I("-p e0=20 -p e1=30 -b 3"), I("-p e0=30 -p e1=30 -b 3"), I("-p e0=20 -p e1=20 -b 3"),
    I("-p e0=1006 -p sub=6 -b 2"), I("-p e0=1005 -p sub=5 -b 2"), I("-p e0=1006 -p sub=5 -b 2", **L14), I("-p e0=1005 -p sub=6 -b 2"), I("-p w=3 -p e0=1007 -b 1"), I("-p w=3 -p e0=1007 -p ra=1 -p rb=0 -b 1"), I("-p e0=1007 -p sub=1 -p sub2=1 -b 2"), I("-p w=3 -p e0=20 -p e1=30 -b 0"),
    I("-p e0=1002 -p e1=20 -p e2=30 -b 0"), I("-p w=3 -p e0=1003 -p e1=1003 -b 0"),
]
T["C08"] = Q["C08"] + [
    I("-p e0=1007 -p sub=3 -p sub2=2 -b 2"), I("-p e0=1007 -p sub=2 -p sub2=3 -b 2"), I("-p e0=1007 -p sub=2 -p sub2=3 -p ra=1 -p rb=0 -b 2"), I("-p e0=1006 -p sub=6"), I("-p e0=1006 -p sub=5"), I("-p e0=1005 -p sub=6"), I("-p w=3 -p e0=1007 -b 2"), I("-p w=3 -p e0=1007 -p ra=1 -p rb=1 -b 2"), I("-p w=3 -p e0=1006 -p sub=6 -b 1"),
    I("-p w=3 -p e0=1002 -p e1=1003 -b 2"), I("-p w=4 -p e0=1007 -b 1"), I("-p e0=1007 -tso 1 -b 3"), I("-p e0=1002 -p e1=20 -p e2=30 -b 2"), I("-p e0=1077 -b 2", **CPP), I("-p e0=1006 -p sub=7 -b 2"), I("-p w=3 -p e0=1007 -p sub=3 -p sub2=2 -b 1"),
]
# ---- C09 barrier
Q["C09"] = [
    J("barrier", "-p w=2 -p rounds=3"), J("barrier", "-p w=3 -p rounds=2 -b 1"), J("barrier", "-p w=2 -p rounds=2 -p times=2"), J("barrier", "-p w=2 -p rounds=3 -p inside=0"), J("barrier", "-p w=1 -p rounds=3"), J("barrier", "-p w=2 -p rounds=2 -tso 1"),
    J("barrier", "-p w=2 -p rounds=5"), J("barrier", "-p w=2 -p rounds=2 -faults 1 c"), J("barrier", "-p gather=1 -p w=3 -p rounds=5"), J("barrier", "-p gather=1 -p w=3 -p rounds=5", **L14), J("barrier", "-p gather=1 -p w=3 -p rounds=2 -tso 2"),
    J("barrier", "-p gather=1 -p w=4 -p rounds=2 -b 4"), J("barrier", "-p gather=1 -p w=5 -p rounds=2 -b 2"), J("barrier", "-p gather=1 -p w=3 -p rounds=3 -p times=2 -b 3"), J("barrier", "-p gather=1 -p w=3 -p rounds=3 -faults 1 c"),
]
T["C09"] = Q["C09"] + [
    J("barrier", "-p w=3 -p rounds=2 -b 2"), J("barrier", "-p w=3 -p rounds=3 -b 2", **L14), J("barrier", "-p gather=1 -p w=4 -p rounds=3 -b 6"), J("barrier", "-p w=3 -p rounds=2 -tso 1 -b 1"), J("barrier", "-p gather=1 -p w=6 -p rounds=2 -b 1"), J("barrier", "-p w=2 -p rounds=4 -p times=3"),
    J("barrier", "-p gather=1 -p w=4 -p rounds=2 -tso 1 -b 3"),
]


def S(args, **b):
    return J("suspend", args, **b)


# ---- C10 suspend
Q["C10"] = [
    S("-p w=1 -p len=2 -p ops=39"), S("-p w=2 -p len=1"), S("-p w=2 -p len=2 -p ops=35 -b 2"), S("-p w=1 -p len=3 -p ops=35"), S("-p w=2 -p len=3 -p ops=39 -b 1"), S("-p w=1 -p len=1 -p ops=1 -p t1=2"), S("-p w=1 -p len=1 -p ops=1 -p t1=1"), S("-p w=2 -p len=1 -p ops=1 -p t1=2 -b 2"), S("-p w=2 -p len=1 -p ops=1 -p t1=1 -b 2", **L14),
    S("-p w=1 -p len=2 -p ops=3 -p t1=1 -b 3"), S("-p w=2 -p len=2 -p ops=33 -p early=1 -b 1"), S("-p w=3 -p len=2 -p ops=33 -b 1"), S("-p w=1 -p len=2 -p ops=35 -tso 1"), S("-p w=2 -p len=2 -p ops=33 -faults 1 is -b 1"),
]
T["C10"] = Q["C10"] + [
    S("-p w=1 -p len=4 -p ops=39"), S("-p w=2 -p len=2 -p ops=39"), S("-p w=2 -p len=3 -p ops=127 -b 2"), S("-p w=3 -p len=2 -p ops=39 -b 2"), S("-p w=2 -p len=2 -p ops=35 -p t1=1 -b 2"), S("-p w=2 -p len=2 -p ops=3 -p t1=21 -b 2"), S("-p w=2 -p len=1 -p ops=1 -p t1=1 -p t2=1 -b 2"), S("-p w=1 -p len=2 -p ops=7 -p t1=6"),
    S("-p w=2 -p len=2 -p ops=33 -p early=1 -b 3"), S("-p w=2 -p len=2 -p ops=35 -tso 1 -b 2"), S("-p w=1 -p len=2 -p ops=39 -faults 2 isc", **CPP),
]
# ---- C11 resume
Q["C11"] = [
    S("-p w=1 -p len=2 -p ops=7"), S("-p w=2 -p len=2 -p ops=5 -b 2"), S("-p w=2 -p len=2 -p ops=9 -b 2"), S("-p w=2 -p len=3 -p ops=7 -b 1"), S("-p w=2 -p len=2 -p ops=81 -b 1"), S("-p w=1 -p len=1 -p ops=1 -p t1=2"), S("-p w=1 -p len=1 -p ops=1 -p t1=3"), S("-p w=1 -p len=1 -p ops=1 -p t1=4"), S("-p w=2 -p len=1 -p ops=1 -p t1=4 -b 1"),
    S("-p w=2 -p len=1 -p ops=5 -p t1=2 -b 2", **L14), S("-p w=2 -p len=1 -p ops=1 -p t1=5 -b 2"), S("-p w=3 -p len=2 -p ops=13 -b 0"), S("-p w=1 -p len=1 -p ops=1 -p t1=2 -p t2=2 -b 3"), S("-p w=2 -p len=2 -p ops=5 -faults 1 is -b 1"), S("-p w=2 -p len=2 -p ops=35 -p t1=2 -b 1"),
    S("-p w=1 -p len=3 -p ops=5"),
]
T["C11"] = Q["C11"] + [
    S("-p w=1 -p len=4 -p ops=7"), S("-p w=2 -p len=2 -p ops=15"), S("-p w=2 -p len=4 -p ops=31 -b 2"), S("-p w=3 -p len=2 -p ops=13 -b 2"), S("-p w=2 -p len=2 -p ops=7 -p t1=25 -b 2"), S("-p w=2 -p len=1 -p ops=1 -p t1=4 -p t2=2 -b 2"), S("-p w=2 -p len=2 -p ops=5 -tso 1 -b 2"), S("-p w=2 -p len=2 -p ops=13 -p early=1 -b 2"),
    S("-p w=1 -p len=3 -p ops=21 -faults 2 isc", **CPP),
]
# ---- C12 lifecycle
Q["C12"] = [
    J("lifecycle", ""), J("lifecycle", "-p cycles=3 -p works=4"), J("lifecycle", "-p inter=1 -b 1"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=1"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p work=0 -b 3"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p work=3 -b 2"), J("lifecycle", "-p inter=2 -p w=1 -p work=0 -b 1"),
    J("lifecycle", "-p inter=2 -p w=1 -p work=3 -b 1"), J("lifecycle", "-p wmin=0 -p wmax=4 -p dqs=4 -p works=9 -p cycles=1", **L14), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p work=0 -p settle=0 -b 1"), J("lifecycle", "", defs=("LACE_USE_MMAP",)), J("lifecycle", "", config=ALLSTATS), J("lifecycle", "-p wmin=3 -p wmax=3 -p inter=1 -p cycles=1 -p dqs=1 -b 1"),
    J("lifecycle", "-p cycles=2 -p inter=1 -p w=1 -p works=4 -b 2"),
]
T["C12"] = Q["C12"] + [
    J("lifecycle", "-p cycles=4 -p works=5"), J("lifecycle", "-p inter=1 -b 2"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p work=3"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p work=0"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p work=1 -b 3"), J("lifecycle", "-p inter=2 -p w=2 -p work=0 -b 1"), J("lifecycle", "-p inter=2 -p w=2 -p work=3 -b 1"),
    J("lifecycle", "-p inter=2 -p w=1 -p works=9 -b 2"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=1 -p work=1 -tso 1"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p works=9 -faults 1 isc -b 1"), J("lifecycle", "-p wmin=3 -p wmax=3 -p inter=1 -p cycles=1 -p dqs=1 -b 2"), J("lifecycle", "-p cycles=3 -p works=9", **CPP),
]
# ---- C13 deque capacity
Q["C13"] = [
    arity("-p mode=3"), arity("-p mode=3", 14), arity("-p mode=3", 22), arity("-p mode=3", lang="c++"),
    J("deque", "-p maxdq=12"), J("deque", "-p maxdq=20 -p mindq=13"), J("deque", "-p w=2 -p maxdq=6"), J("deque", "-p mode=1 -p maxdq=12"), J("deque", "-p mode=1 -p maxdq=6 -p w=2"), J("deque", "-p mode=2"), J("deque", "-p w=2 -p maxdq=3 -p mindq=1 -p inter=1 -p repeat=0 -b 1"), J("deque", "-p maxdq=12", **L14), J("deque", "-p mode=1 -p maxdq=10", **L14),
    J("deque", "-p mode=1 -p maxdq=4 -p w=2 -p inter=1 -b 1"), J("deque", "-p maxdq=64 -p mindq=62"), J("deque", "-p maxdq=10", **CPP),
]
T["C13"] = Q["C13"] + [
    J("deque", "-p maxdq=40"), J("deque", "-p w=2 -p maxdq=20"), J("deque", "-p w=3 -p maxdq=8"), J("deque", "-p w=2 -p maxdq=4 -p inter=1 -p repeat=0 -b 2"), J("deque", "-p w=2 -p maxdq=3 -p inter=1 -p repeat=0 -b 3"), J("deque", "-p mode=1 -p maxdq=40"), J("deque", "-p mode=1 -p maxdq=3 -p w=2 -p inter=1 -b 3"), J("deque", "-p w=2 -p maxdq=2 -p inter=1"),
    J("deque", "-p maxdq=20", config=ALLSTATS),
]


def X(args, **b):
    return J("context", args, **b)


# ---- C14 context
Q["C14"] = [
    W("-p mode=0 -b 2"), W("-p mode=1 -p w=3 -burst -b 1", **L14), W("-p mode=2 -b 2"), W("-p mode=3 -b 2"),
    arity("-p mode=1"), arity("-p mode=1", 14),
    X("-p len=2"), X("-p len=2 -p pub=1 -b 2"), X("-p len=1 -p ops=2047"), X("-p len=2 -p ops=2047 -b 1"), X("-p w=1 -p len=3 -p ops=2047"), X("-p w=1 -p len=2 -p ops=2047 -p depth=2 -p budget=3"), X("-p len=2 -p ops=1027 -p pub=1 -b 2"), X("-p len=2 -p ops=2047 -p ex=1 -b 0", **L14), X("-p w=3 -p len=1 -p ops=2047 -b 0"),
    X("-p len=3 -p ops=139 -b 1"), J("ops", "-p len=3 -p ops=2055"), J("deque", "-p maxdq=10"), X("-p len=2 -p ops=2047 -b 0", **CPP),
]
T["C14"] = Q["C14"] + [
    W("-p mode=0"), W("-p mode=1 -p w=3 -burst -b 2"), W("-p mode=2"), W("-p mode=3"),
    X("-p len=2 -p ops=2047"), X("-p len=3 -p ops=2047 -b 1"), X("-p len=2 -p ops=2047 -p depth=2 -p budget=3 -b 1"), X("-p w=3 -p len=2 -p ops=2047 -b 0"), X("-p w=1 -p len=4 -p ops=2047"), X("-p len=3 -p pub=1"), X("-p w=1 -p len=3 -p ops=2047 -p depth=3 -p budget=3"), J("ops", "-p len=4 -p ops=2055"),
]
# ---- C15 kinds and arities
Q["C15"] = [
    arity("-p mode=3"), arity("-p mode=3", 14), arity("-p mode=4"), arity("-p mode=4", 14), arity("-p mode=4", 22),
    arity("-p prog=22911"), arity("-p prog=22291511"), arity("-p prog=22954911"), arity("-p prog=33911"), arity("-p prog=23954911"), arity("-p prog=8769"), arity("-p mode=1"), arity("-p mode=1 -p inter=1 -b 1"), arity("-p mode=2 -p inter=1 -b 1"), arity("-p mode=1 -p w=3"),
    arity("-p prog=22911", 14), arity("-p prog=22291511", 14), arity("-p prog=22954911", 14), arity("-p prog=33911", 14), arity("-p prog=8769", 14), arity("-p mode=1", 14), arity("-p mode=2 -p inter=1 -b 1", 14),
    arity("-p prog=22911 -p v0=14", 22), arity("-p prog=22954911", 22), arity("-p prog=22291511 -b 1", 22), arity("-p mode=1", 22), arity("-p prog=8769 -b 1", 22),
    arity("-p prog=22911", lang="c++"), arity("-p prog=22954911", lang="c++"), arity("-p prog=8769", lang="c++"), arity("-p mode=1", lang="c++"), arity("-p prog=22291511", lang="c++"), arity("-p mode=2", lang="c++"),
    arity("-p prog=22911", 14, lang="c++"), arity("-p mode=1", 14, lang="c++"), arity("-p prog=22954911", 14, lang="c++"),
]
T["C15"] = Q["C15"] + [
    arity("-p mode=1 -p inter=1 -b 2"), arity("-p mode=1 -p inter=1 -b 1", 14), arity("-p mode=2 -p inter=1 -b 3"), arity("-p prog=22911", 22), arity("-p prog=22291511", 22), arity("-p mode=1", 22, lang="c++"), arity("-p mode=1 -p w=3", 14), arity("-p prog=22911", 30), arity("-p mode=1", 30), arity("-p prog=22954911", 14, config=ALLSTATS), arity("-p mode=1", config=ALLSTATS),
    arity("-p prog=22911", opt="-O3"), arity("-p prog=22911", opt="-O0"), arity("-p prog=22911 -tso 1 -b 2"), arity("-p prog=2212911"), arity("-p prog=23914911"),
]


def ST(args, cfg, **b):
    return J("stats", args, config=tuple(cfg), **b)


combos = [c for k in range(0, 5) for c in combinations(STATS, k)]
# ---- C16 statistics
Q["C16"] = [ST("-p w=2 -p len=2 -p ops=511 -b 1", c) for c in combos] + [
    ST("-p w=2 -p len=3", COUNTS), ST("-p w=2 -p len=2 -p ops=9 -b 3", ALLSTATS), ST("-p w=2 -p len=2 -p ops=11 -p reset=1 -b 2", COUNTS), ST("-p w=2 -p len=2 -p ops=3 -p reset=3 -b 2", ALLSTATS), ST("-p w=2 -p len=1 -p reset=2 -b 2", ALLSTATS), ST("-p w=3 -p len=2 -p ops=3 -b 1", COUNTS), ST("-p w=2 -p len=2 -p ops=3 -p clock=0", ALLSTATS),
    ST("-p w=2 -p len=2 -p ops=3 -p clock=5000", ALLSTATS), ST("-p w=2 -p len=2 -p ops=65 -b 3", COUNTS, edition="lace14"), J("forkjoin", "-p n=3", config=ALLSTATS), J("forkjoin", "-p n=3", config=COUNTS), J("ops", "-p len=3 -p ops=7 -b 3", config=ALLSTATS), J("interrupt", "-p e0=1005 -p sub=1 -b 2", config=ALLSTATS), J("interrupt", "-p e0=1006 -p sub=1 -b 2", config=ALLSTATS),
    J("suspend", "-p w=2 -p len=2 -p ops=7 -b 1", config=ALLSTATS), J("forkjoin", "-p n=3", config=("LACE_PIE_TIMES",)), J("lifecycle", "", config=ALLSTATS), ST("-p w=2 -p len=2 -p ops=511 -b 1", ALLSTATS, lang="c++"), ST("-p w=2 -p len=2 -p ops=7", ALLSTATS),
    ST("-p all=1 -p len=0 -p inter=0", COUNTS), ST("-p all=1 -p len=0 -p inter=0", ALLSTATS, edition="lace14", defs=("MAX_ARITY=14",)), ST("-p all=1 -p len=0 -p inter=0 -p w=3", COUNTS),
]
T["C16"] = Q["C16"] + [ST("-p w=2 -p len=2 -p ops=511 -b 2", c) for c in combos[1:]] + [
    ST("-p w=2 -p len=4", COUNTS), ST("-p w=2 -p len=3 -p ops=15", ALLSTATS), ST("-p w=2 -p len=2 -p ops=11 -p reset=1", COUNTS), ST("-p w=2 -p len=2 -p ops=11 -p reset=3", COUNTS), ST("-p w=2 -p len=1 -p reset=2 -b 3", ALLSTATS), ST("-p w=3 -p len=2 -p ops=11 -b 2", COUNTS), J("ops", "-p len=4 -p ops=7", config=ALLSTATS), J("interrupt", "-p e0=1007", config=ALLSTATS),
    J("external", "-p w=2 -p n=2 -p k0=1 -b 3", config=ALLSTATS), J("suspend", "-p w=2 -p len=2 -p ops=39 -b 2", config=ALLSTATS), ST("-p w=2 -p len=2 -p ops=3 -tso 1 -b 3", ALLSTATS),
]


def P(args, **b):
    return J("progress", args, **b)


# ---- C17 progress
Q["C17"] = [
    P("-p mode=1 -p len=2 -p w=3 -p scan=3 -k 4 -b 0"), P("-p mode=0 -p len=4 -p scan=2 -k 3"),
    arity("-p mode=4"), arity("-p mode=4 -p w=3"), arity("-p mode=4", 14),
    P("-p mode=0 -p len=5"), P("-p mode=0 -p len=4 -p ops=19"), P("-p mode=0 -p len=3 -p ops=127"), P("-p mode=0 -p len=4 -p w=3"), P("-p mode=0 -p len=4 -p ops=7"), P("-p mode=0 -p len=4 -p ops=35"), P("-p mode=1 -p len=3"), P("-p mode=1 -p len=3 -p again=1"), P("-p mode=1 -p len=3 -p ops=19 -p again=1"), P("-p mode=1 -p len=3 -p w=3 -b 2"), P("-p mode=1 -p len=3 -p ops=7", **L14),
    P("-p mode=2 -p kind=1"), P("-p mode=2 -p kind=1 -p w=3 -b 2"), P("-p mode=2 -p kind=2 -p pre=4"), P("-p mode=2 -p kind=3"), P("-p mode=2 -p kind=4"), P("-p mode=2 -p kind=3 -p pre=2"), P("-p mode=0 -p len=5", **L14), P("-p mode=2 -p kind=1 -p pre=2 -tso 1"), P("-p mode=0 -p len=4 -p ops=67"),
]
T["C17"] = Q["C17"] + [
    P("-p mode=0 -p len=3 -p w=3 -p scan=2 -k 3 -b 1"), P("-p mode=1 -p len=2 -p w=3 -p scan=3 -k 4 -b 1"),
    P("-p mode=0 -p len=7"), P("-p mode=0 -p len=4 -p ops=127"), P("-p mode=0 -p len=5 -p w=3"), P("-p mode=0 -p len=6 -p ops=7"), P("-p mode=0 -p len=6 -p ops=19"), P("-p mode=1 -p len=4 -p ops=23 -p again=1"), P("-p mode=1 -p len=4 -p w=3 -p again=1 -b 2"), P("-p mode=1 -p len=3 -p again=1 -tso 1 -b 3"), P("-p mode=2 -p kind=4 -p w=3 -b 2"), P("-p mode=2 -p kind=2 -p pre=6"),
    P("-p mode=0 -p len=5", **CPP),
]


def B(args, **b):
    return J("bounded", args, **b)


# ---- C18 bounded steps
Q["C18"] = [arity("-p prog=22911 -p steps=40 -b 2"), arity("-p prog=22911 -p steps=40 -b 1", 14), B("-p duel=1 -p n=24"), B("-p duel=2 -p n=40"), B("-p duel=3 -p n=24"), B("-p duel=1 -p n=24", **L14), B("-p team=1 -faults 20 b"), B("-p len=3 -faults 20 b"), B("-p len=3 -p ops=13 -faults 20 b"), B("-p len=3"), B("-p len=4 -p ops=31 -b 3"), B("-p len=3 -p ops=13"), B("-p len=5 -p ops=3"), B("-p team=1"), B("-p team=1 -p tries=2 -b 3"), B("-p w=3 -p len=3 -p ops=7 -b 2"), B("-p w=3 -p team=1 -p len=1 -b 2"), B("-p len=3 -p ops=15", **L14), B("-p len=3 -tso 1"), B("-p len=3 -p ops=31", config=ALLSTATS), B("-p w=1 -p len=6 -p ops=31")]
T["C18"] = Q["C18"] + [B("-p len=4 -p ops=31"), B("-p len=5 -p ops=15"), B("-p len=7 -p ops=3"), B("-p team=1 -p len=3 -p tries=2"), B("-p w=3 -p team=1 -p len=2 -b 2"), B("-p w=3 -p len=3 -p ops=15 -b 3"), B("-p w=4 -p len=2 -p ops=7 -b 1"), B("-p len=4 -tso 1")]
# ---- C19 interrupted waits, spurious failures
Q["C19"] = [
    J("external", "-p exclusive=1 -p w=2 -p n=2 -p k0=1 -faults 1 isc -b 2"), J("external", "-p exclusive=1 -p w=2 -p n=3 -p k0=1 -faults 1 s -b 1"), J("external", "-p exclusive=1 -p w=2 -p n=2 -p k0=1 -p k1=1 -faults 1 is -b 2"), J("external", "-p exclusive=1 -p w=2 -p n=3 -p k0=1 -p k1=1 -faults 1 s -b 1"),
    J("external", "-p w=1 -p n=2 -faults 1 isc"), J("external", "-p w=1 -p n=2 -p k0=1 -faults 1 isc"), J("external", "-p w=1 -p n=2 -p asleep=1 -faults 1 isc"), J("external", "-p w=2 -p n=2 -faults 1 isc -b 2", **L14), J("external", "-p w=1 -p n=2 -faults 2 isc"),
    S("-p w=1 -p len=2 -p ops=39 -faults 1 isc"), S("-p w=2 -p len=2 -p ops=37 -faults 1 isc -b 1"), S("-p w=2 -p len=2 -p ops=9 -faults 1 isc -b 1"), S("-p w=1 -p len=2 -p ops=33 -faults 2 isc"), S("-p w=1 -p len=1 -p ops=1 -p t1=2 -faults 1 isc"),
    I("-p e0=1002 -faults 1 isc"), I("-p e0=1003 -faults 1 isc"), I("-p e0=1007 -faults 1 isc -b 2"), I("-p e0=20 -p e1=30 -faults 1 isc -b 2"), J("forkjoin", "-p n=3 -faults 1 c"), J("ops", "-p len=3 -p ops=7 -faults 1 c"), J("barrier", "-p w=2 -p rounds=2 -faults 1 c"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=1 -faults 1 isc -b 2"),
    I("-p e0=1007 -p ra=1 -p rb=1 -faults 1 c -b 2"), J("ops", "-p len=3 -p ops=19 -faults 2 c -b 2"), S("-p w=2 -p len=2 -p ops=33 -faults 1 is -b 1"),
]
T["C19"] = Q["C19"] + [
    J("external", "-p w=1 -p n=3 -p k0=1 -faults 2 isc"), J("external", "-p w=2 -p n=2 -faults 2 isc"), S("-p w=2 -p len=3 -p ops=47 -faults 1 isc -b 1"), S("-p w=2 -p len=2 -p ops=33 -faults 2 isc -b 1"), S("-p w=1 -p len=3 -p ops=39 -faults 3 isc"), I("-p e0=1007 -faults 2 isc -b 2"), I("-p w=3 -p e0=1007 -faults 1 isc -b 1"), I("-p e0=1006 -p sub=6 -faults 1 isc -b 2"),
    I("-p e0=20 -p e1=30 -faults 2 isc -b 3"), J("ops", "-p len=4 -p ops=7 -faults 2 c -b 3"), J("forkjoin", "-p w=3 -p n=3 -faults 1 c -b 2"), J("lifecycle", "-p inter=1 -faults 1 isc -b 1"),
]
# ---- C20 termination
Q["C20"] = [
    J("ops", "-p ops=4098 -p len=1", **L14), W("-p mode=0 -b 3"), W("-p mode=1 -p w=3 -burst -b 1"), W("-p mode=2 -b 2"), W("-p mode=3 -b 2"), J("forkjoin", "-p w=3 -p n=2 -p scan=3 -k 4 -b 1"),
    J("forkjoin", "-p n=4"), J("forkjoin", "-p w=3 -p n=2 -b 3"), J("ops", "-p len=3 -p ops=63 -b 2"), J("ops", "-p ops=2047 -p len=2 -b 1"), I("-p e0=1007 -b 3"), I("-p e0=1002 -p e1=1003 -b 3"), J("external", "-p w=1 -p n=3 -p k0=1"), S("-p w=2 -p len=2 -p ops=47 -b 1"), J("barrier", "-p w=2 -p rounds=3"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p work=0 -b 3"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p work=3 -b 2"),
    X("-p len=2 -p ops=2047 -b 1"), J("forkjoin", "-p n=3", hooks=False), J("forkjoin", "-p n=3 -norng"), J("ops", "-p len=3 -p ops=35 -tso 1 -b 2"), J("ops", "-p len=3 -p ops=99 -b 2", **L14), S("-p w=1 -p len=2 -p ops=7 -p t1=2 -b 2"),
]
T["C20"] = Q["C20"] + [
    J("forkjoin", "-p w=3 -p n=2"), J("ops", "-p len=3 -p ops=51"), J("ops", "-p ops=2047 -p len=3 -b 1"), J("ops", "-p w=3 -p ops=51 -p len=3 -b 2"), I("-p e0=1007 -p sub=3 -p sub2=2 -b 2"), I("-p w=3 -p e0=1007 -b 2"), S("-p w=2 -p len=3 -p ops=47 -b 2"), J("external", "-p w=2 -p n=3 -p k0=1 -b 3"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p work=1 -b 3"), X("-p len=2 -p ops=2047 -p depth=2 -p budget=3 -b 1"),
    J("forkjoin", "-p n=4 -tso 1"), J("lifecycle", "-p inter=1 -b 2"),
]
# ---- C21 start-up failures
Q["C21"] = [J("startfail", "-p wmax=4"), J("startfail", "-p wmax=4", **L14), J("startfail", "-p wmax=4", defs=("LACE_USE_MMAP",)), J("startfail", "-p wmax=4", config=ALLSTATS), J("startfail", "-p wmax=1 -p inter=1 -b 2"), J("startfail", "-p wmax=2 -p inter=1 -b 1"), J("startfail", "-p wmax=3", **CPP)]
T["C21"] = Q["C21"] + [J("startfail", "-p wmax=8"), J("startfail", "-p wmax=2 -p inter=1 -b 2"), J("startfail", "-p wmax=3 -p inter=1 -b 1"), J("startfail", "-p wmax=1 -p inter=1")]
# ---- C22 memory
Q["C22"] = [
    J("forkjoin", "-p w=3 -p n=2 -p scan=3 -k 4 -b 1"), W("-p mode=0 -p w=3 -burst -b 1"), J("ops", "-p ops=4098 -p len=2 -b 3"),
    I("-p e0=1006 -p sub=1 -b 3"), I("-p e0=1005 -p sub=1 -b 3"), I("-p e0=20 -p e1=30 -b 3"), I("-p w=3 -p e0=1003 -b 1"), I("-p w=3 -p e0=1002 -b 1"), J("external", "-p w=2 -p n=2 -b 3"), J("external", "-p w=2 -p n=2 -p k0=1 -b 3"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p work=0 -b 3"), J("lifecycle", "-p inter=1 -p cycles=2 -p w=1 -p works=4 -b 1"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p work=1 -b 1"),
    J("deque", "-p maxdq=12"), J("deque", "-p w=2 -p maxdq=3 -p inter=1 -p repeat=0 -b 1"), J("ops", "-p len=3 -p ops=55 -b 2"), S("-p w=2 -p len=2 -p ops=13 -b 1"), J("ops", "-p len=2 -p ops=2047 -b 1", **L14), J("lifecycle", "-p wmin=1 -p wmax=4 -p dqs=4 -p works=9 -p cycles=1", defs=("LACE_USE_MMAP",)), J("external", "-p w=1 -p n=2 -faults 1 i"), arity("-p mode=1 -b 1 -p inter=1 -p vn=4"),
]
T["C22"] = Q["C22"] + [
    I("-p w=3 -p e0=1006 -p sub=1 -b 2"), I("-p w=3 -p e0=1005 -p sub=1 -b 2"), I("-p e0=1006 -p sub=6 -b 3"), I("-p w=4 -p e0=1003 -b 1"), J("external", "-p w=3 -p n=3 -b 1"), J("external", "-p w=2 -p n=3 -b 3"), J("lifecycle", "-p inter=1 -b 2"), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p work=2 -b 2"), J("lifecycle", "-p inter=2 -p w=2 -p work=0 -b 1"), J("deque", "-p maxdq=40"), J("deque", "-p w=2 -p maxdq=3 -p inter=1 -p repeat=0 -b 3"),
    S("-p w=2 -p len=3 -p ops=13 -b 2"), I("-p e0=1003 -tso 1 -b 3"), I("-p e0=20 -tso 1 -b 3"),
]
# ---- C24 start-up configuration
HW = dict(config=("LACE_USE_HWLOC",))
def K(args, **b): return J("config", args, **b)
Q["C24"] = [
    K("-p len=2"), K("-p len=3"), K("-p len=1 -p nw=6 -p ndq=3"), K("-p len=1 -p pus=1 -p nw=6"), K("-p len=2 -p pus=5"), K("-p len=2 -p ndq=1", **L14), K("-p len=2 -p ndq=1", **CPP), K("-p len=2 -p ndq=1", defs=("LACE_USE_MMAP",)), K("-p len=2 -p ndq=1", config=ALLSTATS),
    K("-p len=1 -p nw=6 -p ndq=1", **HW), K("-p len=2 -p ops=33", **HW), K("-p len=2 -p ndq=1 -p nw=3", edition="lace14", **HW), K("-p len=1 -p inter=1 -p nw=3 -p ndq=1 -b 2"), K("-p len=1 -p inter=1 -p nw=2 -p ndq=1 -p shape=4 -b 1", **HW),
]
T["C24"] = Q["C24"] + [
    K("-p len=4 -p ops=35 -p nw=3"), K("-p len=3 -p pus=4 -p nw=6 -p ndq=3"), K("-p len=4 -p ops=59 -p nw=3 -p ndq=1"), K("-p len=3 -p ndq=1", **L14), K("-p len=3 -p ops=33 -p nw=4 -p ndq=1", **HW), K("-p len=1 -p inter=1 -p nw=2"), K("-p len=1 -p inter=1 -p nw=4 -p ndq=1 -b 1"), K("-p len=1 -p inter=1 -p nw=3 -p ndq=1 -p shape=4 -b 1", **HW), K("-p len=1 -p inter=1 -p nw=3 -p ndq=1 -p shape=5 -b 1", **HW),
]
# ---- C25 status queries
def U(args, **b): return J("query", args, **b)
Q["C25"] = [
    U("-p len=3"), U("-p len=4"), U("-p len=3 -p mode=1"), U("-p len=3 -p ops=63"), U("-p len=4 -p ops=47 -b 3"), U("-p len=3 -p ops=1023 -b 1"), U("-p len=3 -tso 1"), U("-p len=2 -p ops=1023 -p mode=1 -b 2"), U("-p len=3 -p ops=543 -p mode=1 -b 2"), U("-p w=3 -p len=2 -p mode=1 -b 2"),
    U("-p len=3 -p ops=63 -b 3", **L14), U("-p len=3 -p ops=63 -b 2", **CPP), U("-p len=3 -p mode=1 -faults 1 c -b 2"),
]
T["C25"] = Q["C25"] + [
    U("-p len=4 -p ops=63"), U("-p len=5"), U("-p len=4 -p mode=1"), U("-p len=4 -p ops=1023 -b 1"), U("-p len=3 -p ops=1023 -b 2"), U("-p len=4 -tso 1 -b 3"), U("-p len=3 -p mode=1 -tso 1"), U("-p w=3 -p len=3 -p ops=31 -b 2"), U("-p w=3 -p len=3 -p mode=1 -b 2"), U("-p w=4 -p len=2 -p mode=1 -b 1"), U("-p len=5 -p ops=31 -b 2", **L14),
]
# ---- the same progress inside interrupts
PC = [J("progress", "-p ctx=1 -p len=3"), J("progress", "-p ctx=2 -p len=3 -b 2"), J("progress", "-p ctx=1 -p mode=1 -p len=2 -b 2"), J("progress", "-p w=3 -p ctx=1 -p mode=1 -p len=1 -b 0")]
PT = [J("progress", "-p ctx=3 -p len=3 -b 2"), J("progress", "-p ctx=3 -p mode=1 -p len=2 -b 2"), J("progress", "-p ctx=1 -p len=2 -p ops=127 -b 1", **L14)]
Q["C07"] += PC
Q["C17"] += PC + PT
T["C07"] += PC + [J("progress", "-p ctx=2 -p len=3"), J("progress", "-p ctx=1 -p len=4 -b 2"), J("progress", "-p w=3 -p ctx=2 -p len=2 -b 1"), J("progress", "-p w=3 -p ctx=1 -p mode=1 -p len=2 -b 1"), J("progress", "-p ctx=1 -p mode=1 -p len=3 -b 3", **L14)]
T["C17"] += PC + PT + [J("progress", "-p ctx=3 -p len=4 -b 2"), J("progress", "-p ctx=3 -p len=3"), J("progress", "-p ctx=2 -p len=3 -p ops=127 -b 1"), J("progress", "-p w=3 -p ctx=3 -p len=3 -b 1")]
# ---- far from the start of the deque (more than 65536 outstanding tasks), and deques of more than 65536 tasks
def F(args, **b): return J("far", args, **b)
FQ = [F("-p n=66000 -p len=1 -b 0"), F("-p n=300 -p len=2 -p ops=127 -b 0"), F("-p n=260 -p len=1 -p ops=127 -b 1")]
FT = [F("-p n=260 -p len=1 -p ops=31 -b 0 -p w=3"), F("-p n=300 -p len=2 -p ops=127 -b 1"), F("-p n=260 -p len=1 -p ops=127 -b 1 -p w=3"), F("-p n=66000 -p len=2 -p ops=127 -b 0"), F("-p n=66000 -p len=1 -p ops=127 -b 1"), F("-p n=300 -p len=2 -p ops=127 -b 2"), F("-p n=300 -p len=3 -p ops=127 -b 1", **L14), F("-p n=131100 -p len=1 -p ops=127 -b 0")]
for p in ("C01", "C07", "C14", "C17"):
    Q[p] += FQ; T[p] += FQ + FT
Q["C13"] += FQ + [F("-p mode=1"), F("-p mode=1", **L14)]
T["C13"] += FQ + FT + [F("-p mode=1"), F("-p mode=1", **L14)]
# ---- the real random numbers instead of enumerated ones
NH = dict(hooks=False)
RQ = [J("progress", "-p mode=1 -p len=2 -p w=3 -b 1", **NH), J("progress", "-p mode=2 -p kind=1 -p w=3 -b 1", **NH), J("progress", "-p mode=2 -p kind=1 -p w=4 -b 0", **NH)]
Q["C17"] += RQ; T["C17"] += RQ + [J("progress", "-p mode=0 -p len=4 -p w=3", **NH), J("progress", "-p mode=2 -p kind=1 -p w=4 -b 1", **NH)]
RQ = [J("forkjoin", "-p n=2 -p w=3 -b 1", **NH), J("forkjoin", "-p n=2 -p w=3 -p scan=3 -k 4 -b 1", **NH)]
for p in ("C01", "C20", "C22"):
    Q[p] += RQ; T[p] += RQ
# ---- sizes that need more than 32 bits; more workers
RQ = [J("startfail", "-p huge=1"), J("startfail", "-p huge=1", defs=("LACE_USE_MMAP",)), J("startfail", "-p huge=1 -p inter=1 -b 1")]
for p in ("C21", "C24"):
    Q[p] += RQ; T[p] += RQ
RQ = [K("-p len=1 -p nw=8 -p ndq=1"), K("-p len=1 -p nw=8 -p ndq=1", **HW), K("-p len=2 -p nw=8 -p ndq=1 -p ops=33"), K("-p len=2 -p nw=2 -p ndq=1 -p ops=39 -p limits=1"), K("-p len=2 -p nw=2 -p ndq=1 -p ops=39 -p limits=1", **L14)]
Q["C24"] += RQ; T["C24"] += RQ
# ---- the time report: time passes in tasks only, so the times are known
PIE = ("LACE_PIE_TIMES",)
RQ = [ST("-p w=2 -p len=2 -p ops=3 -p clock=0 -p tick=40000 -p work=1", ALLSTATS), ST("-p w=2 -p len=2 -p ops=9 -p clock=0 -p tick=40000 -p work=1 -b 2", ALLSTATS), ST("-p w=2 -p len=2 -p ops=511 -p clock=0 -p tick=40000 -b 1", ALLSTATS),
      ST("-p w=2 -p len=2 -p ops=11 -p clock=0 -p tick=40000 -p work=1 -p reset=1 -b 1", ALLSTATS, **L14), ST("-p w=2 -p len=2 -p ops=3 -p clock=0 -p tick=40000 -p work=1 -p reset=3 -b 2", ALLSTATS), ST("-p w=3 -p len=2 -p ops=3 -p clock=0 -p tick=40000 -p work=1 -b 0", PIE)]
Q["C16"] += RQ
T["C16"] += RQ + [ST("-p w=2 -p len=2 -p ops=511 -p clock=0 -p tick=40000 -b 2", ALLSTATS), ST("-p w=3 -p len=2 -p ops=3 -p clock=0 -p tick=40000 -p work=1 -b 1", ALLSTATS), ST("-p w=2 -p len=3 -p ops=11 -p clock=0 -p tick=40000 -p work=1 -b 3", ALLSTATS)]
# ---- C23 stores become visible late and out of order
P1, P2 = " -tso 1 -pso 1", " -tso 2 -pso 1"
Q["C23"] = [
    J("forkjoin", "-p n=3" + P1), J("forkjoin", "-p n=4 -b 3" + P1), J("forkjoin", "-p n=2 -b 3" + P2), J("forkjoin", "-p w=3 -p n=2 -b 1" + P1), J("ops", "-p len=3" + P1), J("ops", "-p len=3 -p ops=19 -b 3" + P1, **L14), J("ops", "-p len=4 -p ops=19 -b 2" + P1), J("ops", "-p len=4 -b 2" + P1),
    J("ops", "-p len=2 -p ops=35 -b 2" + P1), J("ops", "-p len=3 -p ops=7 -b 2" + P1), J("ops", "-p len=3 -p ops=11 -b 2" + P1), J("external", "-p w=1 -p n=2 -b 3" + P1), J("external", "-p w=2 -p n=2 -b 2" + P1), J("external", "-p exclusive=1 -p w=1 -p n=2 -p k0=1 -b 3" + P1), J("external", "-p w=1 -p n=2 -p asleep=1 -b 2" + P1),
    I("-p e0=1002 -b 2" + P1), I("-p e0=1003 -b 2" + P1), I("-p e0=1007 -b 1" + P1), I("-p e0=1006 -p sub=1 -b 1" + P1, **L14), I("-p e0=20 -b 1" + P1), I("-p e0=30 -b 1" + P1), I("-p w=3 -p e0=1002 -b 0" + P1), J("barrier", "-p w=2 -p rounds=2 -b 3" + P1), J("barrier", "-p gather=1 -p w=3 -p rounds=3" + P1), J("barrier", "-p gather=1 -p w=3 -p rounds=3 -b 3" + P2, **L14), J("barrier", "-p gather=1 -p w=4 -p rounds=2 -b 2" + P1),
    S("-p w=1 -p len=3 -p ops=7 -b 2" + P1), S("-p w=2 -p len=2 -p ops=7 -b 1" + P1), S("-p w=2 -p len=2 -p ops=35 -b 1" + P1), S("-p w=1 -p len=2 -p ops=3 -p t1=1 -b 2" + P1), J("lifecycle", "-p inter=1 -p cycles=1 -p w=1 -p work=1 -b 3" + P1), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p work=1 -b 1" + P1), J("lifecycle", "-p inter=2 -p w=1 -p works=9 -b 1" + P1), W("-p mode=0 -b 2" + P1), W("-p mode=2 -b 1" + P1), W("-p mode=3 -b 1" + P1), X("-p len=2 -b 2" + P1), U("-p len=3 -p weak=1 -b 2" + P1),
    arity("-p prog=22911 -b 2" + P1), J("forkjoin", "-p n=2 -b 3" + P1, **CPP), P("-p mode=1 -p len=3 -p again=1 -b 2" + P1), ST("-p w=2 -p len=2 -p ops=3 -b 2" + P1, ALLSTATS),
]
T["C23"] = Q["C23"] + [
    J("forkjoin", "-p n=2" + P2), J("forkjoin", "-p n=4" + P1), J("ops", "-p len=4 -b 3" + P1), J("ops", "-p len=3 -p ops=35 -b 2" + P1), J("ops", "-p w=3 -p ops=3 -p len=2 -b 1" + P1), J("ops", "-p len=2 -b 3 -p ops=7" + P2), J("ops", "-p len=5 -p ops=19 -b 2" + P1),
    J("external", "-p w=2 -p n=2 -b 3" + P1), J("external", "-p w=1 -p n=2" + P1), J("external", "-p w=1 -p n=2 -b 3" + P2), I("-p e0=1002 -b 3" + P1), I("-p e0=1003 -b 3" + P1), I("-p e0=1007 -b 2" + P1), I("-p e0=1002 -b 1" + P2), I("-p w=3 -p e0=1007 -b 0" + P1), J("barrier", "-p w=2 -p rounds=3 -b 3" + P2), J("barrier", "-p gather=1 -p w=4 -p rounds=2 -b 4" + P1), J("barrier", "-p gather=1 -p w=5 -p rounds=2 -b 1" + P1),
    S("-p w=2 -p len=3 -p ops=7 -b 2" + P1), S("-p w=2 -p len=2 -p ops=35 -b 2" + P1), W("-p mode=3 -b 2" + P1), W("-p mode=2 -b 2" + P1), U("-p len=4 -p weak=1 -b 2" + P1), J("lifecycle", "-p inter=1 -p cycles=1 -p w=2 -p work=1 -b 2" + P1),
]
# ---- workers that wait by calling STEAL_RANDOM
def PO(args, **b): return J("poll", args, **b)
Q["C04"] += [PO("-p w=1"), PO("-p w=1 -p tg=1", **L14), PO("-p w=2 -b 2"), PO("-p w=2 -p tg=1 -b 1"), PO("-p w=3 -p tg=1 -b 0")]
T["C04"] += [PO("-p w=1"), PO("-p w=1 -p tg=1", **L14), PO("-p w=2"), PO("-p w=2 -p tg=1 -b 3"), PO("-p w=3 -p tg=1 -b 1"), PO("-p w=2 -p tg=1 -p mode=2 -b 2")]
Q["C17"] += [PO("-p w=2 -p tg=1 -p mode=1 -b 2"), PO("-p w=3 -p tg=1 -p mode=1 -b 0")]
T["C17"] += [PO("-p w=2 -p tg=1 -p mode=1 -b 3"), PO("-p w=2 -p tg=1 -p mode=1 -b 2", **CPP), PO("-p w=3 -p tg=1 -p mode=1 -b 1")]
Q["C20"] += [PO("-p w=2 -p tg=1 -p mode=2 -b 1")]
T["C20"] += [PO("-p w=2 -p tg=1 -p mode=2 -b 2"), PO("-p w=3 -p tg=1 -p mode=2 -b 0")]
