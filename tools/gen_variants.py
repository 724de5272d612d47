#!/usr/bin/env python3
"""Generates harness/variants.h: one leaf task per arity, with and without result, with mixed argument types."""
import os
TYPES = [("int", "(%s) * 3 + %d"), ("double", "(%s) * 0.5 + %d"), ("char", "(char)((%s) + %d)"), ("void*", "(void*)(size_t)((%s) * 11 + %d)"),
         ("uint64_t", "((uint64_t)(%s) << 40) + %d"), ("float", "(float)((%s) + %d.25)"), ("short", "(short)(-(%s) - %d)"), ("long", "-(long)(%s) * 100003L - %d")]
RES = [("int", "(id) * 7 + %d"), ("double", "(id) * 0.125 + %d"), ("uint64_t", "((uint64_t)(id) << 33) + %d"), ("void*", "(void*)(size_t)((id) * 5 + %d)"), ("char", "(char)((id) + %d)")]
MAX = 22
o = []
p = o.append
p("/* Generated by tools/gen_variants.py. Variant v: arity v/2, without a result if v is odd. */")
p("static int v_ident;   /* identity of tasks without arguments (all copies of arity 0 are alike) */")


def argtype(a, i):
    return TYPES[(i + a) % len(TYPES)]


def val(a, i, ident="id"):
    return "(%s)(%s)" % (argtype(a, i)[0], argtype(a, i)[1] % (ident, i))


def rtype(a):
    return RES[a % len(RES)]


for a in range(MAX + 1):
    p("#if MAX_ARITY >= %d" % a)
    args = ", ".join("%s, a%d" % (argtype(a, i)[0], i) for i in range(1, a + 1))
    # the id is found by scanning the ids for the one whose first argument matches; all others must match as well
    if a:
        p("static int v_id_%d(%s) {" % (a, ", ".join("%s a%d" % (argtype(a, i)[0], i) for i in range(1, a + 1))))
        p("    for (int id = 0; id < V_MAXID; id++) if (a1 == %s) { MC_ASSERT(%s, \"a task is executed with wrong arguments\"); return id; }" % (
            val(a, 1), " && ".join("a%d == %s" % (i, val(a, i)) for i in range(2, a + 1)) or "1"))
        p("    MC_ASSERT(0, \"a task is executed with wrong arguments\"); return 0; }")
    call = "v_id_%d(%s)" % (a, ", ".join("a%d" % i for i in range(1, a + 1))) if a else "v_anon()"
    rt, rv = rtype(a)
    sep = ", " if a else ""
    p("TASK_%d(%s, v_leaf_%d%s%s) { int id = %s; v_body(id, __lace_worker, __lace_dq_head); %s return (%s)(%s); }" % (
        a, rt, a, sep, args, call, "id = 0;" if not a else "", rt, rv % a))
    p("VOID_TASK_%d(v_void_%d%s%s) { v_body(%s, __lace_worker, __lace_dq_head); }" % (a, a, sep, args, call))
    p("#endif")
p("#define V_COUNT (2 * (MAX_ARITY + 1))")


def cases(fmt_res, fmt_void):
    for a in range(MAX + 1):
        vals = "".join(", " + val(a, i) for i in range(1, a + 1))
        rt, rv = rtype(a)
        exp = "(%s)(%s)" % (rt, rv % a)
        if not a:
            exp = exp.replace("(id)", "(0)")
        p("#if MAX_ARITY >= %d" % a)
        d = dict(name="v_leaf_%d" % a, args=vals, args0=vals[2:], rt=rt, exp=exp)
        p("    case %d: %s break;" % (2 * a, fmt_res % d))
        d["name"] = "v_void_%d" % a
        p("    case %d: %s break;" % (2 * a + 1, fmt_void % d))
        p("#endif")


MSG = "MC_ASSERT(r == %(exp)s, \"a task delivered the wrong result\");"
for fn, res, void in [
    ("spawn", "SPAWN(%(name)s%(args)s);", "SPAWN(%(name)s%(args)s);"),
    ("call", "{ %(rt)s r = CALL(%(name)s%(args)s); " + MSG + " }", "CALL(%(name)s%(args)s);"),
    ("sync", "{ %(rt)s r = SYNC(%(name)s); " + MSG + " }", "SYNC(%(name)s);"),
    ("fptr", "{ __typeof__(&%(name)s_CALL) f = TASK(%(name)s); %(rt)s r = WRAP(f%(args)s); " + MSG + " }", "{ __typeof__(&%(name)s_CALL) f = TASK(%(name)s); WRAP(f%(args)s); }"),
]:
    p("static void v_%s(WorkerP *__lace_worker, Task *__lace_dq_head, int v, int id)\n{\n    switch (v) {" % fn)
    cases(res, void)
    p("    }\n    (void)id; (void)__lace_worker; (void)__lace_dq_head;\n}")
for fn in ("RUN", "RUNEX", "NEWFRAME"):
    p("static void v_%s(int v, int id)\n{\n    switch (v) {" % fn.lower())
    cases("{ %(rt)s r = " + fn + "(%(name)s" + "X%(args0)s); " + MSG + " }", fn + "(%(name)sX%(args0)s);")
    p("    }\n    (void)id;\n}")
p("static void v_together(int v, int id)\n{\n    switch (v) {")
cases("TOGETHER(%(name)sX%(args0)s);", "TOGETHER(%(name)sX%(args0)s);")
p("    }\n    (void)id;\n}")
text = "\n".join(o) + "\n"
import re
# NAME##X followed by arguments: a comma is needed only when there are any
text = re.sub(r"\((v_(?:leaf|void)_\d+)X\)", r"(\1)", text)
text = re.sub(r"\((v_(?:leaf|void)_\d+)X", r"(\1, ", text)
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "variants.h"), "w").write(text)

# every macro of every arity, used as a program would (only compiled: see mcbuild.py)
o.clear()
p("/* Generated by tools/gen_variants.py. Every macro of every arity, as a program uses them. */")
p("#include LACE_HEADER")
for a in range(MAX + 1):
    p("#if MAX_ARITY >= %d" % a)
    par = "".join(", long, a%d" % i for i in range(1, a + 1))
    typ = "".join(", long" for i in range(a))
    arg = "".join(", %d" % i for i in range(1, a + 1))
    p("TASK_DECL_%d(int, d%d%s)" % (a, a, typ))
    p("VOID_TASK_DECL_%d(e%d%s)" % (a, a, typ))
    p("TASK_IMPL_%d(int, d%d%s) { return %s; }" % (a, a, par, "(int)a%d" % a if a else "0"))
    p("VOID_TASK_IMPL_%d(e%d%s) { }" % (a, a, par))
    p("TASK_%d(long, f%d%s) { return %s; }" % (a, a, par, "a%d" % a if a else "0"))
    p("VOID_TASK_%d(g%d%s) { }" % (a, a, par))
    p("TASK_0(long, use%d) {\n    long r = 0;" % a)
    for t, v in (("d", 0), ("e", 1), ("f", 0), ("g", 1)):
        n = "%s%d" % (t, a)
        p("    SPAWN(%s%s); SPAWN(%s%s); DROP(); %sSYNC(%s); %sCALL(%s%s); %sRUN(%s%s); %sNEWFRAME(%s%s); TOGETHER(%s%s); %sWRAP(TASK(%s)%s);" % (
            n, arg, n, arg, "" if v else "r += ", n, "" if v else "r += ", n, arg, "" if v else "r += ", n, arg, "" if v else "r += ", n, arg, n, arg, "" if v else "r += ", n, arg))
    p("    return r;\n}")
    p("long out%d(void) { RUN(e%d%s); TOGETHER(g%d%s); NEWFRAME(g%d%s); RUNEX(g%d%s); return RUN(use%d) + RUNEX(d%d%s) + NEWFRAME(f%d%s); }" % (a, a, arg, a, arg, a, arg, a, arg, a, a, arg, a, arg))
    p("#endif")
p("TASK_1(int, various, int, n) { { LACE_VARS; CALL(lace_steal_random); } LACE_MAKE_ALL_SHARED(); STEAL_RANDOM(); if (n) { TOGETHER(lace_steal_random); } return LACE_WORKER_ID + LACE_WORKER_PU + (int)lace_workers(); }")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "usage.c"), "w").write("\n".join(o) + "\n")
