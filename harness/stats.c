/* Statistics: the report printed when the framework stops agrees with what happened. */
#include "common.h"
#include <stdio.h>
#include <stdlib.h>
enum { O_SPAWN = 1, O_SYNC = 2, O_DROP = 4, O_TREE = 8, O_CALL = 16, O_RUN = 32, O_SHARE = 64, O_NEWFRAME = 128, O_TOGETHER = 256 };
static int work_by[8], elapsed;
static int spawns, stolen, spawned_by[8], stolen_by[8];
MC_GHOST static void g_spawn(int by) { spawns++; spawned_by[by]++; }
static int tick;      /* time passes in leaf tasks only, if at all */
MC_GHOST static void g_exec(int spawner, int executor) { stolen += spawner != executor; stolen_by[executor] += spawner != executor; }
MC_GHOST static void g_tick(int executor) { mc_clock_add(tick); work_by[executor] += tick; elapsed += tick; }
MC_GHOST static void g_start(int t) { tick = t; }
MC_GHOST static long g_work_by(int i) { return work_by[i]; }
MC_GHOST static long g_elapsed(void) { return elapsed; }
MC_GHOST static void g_reset(void) { spawns = stolen = 0; for (int i = 0; i < 8; i++) spawned_by[i] = stolen_by[i] = work_by[i] = 0; elapsed = 0; }
MC_GHOST static long g_stolen_by(int i) { return stolen_by[i]; }
MC_GHOST static long g_spawns(void) { return spawns; }
MC_GHOST static long g_by(int i) { return spawned_by[i]; }
MC_GHOST static long g_stolen(void) { return stolen; }
TASK_2(int, leaf, int, by, int, v) { g_exec(by, LACE_WORKER_ID); g_tick(LACE_WORKER_ID); return v + 1; }
TASK_2(int, tree, int, by, int, v)
{
    g_exec(by, LACE_WORKER_ID);
    int me = LACE_WORKER_ID;
    g_spawn(me); SPAWN(leaf, me, v);
    g_spawn(me); SPAWN(leaf, me, v + 1);
    int r = SYNC(leaf);
    return r + SYNC(leaf);
}
TASK_1(int, inner, int, v) { int me = LACE_WORKER_ID; g_spawn(me); SPAWN(leaf, me, v); return SYNC(leaf); }
VOID_TASK_1(copy, int, v) { int me = LACE_WORKER_ID; g_spawn(me); SPAWN(leaf, me, v); SYNC(leaf); }
/* every arity, with and without a result, counts alike */
#ifndef MAX_ARITY
#define MAX_ARITY 6
#endif
#define V_MAXID 24
static int vowner;
MC_GHOST static int v_anon(void) { return 0; }
MC_GHOST static void v_owner(int w) { vowner = w; }
static void v_body(int id, WorkerP *w, Task *h) { (void)id; (void)h; g_exec(vowner, w->worker); }
#include "variants.h"
VOID_TASK_1(every_arity, int, how)
{
    int me = LACE_WORKER_ID;
    v_owner(me);
    for (int v = 0; v < V_COUNT; v++) {
        for (int i = 0; i < 4; i++) { g_spawn(me); v_spawn(__lace_worker, __lace_dq_head, v, i); __lace_dq_head++; }
        if (how & 1) mc_quiesce();
        for (int i = 4; i-- > 0;) { __lace_dq_head--; v_sync(__lace_worker, __lace_dq_head + 1, v, i); }
        if (how & 2) v_call(__lace_worker, __lace_dq_head, v, 1);
    }
}
TASK_2(int, root, int, len, int, ops)
{
    int tr[16], n = 0, me = LACE_WORKER_ID;
    for (int k = 0; k < len || n > 0; k++) {
        int menu[16], m = 0;
        if (k >= len) menu[m++] = O_SYNC;
        else for (int b = 1; b <= O_TOGETHER; b <<= 1) if (ops & b) {
            if ((b == O_SYNC || b == O_DROP || b == O_SHARE) && n == 0) continue;
            if (b == O_DROP && tr[n - 1]) continue;      /* the tree's children would not be counted otherwise */
            menu[m++] = b;
        }
        switch (menu[mc_choose(m)]) {
        case O_SPAWN: tr[n++] = 0; g_spawn(me); SPAWN(leaf, me, 10); break;
        case O_TREE: tr[n++] = 1; g_spawn(me); SPAWN(tree, me, 10); break;
        case O_SYNC: if (tr[--n]) MC_ASSERT(SYNC(tree) == 23, "SYNC returned a wrong result"); else MC_ASSERT(SYNC(leaf) == 11, "SYNC returned a wrong result"); break;
        case O_DROP: n--; DROP(); break;
        case O_CALL: MC_ASSERT(CALL(leaf, me, 10) == 11, "CALL returned a wrong result"); break;
        case O_RUN: MC_ASSERT(RUN(inner, 10) == 11, "RUN returned a wrong result"); break;
        case O_SHARE: LACE_MAKE_ALL_SHARED(); break;
        case O_NEWFRAME: MC_ASSERT(NEWFRAME(inner, 10) == 11, "NEWFRAME returned a wrong result"); break;
        case O_TOGETHER: TOGETHER(copy, 10); break;
        }
    }
    mc_explore(0);
    return 77;
}
static char buf[16384];
static long num_after(const char *line, const char *key)
{
    const char *p = strstr(line, key);
    MC_ASSERT(p != 0, "the report lacks an entry");
    return strtol(p + strlen(key), 0, 10);
}
static long num_before(const char *line, const char *key)
{
    const char *p = strstr(line, key);
    MC_ASSERT(p != 0 && p > line, "the report lacks an entry");
    while (p > line && p[-1] == ' ') p--;
    while (p > line && p[-1] >= '0' && p[-1] <= '9') p--;
    return strtol(p, 0, 10);
}
static const char *entry(const char *what, int worker)
{
    char key[64];
    if (worker < 0) snprintf(key, sizeof key, "%s (sum):", what); else snprintf(key, sizeof key, "%s (%d):", what, worker);
    const char *p = strstr(buf, key);
    MC_ASSERT(p != 0, "the report lacks a line");
    static char line[256];
    int i = 0;
    while (p[i] && p[i] != '\n' && i < 255) { line[i] = p[i]; i++; }
    line[i] = 0;
    return line;
}
static void check_report(int w)
{
    (void)num_before; (void)num_after; (void)entry;
#if LACE_COUNT_TASKS
    long tsum = 0;
    for (int i = 0; i < w; i++) {
        long t = num_after(entry("Tasks", i), "):");
        MC_ASSERT(t == g_by(i), "a worker's number of tasks differs from its number of spawns");
        tsum += t;
    }
    long all = num_after(entry("Tasks", -1), "):");
    MC_ASSERT(all == tsum, "the sum of the tasks is not the sum of the workers' tasks");
    MC_ASSERT(all == g_spawns(), "the reported number of tasks differs from the number of spawns");
#endif
#if LACE_COUNT_STEALS
    long s = 0, l = 0, sb = 0, lb = 0, st = 0, lt = 0;
    for (int i = 0; i <= w; i++) {
        const char *e = entry("Steals", i < w ? i : -1), *le = strstr(e, "leaps:");
        MC_ASSERT(le != 0, "the report lacks an entry");
        long a = num_before(e, "good"), b = num_before(e, "busy"), c = num_before(e, "tries"), d = num_before(le, "good"), f = num_before(le, "busy"), g = num_before(le, "tries");
        if (mc_param("reset", 0) != 2) MC_ASSERT(a + b <= c && d + f <= g, "more steals reported than attempts");
        if (i < w) MC_ASSERT(a + d == g_stolen_by(i), "the reported steals plus leaps of a worker differ from the number of tasks of other workers it executed");
        if (i < w) { s += a; sb += b; st += c; l += d; lb += f; lt += g; }
        else MC_ASSERT(a == s && b == sb && c == st && d == l && f == lb && g == lt, "the sum of the steals is not the sum of the workers' steals");
    }
    MC_ASSERT(s + l == g_stolen(), "reported steals plus leaps differ from the number of tasks executed by another worker");
#endif
#if LACE_COUNT_STEALS && LACE_COUNT_TASKS
    for (int i = 0; i <= w; i++) {      /* given for workers that have stolen something */
        long t = i < w ? g_by(i) : g_spawns(), k = i < w ? g_stolen_by(i) : g_stolen();
        char key[64];
        if (i < w) snprintf(key, sizeof key, "Tasks per steal (%d):", i); else snprintf(key, sizeof key, "Tasks per steal (sum):");
        if (k == 0) MC_ASSERT(strstr(buf, key) == 0, "tasks per steal reported for a worker that has stolen nothing");
        else MC_ASSERT(num_after(buf, key) == t / k, "tasks per steal is not the number of tasks divided by the number of steals");
    }
#endif
#if LACE_COUNT_SPLITS
    long x = 0, y = 0, z = 0;
    for (int i = 0; i <= w; i++) {
        const char *e = entry("Splits", i < w ? i : -1);
        long a = num_before(e, "shrinks"), b = num_before(e, "grows"), c = num_before(e, "outgoing");
        if (i < w) { x += a; y += b; z += c; }
        else MC_ASSERT(a == x && b == y && c == z, "the sum of the splits is not the sum of the workers' splits");
    }
#endif
#if LACE_PIE_TIMES
    if (g_elapsed() > 0) {     /* time is only counted if time passes */
    static const char *slice[] = {"Startup time", "Steal work", "Leap work", "Steal overhead", "Leap overhead", "Steal search", "Leap search", "Exit time"};
    double tot[9] = {0}, app[9] = {0};
    for (int k = 0; k < 8; k++) {
        double sum = 0;
        for (int i = 0; i <= w; i++) {
            const char *e = entry(slice[k], i < w ? i : -1), *c = strchr(e, ':');
            double v = strtod(c + 1, 0);
            MC_ASSERT(v >= 0 && v < 1e9, "a reported time is not a time");
            tot[i] += v;
            if (k == 1 || k == 2) app[i] += v;
            if (i < w) sum += v;
            else MC_ASSERT(v - sum <= 0.01 * (w + 1) && sum - v <= 0.01 * (w + 1), "the sum of the times is not the sum of the workers' times");
        }
    }
    const char *t = strstr(buf, "total time:");
    MC_ASSERT(t != 0, "the report lacks the total time");
    double whole = strtod(t + 11, 0) * 1000;
    MC_ASSERT(whole - tot[w] <= 10.1 && tot[w] - whole <= 10.1, "the total time is not the sum of the reported times");
    for (int i = 0; i < w; i++) {
        MC_ASSERT(tot[i] <= g_elapsed() / 1000.0 + 0.1, "more time reported for a worker than has passed");
        if (mc_param("work", 0)) MC_ASSERT(app[i] >= g_work_by(i) / 1000.0 - 0.1, "less time reported for a worker's work than it has worked");
    }
    }
    MC_ASSERT(mc_stderr_bytes() == 0, "the statistics write error messages");
#endif
    mc_obs(g_stolen());
}
void mc_main(void)
{
    int w = mc_param("w", 2), reset = mc_param("reset", 0), len = mc_param("len", 3), ops = mc_param("ops", O_SPAWN | O_SYNC);
    mc_clock_step(mc_param("clock", 700));
    g_start(mc_param("tick", 0));
    int how = 0;
    if (mc_param("all", 0)) { mc_explore(1); how = mc_choose(4); mc_explore(0); }
    if (reset == 2) mc_explore(1);
    lace_start(w, 12);
#if LACE_COUNT_EVENTS
    if (reset == 2) { mc_private(2); lace_count_reset(); mc_private(0); }
#endif
    if (mc_param("all", 0)) { mc_quiesce(); RUN(every_arity, how); mc_quiesce(); }
    if (reset != 2) { mc_quiesce(); mc_explore(mc_param("inter", 1)); }
    MC_ASSERT(RUN(root, len, ops) == 77, "RUN returned a wrong result");
    mc_explore(0);
#if LACE_COUNT_EVENTS
    if (reset == 1) {
        mc_quiesce();
        mc_private(7); lace_count_reset(); mc_private(0);
        g_reset();
        MC_ASSERT(RUN(root, 2, O_TREE) == 77, "RUN returned a wrong result");
    }
    if (reset == 3) {      /* an explicit report: nothing is lost and nothing changes */
        mc_quiesce();
        mc_capture(buf, sizeof buf);
        FILE *f = (FILE *)mc_file();
        mc_private(7); lace_count_report_file(f); mc_private(0);
        check_report(w);
    }
#endif
    mc_capture_stdout(buf, sizeof buf);
    mc_private(1); lace_stop(); mc_private(0);
    check_report(w);
}
