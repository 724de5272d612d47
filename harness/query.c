/* Status queries on spawned tasks: TASK_IS_STOLEN, TASK_IS_COMPLETED, TASK_RESULT.
 * mode 0: every sequence of spawning, syncing, sharing, interrupting and querying; mode 1: the owner waits by polling. */
#include "common.h"
enum { O_SPAWN = 1, O_SYNC = 2, O_QUERY = 4, O_SHARE = 8, O_VSPAWN = 16, O_QUIET = 32, O_CALL = 64, O_TOGETHER = 128, O_NEWFRAME = 256, O_TREE = 512 };
static struct { char begun, done, by, was_stolen, was_complete; } st[32];
static int ids, memory[32]; static _Atomic(int) running[32];   /* real memory: may be delayed like any other store */
MC_GHOST static int new_id(void) { return ids++; }
MC_GHOST static void begin(int id, int by) { MC_ASSERT(!st[id].begun, "a task is executed twice"); st[id].begun = 1; st[id].by = by; }
MC_GHOST static void end(int id) { st[id].done = 1; }
MC_GHOST static int begun(int id) { return st[id].begun; }
MC_GHOST static int done(int id) { return st[id].done; }
MC_GHOST static void answer(int id, int me, int before, int s, int c)
{
    MC_ASSERT(s == 0 || s == 1, "TASK_IS_STOLEN is neither true nor false");
    MC_ASSERT(c == 0 || c == 1, "TASK_IS_COMPLETED is neither true nor false");
    MC_ASSERT(!c || st[id].done, "TASK_IS_COMPLETED although the task has not finished");
    MC_ASSERT(!c || s, "a completed task is not reported as stolen");
    MC_ASSERT(!before || s || mc_param("weak", 0), "another worker executes the task but TASK_IS_STOLEN is false");
    MC_ASSERT(!st[id].was_stolen || s, "a task that was stolen is reported as not stolen");
    MC_ASSERT(!st[id].was_complete || c, "a task that was completed is reported as not completed");
    MC_ASSERT(!st[id].begun || st[id].by != me, "the owner executed a task it did not sync");
    st[id].was_stolen = s; st[id].was_complete = c;
}
MC_GHOST static void synced(int id, int me)
{
    MC_ASSERT(st[id].done, "SYNC returned before the task had finished");
    MC_ASSERT(!st[id].was_stolen || st[id].by != me, "a task that was reported as stolen is executed by its owner");
}
VOID_TASK_0(nop) { }
TASK_1(int, plain, int, x) { return x; }
TASK_3(long, leaf, int, id, long, x, int, pad) { begin(id, LACE_WORKER_ID); atomic_store_explicit(&running[id], 1, memory_order_relaxed); memory[id] = id + 50; end(id); return x * 3 + pad; }
TASK_3(long, tree, int, id, long, x, int, pad) { begin(id, LACE_WORKER_ID); atomic_store_explicit(&running[id], 1, memory_order_relaxed); SPAWN(plain, 2); memory[id] = id + 48 + SYNC(plain); end(id); return x * 3 + pad; }
VOID_TASK_1(vleaf, int, id) { begin(id, LACE_WORKER_ID); atomic_store_explicit(&running[id], 1, memory_order_relaxed); memory[id] = id + 50; end(id); }
typedef struct { Task *t; int id, kind; } Out;
static void query(Out *o, int me)
{
    int before = atomic_load_explicit(&running[o->id], memory_order_relaxed);
    int s = TASK_IS_STOLEN(o->t), c = TASK_IS_COMPLETED(o->t);
    if (!s && c) s = TASK_IS_STOLEN(o->t);      /* completed in between */
    answer(o->id, me, before, s, c);
    if (c) {
        MC_ASSERT(memory[o->id] == o->id + 50, "memory written by a completed task is not visible");
        if (o->kind != O_VSPAWN) MC_ASSERT(*(long *)TASK_RESULT(o->t) == (long)o->id * 30 + 7, "TASK_RESULT of a completed task is wrong");
    }
}
#define SYNC_ONE() do { \
    if (out[n].kind == O_SPAWN) MC_ASSERT(SYNC(leaf) == out[n].id * 30L + 7, "SYNC returned a wrong result"); \
    else if (out[n].kind == O_TREE) MC_ASSERT(SYNC(tree) == out[n].id * 30L + 7, "SYNC returned a wrong result"); \
    else SYNC(vleaf); \
    synced(out[n].id, me); } while (0)
TASK_3(int, root, int, len, int, ops, int, mode)
{
    Out out[16]; int n = 0, me = LACE_WORKER_ID;
    mc_explore(1);
    for (int k = 0; k < len; k++) {
        int menu[16], m = 0;
        for (int b = 1; b <= O_TREE; b <<= 1) if (ops & b) { if ((b == O_SYNC || b == O_QUERY) && n == 0) continue; menu[m++] = b; }
        int op = menu[mc_choose(m)];
        switch (op) {
        case O_SPAWN: out[n].id = new_id(); out[n].kind = op; out[n].t = SPAWN(leaf, out[n].id, out[n].id * 10L, 7); n++; break;
        case O_TREE: out[n].id = new_id(); out[n].kind = op; out[n].t = SPAWN(tree, out[n].id, out[n].id * 10L, 7); n++; break;
        case O_VSPAWN: out[n].id = new_id(); out[n].kind = op; out[n].t = SPAWN(vleaf, out[n].id); n++; break;
        case O_SYNC: n--; SYNC_ONE(); break;
        case O_QUERY: query(&out[mc_choose(n)], me); break;
        case O_SHARE: LACE_MAKE_ALL_SHARED(); break;
        case O_QUIET: mc_quiesce(); for (int i = 0; i < n; i++) { query(&out[i], me); MC_ASSERT(!done(out[i].id) || TASK_IS_COMPLETED(out[i].t), "a finished task is not reported as completed"); MC_ASSERT(begun(out[i].id) || !TASK_IS_STOLEN(out[i].t), "a task that nobody has taken is reported as stolen"); } break;
        case O_CALL: MC_ASSERT(CALL(plain, 3) == 3, "CALL returned a wrong result"); break;
        case O_TOGETHER: TOGETHER(nop); break;
        case O_NEWFRAME: MC_ASSERT(NEWFRAME(plain, 4) == 4, "NEWFRAME returned a wrong result"); break;
        }
    }
    if (mode) {
        LACE_MAKE_ALL_SHARED();
        for (int i = 0; i < n; i++) { while (!TASK_IS_COMPLETED(out[i].t)) YIELD_NEWFRAME(); query(&out[i], me); }
    }
    int r = 0;
    for (int i = 0; i < n; i++) r = r * 3 + st[out[i].id].was_stolen + st[out[i].id].was_complete;
    mc_obs(r);
    while (n > 0) {
        n--;
        SYNC_ONE();
    }
    mc_explore(0);
    return 1;
}
void mc_main(void)
{
    lace_start(mc_param("w", 2), 64);
    mc_quiesce();
    MC_ASSERT(RUN(root, mc_param("len", 3), mc_param("ops", 15), mc_param("mode", 0)) == 1, "RUN returned a wrong result");
    lace_stop();
}
