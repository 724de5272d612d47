/* Outstanding tasks reach idle workers.
 * mode 0: every sequence of operations, with the other workers going as far as they can after each one
 * mode 1: all tasks are declared shared at any moment; the owner then does nothing
 * ctx: inside a NEWFRAME (1, 2) or a TOGETHER (3) that interrupts another computation
 * mode 2: an owner that keeps spawning and/or syncing until another worker has executed one of its tasks (all interleavings) */
#include "common.h"
enum { O_SPAWN = 1, O_SYNC = 2, O_DROP = 4, O_CALL = 8, O_TREE = 16, O_RUN = 32, O_NEWFRAME = 64 };
static int started_[64], by_[64], ids, stolen_;
MC_GHOST static int new_id(void) { return ids++; }
MC_GHOST static void ran(int id, int by, int owner) { MC_ASSERT(!started_[id], "a task is executed twice"); started_[id] = 1; by_[id] = by; if (by != owner) stolen_++; }
MC_GHOST static int started(int id) { return started_[id]; }
MC_GHOST static int stolen(void) { return stolen_; }
MC_GHOST static void forget_stolen(void) { stolen_ = 0; }
MC_GHOST static void forget(int id) { started_[id] = 0; }
TASK_2(int, leaf, int, id, int, owner) { ran(id, LACE_WORKER_ID, owner); return id + 9; }
TASK_1(int, plain, int, x) { return x; }
TASK_2(int, tree, int, id, int, owner) { ran(id, LACE_WORKER_ID, owner); SPAWN(plain, 1); return SYNC(plain) + id + 8; }
TASK_1(int, nested, int, x) { SPAWN(plain, x); return SYNC(plain); }
TASK_3(int, root, int, len, int, ops, int, mode)
{
    int out[16], tr[16], n = 0, me = LACE_WORKER_ID, dry = 0, last = stolen();
    if (mode == 1) mc_explore(1);
    if (mode == 0) { mc_quiesce(); mc_explore(1); }
    for (int k = 0; k < len; k++) {
        int menu[16], m = 0;
        for (int b = 1; b <= O_NEWFRAME; b <<= 1) if (ops & b) { if ((b == O_SYNC || b == O_DROP) && n == 0) continue; menu[m++] = b; }
        int op = menu[mc_choose(m)], unfinished = 0;
        for (int i = 0; i < n; i++) unfinished += !started(out[i]);
        switch (op) {
        case O_SPAWN: out[n] = new_id(); tr[n] = 0; SPAWN(leaf, out[n], me); n++; break;
        case O_TREE: out[n] = new_id(); tr[n] = 1; SPAWN(tree, out[n], me); n++; break;
        case O_SYNC: n--; if (tr[n]) SYNC(tree); else MC_ASSERT(SYNC(leaf) == out[n] + 9, "SYNC returned a wrong result"); break;
        case O_DROP: n--; DROP(); break;
        case O_CALL: CALL(plain, 3); break;
        case O_RUN: MC_ASSERT(RUN(nested, 4) == 4, "RUN returned a wrong result"); break;
        case O_NEWFRAME: MC_ASSERT(NEWFRAME(nested, 4) == 4, "NEWFRAME returned a wrong result"); break;
        }
        if (mode == 0) {
            mc_quiesce();
            int left = 0;
            for (int i = 0; i < n; i++) left += !started(out[i]);
            if (left == 0 || stolen() > last || op == O_CALL || op == O_RUN || op == O_NEWFRAME || op == O_DROP) { if (left == 0 || stolen() > last) dry = 0; }
            else dry++;
            last = stolen();
            MC_ASSERT(dry < 3, "outstanding tasks are not made available to an idle worker");
        }
    }
    if (mode == 1) {
        LACE_MAKE_ALL_SHARED();
        mc_quiesce();
        for (int i = 0; i < n; i++) MC_ASSERT(started(out[i]), "a task that was declared shared is not executed by idle workers");
        if (mc_param("again", 0)) {     /* the same once more, with the tasks that are left */
            out[n] = new_id(); tr[n] = 0; SPAWN(leaf, out[n], me); n++;
            LACE_MAKE_ALL_SHARED();
            mc_quiesce();
            for (int i = 0; i < n; i++) MC_ASSERT(started(out[i]), "a task that was declared shared is not executed by idle workers");
        }
    }
    mc_obs(stolen());
    while (n > 0) { n--; if (tr[n]) SYNC(tree); else SYNC(leaf); }
    mc_explore(0);
    return 1;
}
/* kind: 1 spawn until something is stolen (at most `max`), 2 sync, 3 alternate spawn and sync, 4 spawn two and sync two */
TASK_3(int, owner, int, kind, int, pre, int, max)
{
    int n = 0, me = LACE_WORKER_ID, t = 0;
    mc_explore(1);
    for (int i = 0; i < pre; i++) { SPAWN(leaf, n, me); n++; }
    while (stolen() == 0) {
        if (kind == 3 || kind == 4) {
            for (int i = 0; i < kind - 2; i++) { SPAWN(leaf, n, me); n++; }
            for (int i = 0; i < kind - 2 && stolen() == 0; i++) { n--; SYNC(leaf); forget(n); }
        } else if (kind == 1) {
            MC_ASSERT(n < max, "the deque is filled but nothing was made available to an idle worker");
            SPAWN(leaf, n, me); n++;
            mc_quiesce();
        } else {
            if (n == 0) { t = 1; break; }
            n--; SYNC(leaf); mc_quiesce();
        }
    }
    mc_explore(0);
    MC_ASSERT(!t || pre < 3, "all tasks were synced but none was made available to an idle worker");
    while (n > 0) { n--; SYNC(leaf); }
    return 1;
}
/* The same inside an interrupt, with tasks of the interrupted computation outstanding. */
VOID_TASK_4(copy, int, len, int, ops, int, mode, int, who) { if ((int)LACE_WORKER_ID == who) CALL(root, len, ops, mode); }
TASK_4(int, ctx, int, kind, int, len, int, ops, int, mode)
{
    int me = LACE_WORKER_ID, n = 0, out[4];
    for (int k = mc_choose(4); k > 0; k--) { out[n] = new_id(); SPAWN(leaf, out[n], me); n++; }
    if (mc_choose(2)) LACE_MAKE_ALL_SHARED();
    if (mc_choose(2)) mc_quiesce();
    if (kind == 2 && n && mc_choose(2)) { n--; SYNC(leaf); }
    forget_stolen();
    if (kind == 1 || kind == 2) MC_ASSERT(NEWFRAME(root, len, ops, mode) == 1, "NEWFRAME returned a wrong result");
    else TOGETHER(copy, len, ops, mode, me);
    while (n > 0) { n--; MC_ASSERT(SYNC(leaf) == out[n] + 9, "SYNC returned a wrong result"); }
    return 1;
}
void mc_main(void)
{
    int mode = mc_param("mode", 0);
    lace_start(mc_param("w", 2), mc_param("dq", 24));
    mc_quiesce();
    if (mc_param("ctx", 0)) { mc_explore(1); RUN(ctx, mc_param("ctx", 0), mc_param("len", 4), mc_param("ops", O_SPAWN | O_SYNC), mode); }
    else if (mode < 2) RUN(root, mc_param("len", 4), mc_param("ops", O_SPAWN | O_SYNC), mode);
    else RUN(owner, mc_param("kind", 1), mc_param("pre", 0), mc_param("max", 6));
    lace_stop();
}
