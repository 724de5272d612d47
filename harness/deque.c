/* Deque capacity: for every size up to maxdq and every fill level, every operation works; one spawn too many ends the program. */
#include "common.h"
static unsigned char runs[512];
static int nid;
MC_GHOST static int new_id(void) { return nid++; }
MC_GHOST static void ran(int id) { runs[id]++; MC_ASSERT(runs[id] == 1, "a task was executed twice"); }
MC_GHOST static int count(int id) { return runs[id]; }
TASK_1(int, leaf, int, id) { ran(id); return id + 11; }
static void chk(int id, int r) { MC_ASSERT(r == id + 11 && count(id) == 1, "a task at the end of the deque was lost or corrupted"); }
VOID_TASK_1(inner, int, n)
{
    int id[64];
    for (int i = 0; i < n; i++) { id[i] = new_id(); SPAWN(leaf, id[i]); }
    for (int i = n; i-- > 0;) { int r = SYNC(leaf); chk(id[i], r); }
}
static int copies;
MC_GHOST static void copied(void) { copies++; }
VOID_TASK_0(copy) { copied(); }
VOID_TASK_3(root, int, dq, int, fill, int, op)
{
    int id[64];
    Task *bottom = __lace_dq_head;
    for (int i = 0; i < fill; i++) { id[i] = new_id(); SPAWN(leaf, id[i]); }
    Task *h = lace_get_head(lace_get_worker());
    MC_ASSERT(h == __lace_dq_head, "the recovered deque head is not just above the outstanding tasks");
    MC_ASSERT(h - bottom == fill, "the deque head does not match the number of outstanding tasks");
    int room = dq - fill, k = room < 2 ? room : 2;
    switch (op) {
    case 0: break;
    case 1: RUN(inner, k); break;
    case 2: NEWFRAME(inner, k); break;
    case 3: TOGETHER(copy); MC_ASSERT(copies % mc_param("w", 1) == 0, "TOGETHER did not run on every worker"); break;
    case 4: CALL(inner, room); break;
    case 5: LACE_MAKE_ALL_SHARED(); if (k) CALL(inner, k); break;
    case 6: if (fill) { SPAWN(leaf, nid); DROP(); } break;
    case 7: STEAL_RANDOM(); break;
    }
    h = lace_get_head(lace_get_worker());
    MC_ASSERT(h == __lace_dq_head, "the recovered deque head is not just above the outstanding tasks");
    for (int i = fill; i-- > 0;) {
        if (op == 8) { DROP(); continue; }
        int r = SYNC(leaf); chk(id[i], r);
        h = lace_get_head(lace_get_worker());
        MC_ASSERT(h == __lace_dq_head, "the recovered deque head is not just above the outstanding tasks");
    }
    h = lace_get_head(lace_get_worker());
    MC_ASSERT(h == bottom, "the deque is not empty at the end");
}
VOID_TASK_2(overflow, int, dq, int, how)
{
    for (int i = 0; i < dq; i++) SPAWN(leaf, new_id());
    mc_expect_exit(1);
    switch (how) {
    case 0: SPAWN(leaf, nid); break;
    case 1: RUN(inner, 1); break;
    case 2: NEWFRAME(inner, 1); break;
    case 3: { LACE_VARS; SPAWN(leaf, nid); break; }
    }
    MC_ASSERT(0, "a spawn beyond the deque size did not end the program");
}
void mc_main(void)
{
    int mode = mc_param("mode", 0), w = mc_param("w", 1), maxdq = mc_param("maxdq", 8);
    mc_explore(1);
    if (mode == 0) {
        int dq = mc_param("mindq", 1) + mc_choose(maxdq - mc_param("mindq", 1) + 1);
        int fill = mc_choose(dq + 1), op = mc_choose(9);
        if (op == 6 && fill == dq) op = 0;
        if (!mc_param("inter", 0)) mc_explore(0);
        lace_start(w, dq);
        RUN(root, dq, fill, op);
        if (mc_param("repeat", 1)) RUN(root, dq, dq, 1);
        mc_explore(0);
        mc_obs(dq * 1000 + fill * 10 + op);
        lace_stop();
    } else if (mode == 1) {
        int dq = 1 + mc_choose(maxdq), how = mc_choose(4);
        mc_explore(mc_param("inter", 0));
        lace_start(w, dq);
        RUN(overflow, dq, how);
        MC_ASSERT(0, "not reached");
    } else if (mode == 2) { /* a size of zero selects the default, whatever was used before */
        static const int sizes[] = {0, 1, 3, 200000};
        int a = sizes[mc_choose(4)];
        mc_explore(0);
        if (a) { lace_start(1, a); lace_stop(); }
        lace_start(1, 0);
        RUN(root, 8, 8, 4);
        size_t sz = mc_block_size(mc_blocks() - 1);
        lace_stop();
        lace_start(1, 100000);
        RUN(root, 8, 8, 4);
        MC_ASSERT(mc_block_size(mc_blocks() - 1) == sz, "a deque size of zero does not select the default size");
        lace_stop();
    }
}
