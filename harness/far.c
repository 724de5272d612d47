/* Operations far from the start of the deque: n tasks are outstanding (n may be large), then every sequence of operations. */
#include "common.h"
#include <stdio.h>
#include <stdlib.h>
enum { O_SPAWN = 1, O_SYNC = 2, O_SHARE = 4, O_RUN = 8, O_NEWFRAME = 16, O_TOGETHER = 32, O_DROP = 64 };
#define MAXN 300000
static unsigned char *runs;
static int fresh, copies;
MC_GHOST static void ran(int id) {  MC_ASSERT(id >= 0 && id < MAXN, "a task received a wrong argument"); runs[id]++; MC_ASSERT(runs[id] == 1, "a task was executed twice"); }
MC_GHOST static int count(int id) { return runs[id]; }
MC_GHOST static int new_id(void) { return fresh++; }
MC_GHOST static void copied(void) { copies++; }
static void stop(void) { fprintf(stderr, "far enough\n"); mc_expect_exit(1); exit(1); }   /* executing all of them takes too long */
TASK_1(int, leaf, int, id) { ran(id); if (id > 8 && id < fresh - 64) stop(); return id + 11; }
static void chk(int id, int r) { MC_ASSERT(r == id + 11, "SYNC returned a wrong result"); MC_ASSERT(count(id) == 1, "a synced task was not executed exactly once"); }
TASK_1(int, tree, int, id) { int i = new_id(); SPAWN(leaf, i); ran(id); int r = SYNC(leaf); chk(i, r); return id + 11; }
VOID_TASK_2(inner, int, k, int, share)
{
    int id[4];
    for (int i = 0; i < k; i++) { id[i] = new_id(); SPAWN(tree, id[i]); }
    if (share) LACE_MAKE_ALL_SHARED();
    for (int i = k; i-- > 0;) { int r = SYNC(tree); chk(id[i], r); }
}
VOID_TASK_0(copy) { copied(); }
VOID_TASK_3(root, int, n, int, len, int, ops)
{
    int out = 0, base = n;      /* tasks 0..n-1, then the ones spawned later */
    int *id = (int *)calloc(len + 1, sizeof(int));
    Task *bottom = __lace_dq_head;
    mc_private(7);
    for (int i = 0; i < n; i++) SPAWN(leaf, i);
    mc_private(0);
    for (int s = 0; s < len; s++) {
        int o = 1 << mc_choose(7);
        if (!(o & ops)) { o = 0; break; }
        mc_obs(o);
        switch (o) {
        case O_SPAWN: id[out] = new_id(); SPAWN(leaf, id[out]); out++; break;
        case O_SYNC: if (out) { out--; int r = SYNC(leaf); chk(id[out], r); } else if (base) { base--; int r = SYNC(leaf); chk(base, r); } break;
        case O_DROP: if (out) { out--; DROP(); } else if (base) { base--; DROP(); } break;
        case O_SHARE: LACE_MAKE_ALL_SHARED(); break;
        case O_RUN: RUN(inner, 2, s & 1); break;
        case O_NEWFRAME: NEWFRAME(inner, 2, s & 1); break;
        case O_TOGETHER: { int c = copies; TOGETHER(copy); MC_ASSERT(copies == c + (int)lace_workers(), "TOGETHER did not run on every worker"); break; }
        }
        Task *h = lace_get_head(lace_get_worker());
        MC_ASSERT(h == __lace_dq_head && h - bottom == base + out, "the recovered deque head is not just above the outstanding tasks");
    }
    stop();
}
VOID_TASK_1(full, int, dq)
{
    Task *bottom = __lace_dq_head;
    mc_private(7);
    for (int i = 0; i < dq; i++) SPAWN(leaf, i);
    Task *h = lace_get_head(lace_get_worker());
    MC_ASSERT(h == __lace_dq_head && h - bottom == dq, "the recovered deque head is not just above the outstanding tasks");
    for (int i = dq; i-- > 0;) { int r = SYNC(leaf); chk(i, r); }
    for (int i = 0; i < dq; i++) SPAWN(leaf, dq + i);
    mc_expect_exit(1);
    SPAWN(leaf, 0);
    MC_ASSERT(0, "a spawn beyond the deque size did not end the program");
}
MC_GHOST static void setup(void) { runs = (unsigned char *)calloc(MAXN, 1); }
void mc_main(void)
{
    int n = mc_param("n", 66000), w = mc_param("w", 2), len = mc_param("len", 2);
    static const int sizes[] = {255, 256, 257, 65535, 65536, 65537, 100000, 131073};
    int mode = mc_param("mode", 0), dq = 0;
    if (mode == 1) { mc_explore(1); dq = sizes[mc_choose(8)]; mc_obs(dq); }
    mc_explore(0);
    setup();
    if (mode == 1) {
        fresh = 0;
        lace_start(1, dq);
        RUN(full, dq);
    }
    fresh = n;
    lace_start(w, n + 64);
    mc_explore(1);
    RUN(root, n, len, mc_param("ops", 31));
    mc_explore(0);
    lace_stop();
}
