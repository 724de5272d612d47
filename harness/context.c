/* What a task sees of its own context, at any depth and however it was started. */
#include "common.h"
enum { O_SPAWN = 1, O_SYNC = 2, O_CALL = 4, O_RUN = 8, O_RUNEX = 16, O_NEWFRAME = 32, O_TOGETHER = 64, O_VARS = 128, O_STEAL = 256, O_SHARE = 512, O_DROP = 1024 };
static int owner_of[8], W, budget, pub;
MC_GHOST static void own(int w, int t) { MC_ASSERT(owner_of[w] == 0 || owner_of[w] == t + 1, "two workers running at the same time have the same id"); owner_of[w] = t + 1;
    for (int i = 0; i < 8; i++) MC_ASSERT(i == w || owner_of[i] != t + 1, "the id of a worker changes"); }
MC_GHOST static int spend(int n) { if (budget < n) return 0; budget -= n; return 1; }
static void *seen_head[8];
static void context(WorkerP *__lace_worker, Task *__lace_dq_head)
{
    MC_ASSERT(lace_is_worker(), "a task does not run on a worker");
    MC_ASSERT(lace_get_worker() == __lace_worker, "the recovered worker is not the worker of the task");
    MC_ASSERT((int)LACE_WORKER_ID >= 0 && (int)LACE_WORKER_ID < W, "the worker id is out of range");
    MC_ASSERT(lace_get_worker()->worker == LACE_WORKER_ID, "the worker id depends on how it is obtained");
    MC_ASSERT((int)lace_workers() == W, "lace_workers is wrong");
    if (!pub) mc_private(5); // whether other threads act during the recovery is explored with pub=1 only
    Task *head = lace_get_head(__lace_worker);
    if (!pub) mc_private(0);
    MC_ASSERT(head == __lace_dq_head, "the recovered position is not just above the outstanding tasks");
    own(LACE_WORKER_ID, mc_tid());
    (void)seen_head;
}
#define HERE() context(__lace_worker, __lace_dq_head)
TASK_1(int, leaf, int, x) { HERE(); return x * 2 + 1; }
VOID_TASK_1(copy, int, x) { HERE(); SPAWN(leaf, x); HERE(); MC_ASSERT(SYNC(leaf) == x * 2 + 1, "SYNC returned the result of another task"); HERE(); }
static int recovered(int x) { LACE_VARS; HERE(); SPAWN(leaf, x); HERE(); SPAWN(leaf, x + 1); int r = SYNC(leaf); MC_ASSERT(r == x * 2 + 3, "SYNC returned the result of another task"); return SYNC(leaf); }
TASK_3(int, node, int, depth, int, len, int, ops)
{
    int n = 0, kind[8];
    HERE();
    for (int k = 0; k < len; k++) {
        int menu[16], m = 0;
        for (int b = 1; b <= O_DROP; b <<= 1) if (ops & b) { if ((b == O_SYNC || b == O_DROP || b == O_SHARE) && n == 0) continue; menu[m++] = b; }
        int deeper = depth > 0 && spend(1);
        switch (menu[mc_choose(m)]) {
        case O_SPAWN: kind[n] = deeper; if (deeper) SPAWN(node, depth - 1, 1, ops); else SPAWN(leaf, n); n++; break;
        case O_SYNC: n--; if (kind[n]) MC_ASSERT(SYNC(node) == 5, "SYNC returned the result of another task"); else MC_ASSERT(SYNC(leaf) == n * 2 + 1, "SYNC returned the result of another task"); break;
        case O_DROP: n--; DROP(); break;
        case O_CALL: if (deeper) MC_ASSERT(CALL(node, depth - 1, 1, ops) == 5, "CALL returned a wrong result"); else CALL(leaf, 1); break;
        case O_RUN: if (deeper) MC_ASSERT(RUN(node, depth - 1, 1, ops) == 5, "RUN returned a wrong result"); else MC_ASSERT(RUN(leaf, 4) == 9, "RUN returned a wrong result"); break;
        case O_RUNEX: MC_ASSERT(RUNEX(leaf, 4) == 9, "RUNEX returned a wrong result"); break;
        case O_NEWFRAME: if (deeper) MC_ASSERT(NEWFRAME(node, depth - 1, 1, ops) == 5, "NEWFRAME returned a wrong result"); else MC_ASSERT(NEWFRAME(leaf, 4) == 9, "NEWFRAME returned a wrong result"); break;
        case O_TOGETHER: TOGETHER(copy, 6); break;
        case O_VARS: MC_ASSERT(recovered(3) == 7, "SYNC returned the result of another task"); break;
        case O_STEAL: STEAL_RANDOM(); break;
        case O_SHARE: LACE_MAKE_ALL_SHARED(); break;
        }
        HERE();
    }
    while (n > 0) { n--; if (kind[n]) MC_ASSERT(SYNC(node) == 5, "SYNC returned the result of another task"); else MC_ASSERT(SYNC(leaf) == n * 2 + 1, "SYNC returned the result of another task"); HERE(); }
    return 5;
}
TASK_2(int, root, int, len, int, ops) { mc_explore(1); int r = CALL(node, mc_param("depth", 1), len, ops); mc_explore(0); return r; }
static void outside(void)
{
    MC_ASSERT(!lace_is_worker(), "a thread that is no worker claims to be one");
    MC_ASSERT(lace_get_worker() == 0, "a thread that is no worker has a worker");
}
static void *other(void *arg) { outside(); MC_ASSERT(RUN(leaf, 3) == 7, "RUN returned a wrong result"); outside(); return arg; }
void mc_main(void)
{
    W = mc_param("w", 2); pub = mc_param("pub", 0); budget = mc_param("budget", 2);
    outside();
    lace_start(W, 24);
    outside();
    mc_quiesce();
    MC_ASSERT((int)lace_workers() == W, "lace_workers is wrong");
    int r;
    if (mc_param("ex", 0)) r = RUNEX(root, mc_param("len", 2), mc_param("ops", 3)); else r = RUN(root, mc_param("len", 2), mc_param("ops", 3));
    MC_ASSERT(r == 5, "RUN returned a wrong result");
    outside();
    pthread_t t;
    pthread_create(&t, 0, other, 0);
    pthread_join(t, 0);
    TOGETHER(copy, 2);
    mc_quiesce();
    for (int i = 0; i < W; i++) MC_ASSERT(owner_of[i] != 0, "a worker id is not used by any worker");
    lace_stop();
    outside();
}
