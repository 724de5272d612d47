/* A worker that waits in SYNC for a stolen task does other work meanwhile: an external task (mode 0), a task of an
 * unrelated computation on another worker (mode 1, w=3), a TOGETHER copy (mode 2) or a NEWFRAME (mode 3). That work spawns and syncs tasks of
 * its own on top of the waiting worker's deque, and the awaited task finishes before, during or after it. */
#include "common.h"
#include <stdatomic.h>
static _Atomic int submit_, go, begun;
static int ran_[8], fin_[8];
MC_GHOST static void ran(int i) { MC_ASSERT(!ran_[i], "a task is executed twice"); ran_[i] = 1; }
MC_GHOST static void fin(int i) { fin_[i] = 1; }
MC_GHOST static void need(int i) { MC_ASSERT(ran_[i] && fin_[i], "a task was not finished when it was synced"); }
static int effect[8];
TASK_2(int, leaf, int, id, int, x) { effect[id] += x; return x * 3 + 1; }
TASK_2(int, slow, int, id, int, x)
{
    ran(id);
    atomic_store(&begun, 1);
    int yield = mc_param("mode", 0) >= 2;
    while (!atomic_load(&go)) { if (yield) YIELD_NEWFRAME(); }
    effect[id] = x;
    fin(id);
    return x * 5 + 2;
}
static void work(WorkerP *__lace_worker, Task *__lace_dq_head)      /* done while waiting */
{
    int n = mc_param("n", 1), at = mc_choose(3);
    MC_ASSERT(lace_get_head(__lace_worker) == __lace_dq_head, "a task does not start just above the outstanding tasks of its worker");
    if (at == 0) { atomic_store(&go, 1); if (mc_param("settle", 0)) mc_quiesce(); }
    for (int i = 0; i < n; i++) SPAWN(leaf, 4, i + 3);
    if (at == 1) { atomic_store(&go, 1); if (mc_param("settle", 0)) mc_quiesce(); }
    for (int i = n; i-- > 0;) MC_ASSERT(SYNC(leaf) == i * 3 + 10, "SYNC returned the result of another task");
    if (at == 2) { atomic_store(&go, 1); if (mc_param("settle", 0)) mc_quiesce(); }
}
TASK_1(int, job, int, x) { work(__lace_worker, __lace_dq_head); return x + 1; }
TASK_1(int, other, int, x)      /* the unrelated computation: makes a task available and waits for it to be taken */
{
    SPAWN(job, x);
    LACE_MAKE_ALL_SHARED();
    mc_quiesce();
    return SYNC(job);
}
VOID_TASK_1(copy, int, x)
{
    int me = LACE_WORKER_ID;
    if (me == x) work(__lace_worker, __lace_dq_head);
    SPAWN(leaf, 5 + (me != x), 1); SYNC(leaf);
}
TASK_1(int, frame, int, x) { work(__lace_worker, __lace_dq_head); return x + 2; }
static int waiting_worker;
static void *external(void *arg)
{
    int mode = mc_param("mode", 0), r;
    while (!atomic_load(&submit_)) {}
    switch (mode) {
    case 0: r = RUN(job, 8); MC_ASSERT(r == 9, "RUN returned a wrong result"); break;
    case 1: r = RUN(other, 8); MC_ASSERT(r == 9, "RUN returned a wrong result"); break;
    case 2: TOGETHER(copy, waiting_worker); break;
    case 3: r = NEWFRAME(frame, 8); MC_ASSERT(r == 10, "NEWFRAME returned a wrong result"); break;
    }
    return arg;
}
/* nothing obliges a waiting worker to take up other work: when it does not, the awaited task ends all the same */
static void *release(void *arg)
{
    while (!atomic_load(&submit_)) {}
    mc_quiesce();
    atomic_store(&go, 1);
    return arg;
}
TASK_0(int, root)
{
    int below = mc_param("below", 0);
    waiting_worker = LACE_WORKER_ID;
    for (int i = 0; i < below; i++) SPAWN(leaf, 0, i);
    SPAWN(slow, 1, 6);
    LACE_MAKE_ALL_SHARED();
    while (!atomic_load(&begun)) {}
    mc_quiesce();
    atomic_store(&submit_, 1);
    mc_explore(1);
    int r = SYNC(slow);
    MC_ASSERT(r == 32, "SYNC returned the result of another task");
    need(1);
    MC_ASSERT(effect[1] == 6, "the effects of a synced task are not visible");
    SPAWN(leaf, 2, 5);
    MC_ASSERT(SYNC(leaf) == 16, "SYNC returned the result of another task");
    for (int i = below; i-- > 0;) MC_ASSERT(SYNC(leaf) == i * 3 + 1, "SYNC returned the result of another task");
    mc_explore(0);
    return 77;
}
void mc_main(void)
{
    lace_start(mc_param("w", 2), 16);
    pthread_t t, r;
    pthread_create(&t, 0, external, 0);
    pthread_create(&r, 0, release, 0);
    mc_quiesce();
    MC_ASSERT(RUN(root) == 77, "RUN returned a wrong result");
    pthread_join(t, 0);
    pthread_join(r, 0);
    lace_stop();
}
