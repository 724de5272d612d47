/* Workers that wait for something by calling STEAL_RANDOM until it has happened.
 * mode 0: the event is an external task, mode 1: it needs tasks that another worker has shared and does not execute itself,
 * mode 2: both. tg=1: every worker polls. */
#include "common.h"
#include <stdatomic.h>
static _Atomic int flag, ready;
static int runs[8], W;
MC_GHOST static void ran(int i) { runs[i]++; MC_ASSERT(runs[i] == 1, "a task is executed twice"); }
MC_GHOST static int runs_of(int i) { return runs[i]; }
TASK_1(int, setter, int, x) { ran(0); atomic_store(&flag, 1); return x + 1; }
TASK_1(int, piece, int, x)
{
    ran(x);
    if (x == 1 && mc_param("mode", 0) == 1) atomic_store(&flag, 1);
    return x * 3 + 1;
}
static void poll_(WorkerP *__lace_worker, Task *__lace_dq_head) { while (!atomic_load(&flag)) STEAL_RANDOM(); }
VOID_TASK_1(all, int, sharer)
{
    int me = LACE_WORKER_ID;
    if (me == sharer && mc_param("mode", 0) != 0) {
        SPAWN(piece, 1); SPAWN(piece, 2);
        LACE_MAKE_ALL_SHARED();
        while (!TASK_IS_COMPLETED((Task *)__lace_dq_head - 2)) {}
        MC_ASSERT(SYNC(piece) == 7, "SYNC returned the result of another task");
        MC_ASSERT(SYNC(piece) == 4, "SYNC returned the result of another task");
    }
    poll_(__lace_worker, __lace_dq_head);
}
TASK_1(int, one, int, x) { poll_(__lace_worker, __lace_dq_head); return x + 2; }
static void *submit(void *arg)
{
    if (mc_param("mode", 0) != 1) { int r = RUN(setter, 5); MC_ASSERT(r == 6, "RUN returned a wrong result"); MC_ASSERT(runs_of(0) == 1, "RUN returned but the task did not run"); }
    return arg;
}
void mc_main(void)
{
    W = mc_param("w", 2);
    lace_start(W, 16);
    mc_quiesce();
    mc_explore(1);
    pthread_t t;
    int sharer = mc_param("mode", 0) ? mc_choose(W) : 0;
    pthread_create(&t, 0, submit, 0);
    if (mc_param("tg", 0)) TOGETHER(all, sharer);
    else { int r = RUN(one, 8); MC_ASSERT(r == 10, "RUN returned a wrong result"); }
    pthread_join(t, 0);
    mc_explore(0);
    if (mc_param("mode", 0)) MC_ASSERT(runs_of(1) == 1 && runs_of(2) == 1, "a task did not run exactly once");
    lace_stop();
}
