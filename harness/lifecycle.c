/* Start, work, stop, repeatedly, with different numbers of workers and deque sizes. */
#include "common.h"
static int copies_;
MC_GHOST static void copied(int w) { MC_ASSERT(w >= 0 && w < (int)lace_workers(), "worker id out of range"); copies_++; }
MC_GHOST static int n_copies(void) { return copies_; }
TASK_1(int, fib, int, n)
{
    if (n < 2) return n;
    SPAWN(fib, n - 1);
    int b = CALL(fib, n - 2);
    return SYNC(fib) + b;
}
VOID_TASK_0(copy) { copied(LACE_WORKER_ID); }
static void work(int kind)
{
    switch (kind) {
    case 0: break;
    case 1: MC_ASSERT(RUN(fib, 3) == 2, "RUN returned a wrong result"); break;
    case 2: { int c = n_copies(); TOGETHER(copy); MC_ASSERT(n_copies() == c + (int)lace_workers(), "TOGETHER did not run on every worker"); break; }
    case 3: lace_suspend(); break;
    case 4: lace_suspend(); MC_ASSERT(RUN(fib, 2) == 1, "RUN returned a wrong result"); break;
    case 5: lace_resume(); lace_suspend(); lace_suspend(); lace_resume(); break;
    case 6: MC_ASSERT(RUNEX(fib, 3) == 2, "RUNEX returned a wrong result"); break;
    case 7: MC_ASSERT(NEWFRAME(fib, 3) == 2, "NEWFRAME returned a wrong result"); break;
    case 8: lace_suspend(); lace_resume(); break;
    }
}
void mc_main(void)
{
    int cycles = mc_param("cycles", 2), wmin = mc_param("wmin", 1), wmax = mc_param("wmax", 2), works = mc_param("works", 9), inter = mc_param("inter", 0);
    static const int dqs[] = {8, 5, 17, 100};
    MC_ASSERT(!lace_is_worker(), "a thread outside the framework reports itself as a worker");
    int blocks = mc_live_blocks();
    for (int c = 0; c < cycles; c++) {
        mc_explore(1);
        int w = mc_param("w", 0) ? mc_param("w", 0) : wmin + mc_choose(wmax - wmin + 1), dq = dqs[mc_choose(mc_param("dqs", 2))];
        int kind = mc_param("work", -1) >= 0 ? mc_param("work", -1) : mc_choose(works);
        mc_obs((w * 100 + kind) * 1000 + dq);
        mc_explore(inter == 2);
        lace_start(w, dq);
        MC_ASSERT((int)lace_workers() == (w ? w : (int)lace_get_pu_count()), "lace_workers does not report the number of workers");
        if (mc_param("settle", 1)) mc_quiesce();
        if (inter == 1 && c == cycles - 1) mc_explore(1);
        work(kind);
        lace_stop();
        if (inter == 2) mc_explore(c + 1 < cycles);
        else mc_explore(0);
        MC_ASSERT(mc_live_blocks() == blocks, "memory or semaphores of the stopped framework are not released");
        MC_ASSERT(!lace_is_worker(), "a thread outside the framework reports itself as a worker");
        if (c == cycles - 1 || inter != 2) {
            mc_quiesce();
            MC_ASSERT(mc_others_live() == 0, "a worker thread is left after stopping");
            MC_ASSERT(mc_threads_unreclaimed() == 0, "worker threads are neither joined nor detached: their resources are never released");
        }
    }
    mc_explore(0);
}
