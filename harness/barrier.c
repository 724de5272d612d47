/* Rounds of lace_barrier by all workers.
 * gather=1: only the rounds themselves are explored, from the state in which every worker has entered the task */
#include "common.h"
#define MAXR 6
static int data[MAXR][8], after[MAXR][8];
static int in_[MAXR], out_[MAXR], W;
MC_GHOST static void entering(int r) { in_[r]++; }
MC_GHOST static void leaving(int r) { MC_ASSERT(in_[r] == W, "a worker leaves a barrier round before all have entered it"); out_[r]++; }
MC_GHOST static int left(int r) { return out_[r]; }
static int base, gather;
static atomic_int go;
VOID_TASK_1(phases, int, rounds)
{
    int me = LACE_WORKER_ID;
    if (gather) {
        if (me == 0) { mc_quiesce(); mc_explore(1); atomic_store(&go, base + 1); }
        else while (atomic_load(&go) != base + 1) ;
    }
    for (int r = base; r < base + rounds; r++) {
        data[r][me] = r + 1;
        entering(r);
        lace_barrier();
        leaving(r);
        for (int j = 0; j < W; j++) MC_ASSERT(data[r][j] == r + 1, "what was written before a barrier is not visible after it");
        after[r][me] = 1;
    }
    if (gather && left(base + rounds - 1) == W) mc_explore(0);
}
TASK_1(int, root, int, rounds) { TOGETHER(phases, rounds); return 1; }
void mc_main(void)
{
    W = mc_param("w", 2);
    int rounds = mc_param("rounds", 2), times = mc_param("times", 1);
    lace_start(W, 8);
    mc_quiesce();
    gather = mc_param("gather", 0);
    if (!gather) mc_explore(1);
    for (int t = 0; t < times; t++) {
        if (mc_param("inside", 1)) RUN(root, rounds); else TOGETHER(phases, rounds);
        base += rounds;
    }
    mc_explore(0);
    for (int r = 0; r < rounds * times; r++) {
        MC_ASSERT(left(r) == W, "not every worker left the barrier");
        for (int j = 0; j < W; j++) MC_ASSERT(after[r][j] == 1, "not every worker left the barrier");
    }
    lace_stop();
}
