/* Fork-join: W workers, a tree of tasks; every task counts its own executions. */
#include "common.h"
static unsigned char runs[64];
MC_GHOST static void ran(int id) { runs[id]++; MC_ASSERT(runs[id] == 1, "a task was executed twice"); }
MC_GHOST static int times(int id) { return runs[id]; }
TASK_2(int, leaf, int, id, int, v)
{
    ran(id);
    return id * 3 + v;
}
TASK_1(int, root, int, n)
{
    ran(0);
    int sum = 0;
    mc_explore(1);
    for (int i = 1; i <= n; i++) SPAWN(leaf, i, i * 7);
    for (int i = n; i >= 1; i--) {
        int r = SYNC(leaf);
        MC_ASSERT(r == i * 10, "SYNC returned the result of another task");
        MC_ASSERT(times(i) == 1, "SYNC returned before its task ran exactly once");
        sum += r;
    }
    mc_explore(0);
    return sum;
}
void mc_main(void)
{
    int w = mc_param("w", 2), n = mc_param("n", 2);
    lace_start(w, 16);
    mc_quiesce();
    int r = RUN(root, n);
    mc_explore(0);
    MC_ASSERT(r == 10 * n * (n + 1) / 2, "RUN returned a wrong result");
    mc_obs(r);
    lace_stop();
}
