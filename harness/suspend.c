/* Suspend and resume: all sequences of operations, alone or concurrently with another thread. */
#include "common.h"
enum { P_SUSPEND = 1, P_RESUME = 2, P_RUN = 4, P_TOGETHER = 8, P_RUNEX = 16, P_REST = 32, P_NEWFRAME = 64 };
static int demand = 1, W, runs, copies_, subs;
MC_GHOST static void demand_add(int k) { demand += k; }
MC_GHOST static int demand_now(void) { return demand; }
MC_GHOST static void task_begin(void) { MC_ASSERT(subs > 0, "a task is executed although none is submitted"); runs++; }
MC_GHOST static void copied(void) { MC_ASSERT(subs > 0, "a task is executed although none is submitted"); copies_++; }
MC_GHOST static void sub(int k) { subs += k; }
MC_GHOST static int n_copies(void) { return copies_; }
TASK_1(int, leaf, int, i) { return i + 1; }
TASK_1(int, job, int, i) { task_begin(); SPAWN(leaf, i); int r = SYNC(leaf); return r + 10; }
VOID_TASK_0(copy) { copied(); }
static void submit(int op)
{
    sub(1);
    switch (op) {
    case P_RUN: MC_ASSERT(RUN(job, 5) == 16, "a submission returned a wrong result"); break;
    case P_RUNEX: MC_ASSERT(RUNEX(job, 5) == 16, "a submission returned a wrong result"); break;
    case P_NEWFRAME: MC_ASSERT(NEWFRAME(job, 5) == 16, "a submission returned a wrong result"); break;
    case P_TOGETHER: { int c = n_copies(); TOGETHER(copy); MC_ASSERT(n_copies() >= c + W, "TOGETHER did not run on every worker"); break; }
    }
    sub(-1);
}
static void check(void)
{
    mc_quiesce();
    if (demand_now() == 0) MC_ASSERT(mc_others_running() == 0, "a worker is not at rest although every resume was matched by a suspend");
    else MC_ASSERT(mc_others_running() == W, "not all workers are running after a resume");
}
static void *other(void *arg)
{
    for (int p = (int)(size_t)arg; p; p /= 10) switch (p % 10) {
        case 1: demand_add(1); lace_resume(); demand_add(-1); lace_suspend(); break;
        case 2: submit(P_RUN); break;
        case 3: submit(P_RUNEX); break;
        case 4: submit(P_TOGETHER); break;
        case 5: demand_add(1); lace_resume(); submit(P_RUN); demand_add(-1); lace_suspend(); break;
        case 6: demand_add(1); lace_resume(); demand_add(1); lace_resume(); demand_add(-1); lace_suspend(); demand_add(-1); lace_suspend(); break;
    }
    return 0;
}
void mc_main(void)
{
    W = mc_param("w", 2);
    int len = mc_param("len", 3), ops = mc_param("ops", P_SUSPEND | P_RESUME | P_RUN), t1 = mc_param("t1", 0), t2 = mc_param("t2", 0);
    if (mc_param("early", 0)) mc_explore(1);
    lace_start(W, 8);
    if (!mc_param("early", 0)) { mc_quiesce(); mc_explore(1); }
    pthread_t a, b;
    if (t1) pthread_create(&a, 0, other, (void *)(size_t)t1);
    if (t2) pthread_create(&b, 0, other, (void *)(size_t)t2);
    int own = 1;      /* demand held by this thread */
    for (int k = 0; k < len; k++) {
        int menu[8], m = 0;
        for (int o = 1; o <= P_NEWFRAME; o <<= 1) if (ops & o) {
            if (o == P_SUSPEND && own == 0) continue;
            if (o == P_RESUME && own > 2) continue;
            menu[m++] = o;
        }
        int op = menu[mc_choose(m)];
        mc_obs(op);
        switch (op) {
        case P_SUSPEND: own--; demand_add(-1); lace_suspend(); break;
        case P_RESUME: own++; demand_add(1); lace_resume(); break;
        case P_REST: if (!t1 && !t2) check(); else mc_quiesce(); break;
        default: submit(op); break;
        }
    }
    if (t1) pthread_join(a, 0);
    if (t2) pthread_join(b, 0);
    mc_explore(0);
    check();
    submit(P_RUN);
    submit(P_TOGETHER);
    check();
    lace_stop();
    mc_quiesce();
    MC_ASSERT(mc_others_live() == 0, "a worker is left after stopping");
}
