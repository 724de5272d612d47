/* Spawning and fruitless steal attempts end within a fixed number of the caller's own steps, without waiting. */
#include "common.h"
#define SPAWN_STEPS mc_param("spawn", 40)
#define STEAL_STEPS mc_param("steal", 36)
static int runs;
MC_GHOST static void ran(void) { runs++; }
VOID_TASK_1(leaf, int, own)     /* when a thief executes it, a task was obtained: the bound ends */
{
    mc_bounded(0);
    if ((mc_param("duel", 0) & 1) && LACE_WORKER_ID != 0) mc_explore(0);
    ran(); (void)own;
}
TASK_2(int, root, int, len, int, ops)
{
    int n = 0;
    mc_explore(1);
    for (int k = 0; k < len; k++) {
        int menu[8], m = 0;
        if (ops & 1) menu[m++] = 1;
        if ((ops & 2) && n > 0) menu[m++] = 2;
        if (ops & 4) menu[m++] = 4;
        if ((ops & 8) && n > 0) menu[m++] = 8;
        if (ops & 16) menu[m++] = 16;
        switch (menu[mc_choose(m)]) {
        case 1: mc_bounded(SPAWN_STEPS); SPAWN(leaf, 1); mc_bounded(0); n++; break;
        case 2: SYNC(leaf); n--; break;
        case 4: mc_bounded(STEAL_STEPS); STEAL_RANDOM(); mc_bounded(0); break;
        case 8: mc_bounded(SPAWN_STEPS); LACE_MAKE_ALL_SHARED(); mc_bounded(0); break;
        case 16: mc_bounded(SPAWN_STEPS); CALL(leaf, 0); mc_bounded(0); break;
        }
    }
    while (n-- > 0) SYNC(leaf);
    mc_explore(0);
    return 1;
}
/* every worker runs: the first spawns and syncs, the others try to steal */
VOID_TASK_2(team, int, len, int, tries)
{
    if (LACE_WORKER_ID == 0) {
        mc_explore(1);
        for (int i = 0; i < len; i++) { mc_bounded(SPAWN_STEPS); SPAWN(leaf, 1); mc_bounded(0); }
        for (int i = 0; i < len; i++) SYNC(leaf);
    } else {
        for (int i = 0; i < tries; i++) { mc_bounded(STEAL_STEPS); STEAL_RANDOM(); mc_bounded(0); }
    }
}
/* one bounded operation against a worker that interferes many times: 1: a steal attempt, while the owner keeps spawning
   and sharing; 2: spawns, while a thief takes one task after the other; 3: as 1, but the owner also takes tasks back */
static atomic_int phase;
VOID_TASK_2(duel, int, mode, int, n)
{
    if (LACE_WORKER_ID == 0) {
        SPAWN(leaf, 1);
        if (mode == 2) { for (int i = 1; i < n; i++) SPAWN(leaf, 1); LACE_MAKE_ALL_SHARED(); }
        atomic_store(&phase, 1);
        while (mode != 2 && atomic_load(&phase) < 2) {}
        mc_explore(1);
        if (mode == 2) {
            for (int i = 0; i < 2; i++) { mc_bounded(SPAWN_STEPS); SPAWN(leaf, 1); mc_bounded(0); }
            mc_explore(0);
            for (int i = 0; i < n + 2; i++) SYNC(leaf);
        } else {
            for (int i = 1; i < n; i++) {
                SPAWN(leaf, 1);
                LACE_MAKE_ALL_SHARED();
                if (mode == 3 && i % 3 == 0) { SYNC(leaf); SPAWN(leaf, 1); }
            }
            for (int i = 0; i < n; i++) SYNC(leaf);
        }
    } else if (mode == 2) {
        while (atomic_load(&phase) < 1) {}
        for (int i = 0; i < n; i++) STEAL_RANDOM();
    } else {
        while (atomic_load(&phase) < 1) {}
        atomic_store(&phase, 2);
        mc_bounded(STEAL_STEPS); STEAL_RANDOM(); mc_bounded(0);
        mc_explore(0);
    }
}
void mc_main(void)
{
    lace_start(mc_param("w", 2), 48);
    mc_quiesce();
    if (mc_param("team", 0)) { TOGETHER(team, mc_param("len", 2), mc_param("tries", 1)); mc_explore(0); }
    else if (mc_param("duel", 0)) { TOGETHER(duel, mc_param("duel", 0), mc_param("n", 12)); mc_explore(0); }
    else RUN(root, mc_param("len", 3), mc_param("ops", 7));
    mc_obs(runs);
    lace_stop();
}
