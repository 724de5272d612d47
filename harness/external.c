/* Threads outside the framework submit tasks concurrently, as RUN (kind 0), RUNEX (kind 1), and mixes of them. */
#include "common.h"
static int starts[8], running, running_ex, done_[8];
static int payload[8];          /* written by the tasks with plain stores, read by the submitters */
MC_GHOST static void begin(int id, int ex)
{
    MC_ASSERT(starts[id] == 0, "a submission was executed twice");
    starts[id]++;
    if (mc_param("exclusive", 0)) {
        MC_ASSERT(!running_ex, "an external task runs while an exclusive one is running");
        MC_ASSERT(!ex || !running, "an exclusive task runs while another external task is running");
    }
    running++; running_ex += ex;
}
MC_GHOST static void end(int id, int ex) { running--; running_ex -= ex; done_[id] = 1; }
MC_GHOST static void check(int id)
{
    MC_ASSERT(starts[id] == 1, "a submission returned without having been executed");
    MC_ASSERT(done_[id], "a submission returned before its task had finished");
}
static int kind_of(int id)
{
    return id == 0 ? mc_param("k0", 0) : id == 1 ? mc_param("k1", 0) : id == 2 ? mc_param("k2", 0) : mc_param("k3", 0);
}
TASK_1(int, leaf, int, x) { return x + 1; }
TASK_2(int, job, int, id, int, ex)
{
    MC_ASSERT(lace_is_worker(), "an external task does not run on a worker");
    begin(id, ex);
    int r = 100 + id;
    if (mc_param("spawn", 0)) {
        SPAWN(leaf, id);
        r = r + SYNC(leaf) - id - 1;
    }
    payload[id] = 7 * id + 1;
    end(id, ex);
    return r;
}
static void submit(int id)
{
    int r, ex = kind_of(id);
    if (ex) r = RUNEX(job, id, ex); else r = RUN(job, id, ex);
    check(id);
    MC_ASSERT(r == 100 + id, "a submission returned the result of another task");
    MC_ASSERT(payload[id] == 7 * id + 1, "the effects of the task are not visible to the submitter");
}
static void *external(void *arg)
{
    int id = (int)(size_t)arg;
    MC_ASSERT(!lace_is_worker(), "a thread outside the framework reports itself as a worker");
    submit(id);
    if (mc_param("twice", 0)) submit(id + 4);
    return 0;
}
void mc_main(void)
{
    int w = mc_param("w", 1), n = mc_param("n", 2);
    lace_start(w, 16);
    mc_quiesce();
    if (mc_param("asleep", 0)) { lace_suspend(); mc_quiesce(); }
    mc_explore(1);
    pthread_t th[4];
    for (int i = 1; i < n; i++) pthread_create(&th[i], 0, external, (void *)(size_t)i);
    external(0);
    for (int i = 1; i < n; i++) pthread_join(th[i], 0);
    mc_explore(0);
    if (mc_param("asleep", 0)) {
        mc_quiesce();
        MC_ASSERT(mc_others_running() == 0, "workers are awake although every resume was matched by a suspend");
    }
    lace_stop();
}
