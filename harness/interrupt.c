/* TOGETHER and NEWFRAME: from tasks with outstanding work, concurrently, nested, and from outside.
 * Every frame gets a stamp when its first root copy starts and is active until its last copy has ended; every external
 * task gets a stamp when it starts. Code with stamp s may not run while a frame with a later stamp is active. */
#include "common.h"
enum { TOG = 0, NEW = 1 };
#define MAXF 24
static struct { int kind, starts, ends, per_worker[8], requested, returned; } fr[MAXF];
static int nframes, stack_[MAXF], sp;
static int leaf_runs[96], nleaves, W;
static int data[96];
static int stamp_of[MAXF], clock_;
static void in_frame(int s)
{
    MC_ASSERT(sp == 0 || stamp_of[stack_[sp - 1]] <= s, "a task runs while its frame is interrupted");
}
MC_GHOST static int new_frame(int kind) { int f = nframes++; fr[f].kind = kind; fr[f].requested = 1; return f; }
MC_GHOST static int root_begin(int f, int worker)
{
    if (fr[f].starts == 0) { stack_[sp++] = f; stamp_of[f] = ++clock_; }
    in_frame(stamp_of[f]);
    fr[f].starts++;
    fr[f].per_worker[worker]++;
    MC_ASSERT(fr[f].per_worker[worker] == 1, "a worker executes the task of one request twice");
    MC_ASSERT(fr[f].kind == TOG || fr[f].starts == 1, "a NEWFRAME task is executed twice");
    return stamp_of[f];
}
MC_GHOST static void root_end(int f)
{
    in_frame(stamp_of[f]);
    fr[f].ends++;
    if (fr[f].ends == (fr[f].kind == TOG ? W : 1)) { MC_ASSERT(stack_[sp - 1] == f, "frames end out of order"); sp--; }
}
MC_GHOST static void returned(int f)
{
    fr[f].returned = 1;
    MC_ASSERT(fr[f].ends == (fr[f].kind == TOG ? W : 1), "a request returned before its task was finished everywhere");
    if (fr[f].kind == TOG) for (int i = 0; i < W; i++) MC_ASSERT(fr[f].per_worker[i] == 1, "TOGETHER did not run one copy on every worker");
}
MC_GHOST static void enter(int f) { in_frame(f); }
MC_GHOST static int new_leaf(void) { return nleaves++; }
MC_GHOST static void leaf_ran(int id, int f) { leaf_runs[id]++; MC_ASSERT(leaf_runs[id] == 1, "a task was executed twice"); in_frame(f); }
MC_GHOST static int leaf_count(int id) { return leaf_runs[id]; }

TASK_2(int, leaf, int, id, int, f)
{
    leaf_ran(id, f);
    data[id] = id + 5;
    enter(f);
    return id * 2 + 1;
}

/* plan: decimal digits executed from the last to the first: 1 spawn+sync a leaf; 2 TOGETHER; 3 NEWFRAME; 4 barrier;
   5 leaf, TOGETHER, sync; 6 leaf, NEWFRAME, sync; 7 spawn a requester and be one; 8 leaf, leaf, sync, sync */
VOID_TASK_DECL_2(together_task, int, int)
TASK_DECL_2(int, newframe_task, int, int)
VOID_TASK_DECL_2(requester, int, int)
static void request(int kind, int plan)
{
    int f = new_frame(kind);
    if (kind == TOG) {
        TOGETHER(together_task, f, plan);
    } else {
        int r = NEWFRAME(newframe_task, f, plan);
        MC_ASSERT(r == 1000 + f, "NEWFRAME returned the result of another task");
    }
    returned(f);
}
static void leaf_done(int id, int r)
{
    MC_ASSERT(r == id * 2 + 1, "SYNC returned the result of another task");
    MC_ASSERT(leaf_count(id) == 1, "SYNC returned but the task did not run exactly once");
    MC_ASSERT(data[id] == id + 5, "effects of a synced task are not visible");
}
static int sub(int i) { return i == 0 ? mc_param("sub", 0) : mc_param("sub2", 0); }
VOID_TASK_3(run_plan, int, f, int, plan, int, level)
{
    for (; plan; plan /= 10) {
        int a, b;
        switch (plan % 10) {
        case 1: a = new_leaf(); SPAWN(leaf, a, f); leaf_done(a, SYNC(leaf)); break;
        case 2: request(TOG, level ? 0 : sub(0)); break;
        case 3: request(NEW, level ? 0 : sub(0)); break;
        case 4: lace_barrier(); break;
        case 5: a = new_leaf(); SPAWN(leaf, a, f); request(TOG, level ? 0 : sub(0)); enter(f); leaf_done(a, SYNC(leaf)); break;
        case 6: a = new_leaf(); SPAWN(leaf, a, f); request(NEW, level ? 0 : sub(0)); enter(f); leaf_done(a, SYNC(leaf)); break;
        case 7: SPAWN(requester, mc_param("ra", TOG), level ? 0 : sub(0)); enter(f); CALL(requester, mc_param("rb", NEW), level ? 0 : sub(1)); enter(f); SYNC(requester); break;
        case 8: a = new_leaf(); b = new_leaf(); SPAWN(leaf, a, f); SPAWN(leaf, b, f); leaf_done(b, SYNC(leaf)); enter(f); leaf_done(a, SYNC(leaf)); break;
        case 9: a = new_leaf(); b = new_leaf(); SPAWN(leaf, a, f); SPAWN(leaf, b, f); request(mc_param("ra", TOG), level ? 0 : sub(0)); enter(f); leaf_done(b, SYNC(leaf)); enter(f); leaf_done(a, SYNC(leaf)); break;
        }
        enter(f);
    }
}
VOID_TASK_IMPL_2(together_task, int, f, int, plan)
{
    MC_ASSERT((int)LACE_WORKER_ID < W, "worker id out of range");
    int s = root_begin(f, LACE_WORKER_ID);
    CALL(run_plan, s, plan, 1);
    root_end(f);
}
TASK_IMPL_2(int, newframe_task, int, f, int, plan)
{
    int s = root_begin(f, LACE_WORKER_ID);
    CALL(run_plan, s, plan, 1);
    root_end(f);
    return 1000 + f;
}
VOID_TASK_IMPL_2(requester, int, kind, int, plan) { request(kind, plan); }
MC_GHOST static int stamp(void) { return ++clock_; }
TASK_1(int, ext, int, plan)
{
    CALL(run_plan, stamp(), plan, 0);
    return 77;
}
/* what an external thread does: 1xxx RUN a plan, 20 TOGETHER, 30 NEWFRAME, 2p TOGETHER with plan p, 3p NEWFRAME with plan p */
static void ext_do(int what)
{
    if (what >= 1000) { int r = RUN(ext, what - 1000); MC_ASSERT(r == 77, "RUN returned a wrong result"); }
    else if (what >= 30) request(NEW, what - 30);
    else if (what >= 20) request(TOG, what - 20);
}
static void *external(void *arg) { ext_do((int)(size_t)arg); return 0; }
void mc_main(void)
{
    W = mc_param("w", 2);
    lace_start(W, 16);
    mc_quiesce();
    if (mc_param("asleep", 0)) { lace_suspend(); mc_quiesce(); }
    mc_explore(1);
    int e1 = mc_param("e1", 0), e2 = mc_param("e2", 0);
    pthread_t t1, t2;
    if (e1) pthread_create(&t1, 0, external, (void *)(size_t)e1);
    if (e2) pthread_create(&t2, 0, external, (void *)(size_t)e2);
    ext_do(mc_param("e0", 1000));
    if (e1) pthread_join(t1, 0);
    if (e2) pthread_join(t2, 0);
    mc_explore(0);
    for (int i = 0; i < nframes; i++) MC_ASSERT(fr[i].returned, "a request never returned");
    for (int i = 0; i < nleaves; i++) MC_ASSERT(leaf_runs[i] == 1, "a task did not run exactly once");
    lace_stop();
}
