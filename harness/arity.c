/* Every arity, with and without a result, on every path through the deque (mode 0) and in every way of executing it
 * (mode 1); tasks whose arguments and results are structures (mode 2). */
#include "common.h"
#ifndef MAX_ARITY
#define MAX_ARITY 6
#endif
#define V_MAXID 24
static struct { char spawned, started, finished, synced, dropped; } st[V_MAXID];
static int ids, anon, anon_spawned, anon_dropped, anon_started, anon_finished, anon_synced, copies, dest;
static int effect[V_MAXID];
MC_GHOST static int new_id(void) { st[ids].spawned = 1; anon_spawned += anon; return ids++; }
MC_GHOST static void body_begin(int id)
{
    if (anon) { anon_started++; MC_ASSERT(anon_started <= anon_spawned, "more executions than tasks"); return; }
    MC_ASSERT(st[id].spawned, "a task is executed with wrong arguments");
    MC_ASSERT(copies || !st[id].started, "a task is executed twice");
    MC_ASSERT(!st[id].dropped && !st[id].synced, "a task is executed after it was synced or dropped");
    st[id].started++;
}
MC_GHOST static void body_end(int id) { if (anon) anon_finished++; else st[id].finished++; }
MC_GHOST static void was_synced(int id)
{
    if (anon) { anon_synced++; MC_ASSERT(anon_finished >= anon_synced, "SYNC returned before the task had finished"); return; }
    MC_ASSERT(st[id].started == 1, "SYNC returned but the task was not executed exactly once");
    MC_ASSERT(st[id].finished, "SYNC returned before the task had finished");
    st[id].synced = 1;
}
MC_GHOST static void was_dropped(int id)
{
    if (anon) { anon_dropped++; return; }
    MC_ASSERT(st[id].started == st[id].finished, "DROP returned while the task was being executed");
    st[id].dropped = 1;
}
MC_GHOST static int v_anon(void) { return 0; }
static int elsewhere;
MC_GHOST static void executed_by(unsigned w) { elsewhere += w != (unsigned)dest; }
MC_GHOST static int some_elsewhere(void) { return elsewhere; }
MC_GHOST static void owner_is(unsigned w) { dest = w; }
static void v_body(int id, WorkerP *w, Task *h)
{
    MC_ASSERT(w == lace_get_worker(), "a task does not get its own worker");
    MC_ASSERT(h == lace_get_head(w), "a task does not get the head of its deque");
    body_begin(id);
    executed_by(w->worker);
    effect[id] = 100 + id;
    body_end(id);
}
#include "variants.h"
static void visible(int id, int v) { if (v > 1) MC_ASSERT(effect[id] == 100 + id, "the effects of a synced task are not visible"); }
/* prog: digits: 1 spawn, 2 sync, 3 drop, 4 share, 5 let the thieves get as far as they can, 6 call, 7 function pointer,
   8 nested RUN, 9 TOGETHER/NEWFRAME-free barrier to explore from here */
VOID_TASK_2(root, int, v, int, prog)
{
    int out[V_MAXID], n = 0, id;
    anon = v < 2;
    for (; prog; prog /= 10) {
        switch (prog % 10) {
        case 1: out[n++] = id = new_id(); mc_bounded(mc_param("steps", 0)); v_spawn(__lace_worker, __lace_dq_head, v, id); mc_bounded(0); __lace_dq_head++; break;
        case 2: id = out[--n]; __lace_dq_head--; v_sync(__lace_worker, __lace_dq_head + 1, v, id); was_synced(id); visible(id, v); break;
        case 3: id = out[--n]; DROP(); was_dropped(id); break;
        case 4: LACE_MAKE_ALL_SHARED(); break;
        case 5: mc_quiesce(); break;
        case 6: id = new_id(); v_call(__lace_worker, __lace_dq_head, v, id); was_synced(id); visible(id, v); break;
        case 7: id = new_id(); v_fptr(__lace_worker, __lace_dq_head, v, id); was_synced(id); visible(id, v); break;
        case 8: id = new_id(); v_run(v, id); was_synced(id); visible(id, v); break;
        case 9: mc_explore(1); break;
        }
    }
    MC_ASSERT(__lace_dq_head == lace_get_head(__lace_worker), "the deque head is wrong at the end");
    MC_ASSERT(n == 0, "bad program");
}
/* way of executing; in a task (in = 1) or outside */
static void ways(int v, int way, int in)
{
    int id = new_id();
    copies = way == 3;
    switch (way) {
    case 0: v_run(v, id); break;
    case 1: v_runex(v, id); break;
    case 2: v_newframe(v, id); break;
    case 3: v_together(v, id); break;
    }
    if (copies) {
        int w = mc_param("w", 2);
        MC_ASSERT(anon ? anon_finished == w : st[id].finished == w && st[id].started == w, "TOGETHER did not run one copy on every worker");
        copies = 0; anon_spawned = anon_started = anon_finished = anon_synced = 0;
    } else { was_synced(id); visible(id, v); }
    if (in) MC_ASSERT(lace_is_worker(), "the worker is lost");
}
VOID_TASK_3(ways_root, int, v, int, way, int, fill)
{
    int a[4];
    for (int i = 0; i < fill; i++) { a[i] = new_id(); v_spawn(__lace_worker, __lace_dq_head, v, a[i]); __lace_dq_head++; }
    if (way == 3) anon_spawned += mc_param("w", 2);
    if (way == 3 && anon) { if (!fill) ways(v, way, 1); } else ways(v, way, 1);
    for (int i = fill; i-- > 0;) { __lace_dq_head--; v_sync(__lace_worker, __lace_dq_head + 1, v, a[i]); was_synced(a[i]); visible(a[i], v); }
}
/* the deque is filled with tasks of one kind; one more spawn ends the program */
VOID_TASK_3(full_root, int, v, int, dq, int, over)
{
    int a[8];
    for (int i = 0; i < dq; i++) { a[i] = new_id(); v_spawn(__lace_worker, __lace_dq_head, v, a[i]); __lace_dq_head++; }
    if (over) {
        mc_expect_exit(1);
        v_spawn(__lace_worker, __lace_dq_head, v, new_id());
        MC_ASSERT(0, "a spawn beyond the deque size did not end the program");
    }
    for (int i = dq; i-- > 0;) { __lace_dq_head--; v_sync(__lace_worker, __lace_dq_head + 1, v, a[i]); was_synced(a[i]); visible(a[i], v); }
}
/* an owner that keeps spawning and syncing, with the other workers going as far as they can in between */
MC_GHOST static void forget(int id) { st[id].started = st[id].finished = st[id].synced = st[id].dropped = 0; }
VOID_TASK_2(keep_root, int, v, int, kind)
{
    int id[6], n = kind == 3 ? 6 : kind;
    owner_is(LACE_WORKER_ID);
    for (int i = 0; i < n; i++) id[i] = new_id();
    anon_spawned = 1000;
    for (int r = 0; r < 6; r++) {
        for (int i = 0; i < n; i++) { v_spawn(__lace_worker, __lace_dq_head, v, id[i]); __lace_dq_head++; }
        mc_quiesce();
        int before = some_elsewhere();
        for (int i = n; i-- > 0;) { __lace_dq_head--; v_sync(__lace_worker, __lace_dq_head + 1, v, id[i]); mc_quiesce(); }
        if (kind == 3 && r > 0) MC_ASSERT(some_elsewhere() > before, "a worker that syncs does not make its other tasks available to an idle worker");
        for (int i = 0; i < n; i++) forget(id[i]);
        anon_started = anon_finished = anon_synced = 0;
    }
    MC_ASSERT(some_elsewhere(), "outstanding tasks are not made available to an idle worker");
    for (int i = 0; i < n; i++) st[id[i]].dropped = 1;
}
struct big { uint64_t x[2]; char c; };
struct two { int a; char b; };
TASK_3(struct big, structs, struct two, t, uint64_t, u, struct big, g)
{
    struct big r = {{u + t.a, g.x[1] * 3}, (char)(t.b + g.c)};
    return r;
}
static void chk_big(struct big r, int i) { MC_ASSERT(r.x[0] == 1000u + i * 2 && r.x[1] == 3u * i && r.c == (char)(2 * i + 3), "a structure was not passed intact"); }
#define BIGARGS(i) ((struct two){(i), (char)((i) + 1)}), (uint64_t)(1000 + (i)), ((struct big){{7, (uint64_t)(i)}, (char)((i) + 2)})
VOID_TASK_0(struct_root)
{
    struct two t[3]; struct big g[3];
    for (int i = 0; i < 3; i++) { t[i].a = i; t[i].b = i + 1; memset(&g[i], 0, sizeof g[i]); g[i].x[0] = 7; g[i].x[1] = i; g[i].c = i + 2; }
    SPAWN(structs, t[0], (uint64_t)1000, g[0]);
    SPAWN(structs, t[1], (uint64_t)1001, g[1]);
    chk_big(CALL(structs, t[2], (uint64_t)1002, g[2]), 2);
    chk_big(SYNC(structs), 1);
    chk_big(SYNC(structs), 0);
    chk_big(NEWFRAME(structs, t[2], (uint64_t)1002, g[2]), 2);
    chk_big(RUN(structs, t[1], (uint64_t)1001, g[1]), 1);
}
void mc_main(void)
{
    int mode = mc_param("mode", 0), w = mc_param("w", 2);
    mc_explore(1);
    int v0 = mc_param("v0", 0), vn = mc_param("vn", V_COUNT), way = 0, in = 0, fill = 0;
    int v = mode == 2 ? 0 : v0 + mc_choose(vn - v0 < V_COUNT - v0 ? vn - v0 : V_COUNT - v0);
    if (mode == 1) { way = mc_choose(4); in = mc_choose(2); fill = in ? mc_choose(3) : 0; }
    if (mode == 3) { fill = 1 + mc_choose(4); way = mc_choose(2); }
    if (mode == 4) way = 1 + mc_choose(3);
    anon = mode != 2 && v < 2;
    mc_explore(0);
    lace_start(w, mode == 3 ? fill : 16);
    mc_quiesce();
    if (mode == 0) {
        RUN(root, v, mc_param("prog", 22911));
    } else if (mode == 1) {
        if (mc_param("inter", 0)) mc_explore(1);
        if (in) RUN(ways_root, v, way, fill); else { if (way == 3) anon_spawned += w; ways(v, way, 0); }
    } else if (mode == 3) {
        RUN(full_root, v, fill, way);
        MC_ASSERT(!way, "not reached");
    } else if (mode == 4) {
        RUN(keep_root, v, way);
    } else {
        if (mc_param("inter", 0)) mc_explore(1);
        RUN(struct_root);
        struct two t = {1, 2}; struct big g = {{7, 1}, 3};
        chk_big(RUN(structs, t, (uint64_t)1001, g), 1);
        chk_big(RUNEX(structs, t, (uint64_t)1001, g), 1);
        chk_big(NEWFRAME(structs, t, (uint64_t)1001, g), 1);
    }
    mc_explore(0);
    if (anon && mode == 0) MC_ASSERT(anon_started >= anon_spawned - anon_dropped && anon_started == anon_finished, "a task was not executed");
    for (int i = 0; i < ids; i++) if (!anon && !st[i].dropped) MC_ASSERT(st[i].finished >= 1, "a task was not executed");
    lace_stop();
}
