/* All programs of a given length over the deque operations, on all interleavings with the thieves.
 * The root task performs `len` operations chosen from the alphabet `ops` (bit mask) and then syncs or drops the rest. */
#include "common.h"
enum { O_SPAWN = 1, O_SYNC = 2, O_DROP = 4, O_NESTED = 8, O_SHARE = 16, O_TREE = 32, O_CALL = 64, O_VARS = 128, O_STEAL = 256, O_NEWFRAME = 512, O_TOGETHER = 1024, O_HEAD = 2048, O_DEEP = 4096 };
#define MAXID 40
static struct { char started, finished, dropped, synced, by; } st[MAXID];
static int ids;
static int effect[MAXID];      /* plain memory written by the tasks, read by whoever syncs them */
MC_GHOST static int new_id(void) { return ids++; }
MC_GHOST static int new_ids(int n) { int r = ids; ids += n; return r; }
MC_GHOST static void starts(int id, int worker)
{
    MC_ASSERT(!st[id].dropped, "a dropped task is executed");
    MC_ASSERT(!st[id].started, "a task is executed twice");
    MC_ASSERT(!st[id].synced, "a task is executed after it was synced");
    st[id].started = 1; st[id].by = worker;
}
MC_GHOST static void finishes(int id) { st[id].finished = 1; }
MC_GHOST static void synced(int id)
{
    MC_ASSERT(st[id].started, "SYNC returned but the task was never executed");
    MC_ASSERT(st[id].finished, "SYNC returned before the task had finished");
    st[id].synced = 1;
}
MC_GHOST static int dropped(int id)
{
    MC_ASSERT(st[id].started == st[id].finished, "DROP returned while the task was being executed");
    MC_ASSERT(!st[id].started || st[id].by != mc_param("root_worker", -1), "DROP executed the task");
    st[id].dropped = 1;
    return st[id].started;
}
MC_GHOST static int was_stolen(int id, int self) { return st[id].by != self; }

TASK_3(int, leaf, int, id, int, a, int, b)
{
    starts(id, LACE_WORKER_ID);
    MC_ASSERT(a == id * 3 && b == id * 5 + 1, "a task is executed with the wrong arguments");
    effect[id] = 100 + id;
    finishes(id);
    return id * 7 + 2;
}
#define SPAWN_LEAF(id) SPAWN(leaf, id, (id) * 3, (id) * 5 + 1)
static void leaf_synced(int id, int r)
{
    MC_ASSERT(r == id * 7 + 2, "SYNC returned the result of another task");
    synced(id);
    MC_ASSERT(effect[id] == 100 + id, "the effects of a synced task are not visible");
}
TASK_2(int, tree, int, id, int, kid)
{
    starts(id, LACE_WORKER_ID);
    SPAWN_LEAF(kid);
    effect[id] = 100 + id;
    int r = SYNC(leaf);
    leaf_synced(kid, r);
    finishes(id);
    return id * 7 + 2;
}
TASK_2(int, deep, int, id, int, depth)      /* ids id, id+1, ..., id+depth */
{
    starts(id, LACE_WORKER_ID);
    if (depth) SPAWN(deep, id + 1, depth - 1);
    int k = mc_param("deepleaf", 0) ? new_id() : 0;
    if (k) SPAWN_LEAF(k);
    effect[id] = 100 + id;
    if (k) leaf_synced(k, SYNC(leaf));
    if (depth) leaf_synced(id + 1, SYNC(deep));
    finishes(id);
    return id * 7 + 2;
}
VOID_TASK_1(inner, int, n)
{
    int id[4];
    for (int i = 0; i < n; i++) { id[i] = new_id(); SPAWN_LEAF(id[i]); }
    for (int i = n; i-- > 0;) leaf_synced(id[i], SYNC(leaf));
}
VOID_TASK_1(copy, int, n) { CALL(inner, n); }
static void vars(int n)
{
    LACE_VARS;
    int id[4];
    for (int i = 0; i < n; i++) { id[i] = new_id(); SPAWN_LEAF(id[i]); }
    for (int i = n; i-- > 0;) leaf_synced(id[i], SYNC(leaf));
}
#define SYNC_ANY(k) ((k) == 0 ? SYNC(leaf) : (k) == 1 ? SYNC(tree) : SYNC(deep))
TASK_2(int, root, int, len, int, ops)
{
    int out[16], tr[16], n = 0, stolen = 0, me = LACE_WORKER_ID, dp = mc_param("deep", 2);
    mc_explore(1);
    if (mc_param("pre", 0)) mc_quiesce();      /* let every thief get as far as it can: movesplit is then set */
    for (int k = 0; k < len; k++) {
        int menu[16], m = 0;
        for (int b = 1; b <= O_DEEP; b <<= 1) if (ops & b) {
            if ((b == O_SYNC || b == O_DROP) && n == 0) continue;
            if (b == O_DROP && tr[n - 1]) continue;
            if (b == O_SHARE && n == 0) continue;
            menu[m++] = b;
        }
        int op = menu[mc_choose(m)], id;
        switch (op) {
        case O_SPAWN: out[n] = id = new_id(); tr[n] = 0; n++; SPAWN_LEAF(id); break;
        case O_TREE: out[n] = id = new_id(); tr[n] = 1; n++; SPAWN(tree, id, new_id()); break;
        case O_DEEP: out[n] = id = new_ids(1 + dp); tr[n] = 2; n++; SPAWN(deep, id, dp); break;
        case O_SYNC: n--; leaf_synced(out[n], SYNC_ANY(tr[n])); stolen = stolen * 2 + was_stolen(out[n], me); break;
        case O_DROP: n--; DROP(); stolen = stolen * 2 + dropped(out[n]); break;
        case O_NESTED: RUN(inner, mc_param("inner", 1)); break;
        case O_VARS: vars(mc_param("inner", 1)); break;
        case O_CALL: id = new_id(); leaf_synced(id, CALL(leaf, id, id * 3, id * 5 + 1)); break;
        case O_SHARE: LACE_MAKE_ALL_SHARED(); break;
        case O_STEAL: STEAL_RANDOM(); break;
        case O_NEWFRAME: NEWFRAME(inner, mc_param("inner", 1)); break;
        case O_TOGETHER: TOGETHER(copy, mc_param("inner", 1)); break;
        case O_HEAD: MC_ASSERT(lace_get_head(lace_get_worker()) == __lace_dq_head, "the recovered deque head is not just above the outstanding tasks"); break;
        }
        MC_ASSERT((int)LACE_WORKER_ID == me, "the worker id changed");
    }
    while (n > 0) {
        n--;
        if ((ops & O_DROP) && !tr[n] && mc_param("droprest", 0)) { DROP(); stolen = stolen * 2 + dropped(out[n]); }
        else { leaf_synced(out[n], SYNC_ANY(tr[n])); stolen = stolen * 2 + was_stolen(out[n], me); }
    }
    if (mc_param("after", 1)) CALL(inner, 1);
    mc_obs(stolen);
    mc_explore(0);
    return 4242;
}
void mc_main(void)
{
    lace_start(mc_param("w", 2), mc_param("dq", 12));
    mc_quiesce();
    int r = RUN(root, mc_param("len", 3), mc_param("ops", O_SPAWN | O_SYNC));
    MC_ASSERT(r == 4242, "RUN returned a wrong result");
    lace_stop();
}
