/* Every history of configuration calls, starts and stops: each start uses what was asked for, and nothing else. */
#include "common.h"
#include <errno.h>
#if LACE_USE_HWLOC
#include "hwloc_model.h"
#endif
#define MAXW 32
static struct { int seen, tid, pu; const void *dq, *end; } wk[MAXW];
MC_GHOST static void here(unsigned id, int pu, const void *dq, const void *end)
{
    MC_ASSERT(id < MAXW, "worker id out of range");
    wk[id].seen++; wk[id].tid = mc_tid(); wk[id].pu = pu; wk[id].dq = dq; wk[id].end = end;
}
MC_GHOST static void forget(void) { memset(wk, 0, sizeof wk); }
#ifdef MC_PLAIN     /* without looking into the worker: its first place only */
VOID_TASK_0(copy) { here(LACE_WORKER_ID, LACE_WORKER_PU, __lace_dq_head, __lace_dq_head + 1); }
#else
VOID_TASK_0(copy) { here(LACE_WORKER_ID, LACE_WORKER_PU, __lace_worker->dq, __lace_worker->end); }
#endif
#if LACE_USE_HWLOC
MC_GHOST static void machine(int shape)
{
    static const signed char S[][7] = { /* nodes, rounds, pus of each core */
        {1, 0, 1, 0}, {1, 0, 2, 0}, {1, 0, 1, 1, 0}, {1, 0, 2, 2, 0}, {1, 1, 2, 2, 0}, {2, 0, 1, 1, 0}, {2, 1, 2, 2, 0}, {1, 0, 1, 1, 1, 0}, {1, 0, 2, 1, 0}, {1, 0, 1, 2, 0}, {3, 0, 1, 1, 1, 0}, {2, 1, 2, 2, 2, 0} };
    hm.nodes = S[shape][0]; hm.rounds = S[shape][1]; hm.cores = 0;
    for (int i = 2; i < 7 && S[shape][i]; i++) hm.pus[hm.cores++] = S[shape][i];
}
#define SHAPES 12
static int npus(void) { int n = 0; for (int c = 0; c < hm.cores; c++) n += hm.pus[c]; return n; }
MC_GHOST static unsigned long cpus_of(int core)     /* the same numbering as in the model */
{
    unsigned long r = 0; int p = 0;
    if (!hm.rounds) { for (int c = 0; c < hm.cores; c++) for (int i = 0; i < hm.pus[c]; i++, p++) if (c == core) r |= 1ul << p; }
    else for (int k = 0; k < 2; k++) for (int c = 0; c < hm.cores; c++) if (k < hm.pus[c]) { if (c == core) r |= 1ul << p; p++; }
    return r;
}
MC_GHOST static void placement(int w)
{
    int minp = 9;
    unsigned long used = 0; unsigned cores = 0;
    for (int c = 0; c < hm.cores; c++) if (hm.pus[c] < minp) minp = hm.pus[c];
    for (int i = 0; i < w; i++) {
        int t = wk[i].tid & 31;
        MC_ASSERT(hm_of[t].bound == 1 && __builtin_popcountl(hm_of[t].cpu) == 1, "a worker is not pinned to one logical processor");
        int pu = wk[i].pu;
        MC_ASSERT(pu >= 0 && pu < hm.cores, "LACE_WORKER_PU is not a core of the machine");
        MC_ASSERT(hm_of[t].cpu & cpus_of(pu), "a worker is pinned to another core than LACE_WORKER_PU says");
        if (w <= hm.cores) MC_ASSERT(!(cores >> pu & 1), "two workers share a core although there are enough cores");
        if (w <= hm.cores * minp) MC_ASSERT(!(used & hm_of[t].cpu), "two workers share a logical processor although there are enough");
        cores |= 1u << pu; used |= hm_of[t].cpu;
        MC_ASSERT(hm_of[t].mem >= 1 && hm_of[t].node == 1ul << (pu * hm.nodes / hm.cores), "the memory of a worker is not bound to its own node");
        MC_ASSERT((const char *)wk[i].dq >= hm_of[t].area && (const char *)wk[i].end <= hm_of[t].area + hm_of[t].len, "the memory bound to the node is not the deque of the worker");
    }
}
#else
#define SHAPES 0
static int npus(void) { return mc_param("pus", 2); }
#endif
static char text[2048];
void mc_main(void)
{
    size_t want = 0;
    int len = mc_param("len", 3), ops = mc_param("ops", 63), verbose = 0, inter = mc_param("inter", 0);
    static const int ws[] = {0, 1, 2, 3, 5, 7, 9, 17}, dqs[] = {6, 0, 33};
    static const size_t sts[] = {0, 1 << 20, ((size_t)5 << 30) + 65536};
    mc_explore(1);
#if LACE_USE_HWLOC
    machine(mc_param("shape", -1) >= 0 ? mc_param("shape", -1) : mc_choose(SHAPES));
#endif
    MC_ASSERT(lace_get_stacksize() == 0, "lace_get_stacksize does not return what was set");
    size_t limit = (size_t)8 << 20;
    if (mc_param("limits", 0)) { static const size_t ls[] = {1 << 20, (16 << 20) - 4096, 64 << 20, (size_t)5 << 30, (size_t)-1}; mc_rlimit_stack(limit = ls[mc_choose(5)]); if (limit > (16 << 20)) limit = 16 << 20; }
    int blocks = mc_live_blocks(), starts = 0;
    for (int k = 0; k < len; k++) {
        int menu[8], m = 0;
        for (int b = 0; b < 6; b++) if (ops >> b & 1) menu[m++] = b;
        int op = k == len - 1 ? 5 : menu[mc_choose(m)];
        switch (op) {
        case 0: case 1: case 2: lace_set_stacksize(want = sts[op]); break;
        case 3: lace_set_verbosity(1); verbose = 1; break;
        case 4: lace_set_verbosity(0); verbose = 0; break;
        case 5: {
            int w = ws[mc_choose(mc_param("nw", 4))], dq = dqs[mc_choose(mc_param("ndq", 2))];
            starts++;
            int eff = w ? w : npus(), before = mc_threads_created();
            text[0] = 0;
            mc_capture_stdout(text, sizeof text);
            mc_explore(inter);
            lace_start(w, dq);
            mc_explore(0);
            mc_quiesce();
            MC_ASSERT((int)lace_workers() == eff, "lace_workers does not report the number of workers asked for");
            MC_ASSERT(mc_threads_created() - before == eff, "the number of worker threads is not the number of workers asked for");
            MC_ASSERT(mc_last_stacksize() == (want ? want : limit), "the worker threads do not get the stack size that was set");
            MC_ASSERT(verbose || text[0] == 0, "lace_start prints although verbosity is off");
            MC_ASSERT(!verbose || text[0] != 0, "lace_start prints nothing although verbosity is on");
            mc_capture_stdout(text, 1);
            forget();
            TOGETHER(copy);
            for (int i = 0; i < eff; i++) {
                MC_ASSERT(wk[i].seen == 1, "a worker id is not used by exactly one worker");
#ifndef MC_PLAIN
                MC_ASSERT((size_t)((const char *)wk[i].end - (const char *)wk[i].dq) == sizeof(Task) * (dq ? dq : 100000), "the deque does not have the size asked for");
#endif
                for (int j = 0; j < i; j++) MC_ASSERT(wk[i].tid != wk[j].tid && ((const char *)wk[i].dq >= (const char *)wk[j].end || (const char *)wk[j].dq >= (const char *)wk[i].end), "two workers share a thread or a deque");
#if !LACE_USE_HWLOC
                MC_ASSERT(wk[i].pu == -1, "a worker that is not pinned claims to be pinned");
#endif
            }
#if LACE_USE_HWLOC
            placement(eff);
            memset(hm_of, 0, sizeof hm_of);
#endif
            lace_stop();
            mc_quiesce();
            MC_ASSERT(mc_others_live() == 0, "a worker thread is left after stopping");
            MC_ASSERT(mc_live_blocks() == blocks, "memory or semaphores of the stopped framework are not released");
            mc_explore(1);
            mc_obs(w * 1000 + dq + starts);
            break; }
        }
        MC_ASSERT(lace_get_stacksize() == want, "lace_get_stacksize does not return what was set");
    }
    mc_explore(0);
}
