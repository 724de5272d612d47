/* The k-th allocation or thread creation during start-up fails. */
#include "common.h"
TASK_1(int, id, int, x) { return x; }
void mc_main(void)
{
    mc_explore(1);
    if (mc_param("huge", 0)) {      /* more memory than there is: 32 bits are not enough for the size */
        static const size_t dqs[] = {1ul << 24, 1ul << 26, (1ul << 26) + 4, 1ul << 27, 1ul << 32, (1ul << 32) + 8};
        size_t dq = dqs[mc_choose(6)]; int w = 1 + mc_choose(3);
        mc_obs(dq + w);
        mc_explore(mc_param("inter", 0));
        mc_expect_exit(1);
        lace_start(w, dq);
        RUN(id, 3);
        MC_ASSERT(0, "a failure to obtain a resource at start-up went unnoticed");
    }
    int w = 1 + mc_choose(mc_param("wmax", 3)), second = mc_choose(2), what = mc_choose(2), n = what ? w : 3 + w;
    int k = mc_choose(n + 1);
    mc_obs(((w * 2 + second) * 2 + what) * 10 + k);
    mc_explore(0);
    if (second) { lace_start(2, 8); MC_ASSERT(RUN(id, 3) == 3, "RUN returned a wrong result"); lace_stop(); }
    mc_explore(mc_param("inter", 0));
    if (k < n) mc_expect_exit(1);
    if (what) mc_fail_thread(k); else mc_fail_alloc(k);
    lace_start(w, 8);
    int r = RUN(id, 3);
    TOGETHER(id, 3);
    mc_explore(0);
    MC_ASSERT(r == 3, "RUN returned a wrong result");
    if (what ? mc_threads_seen() > k : mc_allocs_seen() > k) MC_ASSERT(0, "a failure to obtain a resource at start-up went unnoticed");
    mc_expect_exit(0);
    mc_fail_alloc(-1); mc_fail_thread(-1);
    lace_stop();
}
