/* Interface between harnesses (instrumented, under test) and the explorer. */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
/* Report a violation of the property under check unless cond. */
void mc_assert_(int cond, const char *msg, const char *file, int line);
#define MC_ASSERT(c, msg) mc_assert_(!!(c), msg, __FILE__, __LINE__)
/* Enumerated choice 0..n-1 (every alternative is explored). */
int mc_choose(int n);
/* Add to the observation of this execution (its outcome). */
void mc_obs(uint64_t v);
/* From here on interleavings are enumerated (1) / only the default schedule is run (0). */
void mc_explore(int on);
/* Blocks until no other thread can make progress. */
void mc_quiesce(void);
/* Number of live threads (other than the caller) that are not blocked in an OS wait. */
int mc_others_running(void);
/* Number of live (started, unfinished) threads other than the caller. */
int mc_others_live(void);
/* Number of finished or live threads that are neither detached nor joined. */
int mc_threads_unreclaimed(void);
/* Number of heap / mmap blocks allocated by the code under test and not released; semaphores not destroyed. */
int mc_live_blocks(void);
/* Number of blocks allocated so far (live or not) and the size of the i-th. */
int mc_blocks(void);
size_t mc_block_size(int i);
int mc_threads_created(void);
/* Calling exit/abort is a violation unless announced: then a nonzero status plus a diagnostic on stderr is the required outcome. */
void mc_expect_exit(int on);
int mc_tid(void);
/* Own-step bound for the calling thread: at most n accesses until mc_bounded(0), and no blocking. */
void mc_bounded(int n);
/* Record the text printed to this fake stream. */
void *mc_file(void);
void mc_capture(char *buf, size_t size);
void mc_capture_stdout(char *buf, size_t size);
/* The caller's plain reads (1), plain writes (2), atomics (4) are not scheduling points (for statistics, which are racy by design); 0: off. */
void mc_private(int classes);
/* Every reading of the system clock advances it by this much. */
void mc_clock_step(int usec);
void mc_clock_add(int usec);           /* let time pass */
int mc_stderr_bytes(void);             /* what the program has written to stderr so far */
/* Fail the k-th (0-based) allocation / thread creation from now on; -1: none. */
void mc_fail_alloc(int k);
void mc_fail_thread(int k);
int mc_allocs_seen(void);
int mc_threads_seen(void);
size_t mc_last_stacksize(void);
/* The limit of the size of stacks that the system reports. */
void mc_rlimit_stack(size_t n);
int mc_param(const char *name, int dflt);
/* Harness entry point. */
void mc_main(void);
#define MC_GHOST __attribute__((no_sanitize_thread, noinline))
#ifdef __cplusplus
}
#endif
#endif
