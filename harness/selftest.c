/* Programs with known answers for the explorer itself (no Lace involved). */
#include "common.h"
#include <pthread.h>
static int x, y, ra, rb; static atomic_int ax, ay, flag; static pthread_mutex_t m1, m2; static pthread_cond_t cv; static int *ptr; static int fixed; static int ready;
static void *inc(void *a) { (void)a; if (fixed) atomic_fetch_add(&ax, 1); else { int t = atomic_load_explicit(&ax, memory_order_relaxed); ra += 0; atomic_store_explicit(&ax, t + 1, memory_order_relaxed); if (t) mc_obs(7); } return 0; }
static void *sb1(void *a) { (void)a; atomic_store_explicit(&ax, 1, memory_order_relaxed); if (fixed) atomic_thread_fence(memory_order_seq_cst); ra = atomic_load_explicit(&ay, memory_order_relaxed); return 0; }
static void *sb2(void *a) { (void)a; atomic_store_explicit(&ay, 1, memory_order_relaxed); if (fixed) atomic_thread_fence(memory_order_seq_cst); rb = atomic_load_explicit(&ax, memory_order_relaxed); return 0; }
static void *lk1(void *a) { (void)a; pthread_mutex_lock(&m1); pthread_mutex_lock(&m2); pthread_mutex_unlock(&m2); pthread_mutex_unlock(&m1); return 0; }
static void *lk2(void *a) { (void)a; pthread_mutex_t *p = fixed ? &m1 : &m2, *q = fixed ? &m2 : &m1; pthread_mutex_lock(p); pthread_mutex_lock(q); pthread_mutex_unlock(q); pthread_mutex_unlock(p); return 0; }
static __attribute__((noinline)) void sub(void) { volatile int local = 5; ptr = (int *)&local; atomic_store(&flag, 1); if (fixed) while (atomic_load(&flag) != 2) ; }
static void *owner(void *a) { (void)a; sub(); return 0; }
static void *user(void *a) { (void)a; while (atomic_load(&flag) != 1) ; x = *ptr; mc_obs(x); atomic_store(&flag, 2); return 0; }
static void *waiter(void *a) { (void)a; pthread_mutex_lock(&m1); if (fixed) while (!ready) pthread_cond_wait(&cv, &m1); else if (!ready) pthread_cond_wait(&cv, &m1); MC_ASSERT(ready, "woken although not ready"); pthread_mutex_unlock(&m1); return 0; }
static void *waker(void *a) { (void)a; pthread_mutex_lock(&m1); ready = 1; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&m1); return 0; }
static void *spinner(void *a) { (void)a; while (atomic_load(&flag) != 3) ; return 0; }
static void *setter(void *a) { (void)a; if (fixed) atomic_store(&flag, 3); else { int e = 9; if (atomic_compare_exchange_strong(&flag, &e, 3)) ra = 1; } return 0; }
static void *two(void *a) { (void)a; atomic_store(&ax, 1); atomic_store(&ax, 2); return 0; }
static void *look(void *a) { (void)a; MC_ASSERT(atomic_load(&ax) != 1, "seen in between"); return 0; }
static void *mp1(void *a) { (void)a; x = 1; if (fixed) atomic_store_explicit(&flag, 1, memory_order_release); else atomic_store_explicit(&flag, 1, memory_order_relaxed); return 0; }
static void *mp2(void *a) { (void)a; ra = atomic_load_explicit(&flag, memory_order_acquire); rb = x; return 0; }
static void both(void *(*f)(void *), void *(*g)(void *)) { pthread_t s, t; mc_explore(1); pthread_create(&s, 0, f, 0); pthread_create(&t, 0, g, 0); pthread_join(s, 0); pthread_join(t, 0); mc_explore(0); }
void mc_main(void)
{
    fixed = mc_param("fixed", 0);
    switch (mc_param("case", 1)) {
    case 1: both(inc, inc); mc_obs(atomic_load(&ax)); break;
    case 2: both(sb1, sb2); mc_obs(ra * 2 + rb); break;
    case 3: pthread_mutex_init(&m1, 0); pthread_mutex_init(&m2, 0); both(lk1, lk2); break;
    case 4: both(owner, user); break;
    case 5: pthread_mutex_init(&m1, 0); pthread_cond_init(&cv, 0); both(waiter, waker); break;
    case 6: both(spinner, setter); break;
    case 7: { int n = fixed ? 4 : 5; volatile int *p = malloc(16); for (int i = 0; i < n; i++) p[i] = i; free((void *)p); break; }
    case 8: both(two, look); break;
    case 9: both(mp1, mp2); mc_obs(ra * 2 + rb); break;
    }
}
