From 62db7735552b677d4b30e60f47f519a6d43b5d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:31 +0000
Subject: [PATCH 01/18] Add LACE_VERIFY hooks for random victim choice and the
 PIE clock

---
 src/lace.c   | 8 ++++++++
 src/lace.h   | 8 ++++++++
 src/lace.sh  | 8 ++++++++
 src/lace14.c | 8 ++++++++
 src/lace14.h | 8 ++++++++
 5 files changed, 40 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index 29019f6..58fd45b 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -520,9 +520,17 @@ lace_resume()
  * Simple random number generated (like rand) using the given seed.
  * (Used for thread-specific (scalable) random number generation.
  */
+#ifdef LACE_VERIFY
+/* Verification build: the environment resolves every random choice. */
+uint32_t lace_verify_rng(uint32_t *seed, int max);
+#endif
+
 static inline uint32_t
 rng(uint32_t *seed, int max)
 {
+#ifdef LACE_VERIFY
+    return lace_verify_rng(seed, max);
+#endif
     uint32_t next = *seed;
 
     next *= 1103515245;
diff --git a/src/lace.h b/src/lace.h
index fe99dea..6b562a7 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -317,9 +317,17 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 #endif
 
 #if LACE_PIE_TIMES
+#ifdef LACE_VERIFY
+/* Verification build: the environment supplies the clock. */
+uint64_t lace_verify_time(void);
+#endif
+
 /* High resolution timer */
 static inline uint64_t gethrtime()
 {
+#ifdef LACE_VERIFY
+    return lace_verify_time();
+#endif
     uint32_t hi, lo;
     asm volatile ("rdtsc" : "=a"(lo), "=d"(hi) :: "memory");
     return (uint64_t)hi<<32 | lo;
diff --git a/src/lace.sh b/src/lace.sh
index b534023..a180a4b 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -324,9 +324,17 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 #endif
 
 #if LACE_PIE_TIMES
+#ifdef LACE_VERIFY
+/* Verification build: the environment supplies the clock. */
+uint64_t lace_verify_time(void);
+#endif
+
 /* High resolution timer */
 static inline uint64_t gethrtime()
 {
+#ifdef LACE_VERIFY
+    return lace_verify_time();
+#endif
     uint32_t hi, lo;
     asm volatile ("rdtsc" : "=a"(lo), "=d"(hi) :: "memory");
     return (uint64_t)hi<<32 | lo;
diff --git a/src/lace14.c b/src/lace14.c
index deb232b..b34d6d2 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -520,9 +520,17 @@ lace_resume()
  * Simple random number generated (like rand) using the given seed.
  * (Used for thread-specific (scalable) random number generation.
  */
+#ifdef LACE_VERIFY
+/* Verification build: the environment resolves every random choice. */
+uint32_t lace_verify_rng(uint32_t *seed, int max);
+#endif
+
 static inline uint32_t
 rng(uint32_t *seed, int max)
 {
+#ifdef LACE_VERIFY
+    return lace_verify_rng(seed, max);
+#endif
     uint32_t next = *seed;
 
     next *= 1103515245;
diff --git a/src/lace14.h b/src/lace14.h
index 085fb59..477ed2a 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -317,9 +317,17 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 #endif
 
 #if LACE_PIE_TIMES
+#ifdef LACE_VERIFY
+/* Verification build: the environment supplies the clock. */
+uint64_t lace_verify_time(void);
+#endif
+
 /* High resolution timer */
 static inline uint64_t gethrtime()
 {
+#ifdef LACE_VERIFY
+    return lace_verify_time();
+#endif
     uint32_t hi, lo;
     asm volatile ("rdtsc" : "=a"(lo), "=d"(hi) :: "memory");
     return (uint64_t)hi<<32 | lo;
-- 
2.43.0


From 60fb31d5ac250d76de6b805901e2ef2b9ad60f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:33 +0000
Subject: [PATCH 02/18] fix: do not overwrite a pending external task in
 lace_run_task

The expected value of the compare-and-swap on external_task was not reset after
a failure, so a second concurrent external RUN replaced the pending task of the
first, whose submitter then waited forever.
---
 src/lace.c   | 6 ++++--
 src/lace14.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 58fd45b..5205d15 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -585,8 +585,9 @@ lace_run_task(Task *task)
         external_task_counter++;
         pthread_mutex_unlock(&external_task_lock);
 
+        // wait for the slot to be free (a failed CAS overwrites exp, so reset it)
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
@@ -632,8 +633,9 @@ lace_run_task_exclusive(Task *task)
         }
         pthread_mutex_unlock(&external_task_lock);
 
+        // wait for the slot to be free (a failed CAS overwrites exp, so reset it)
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
diff --git a/src/lace14.c b/src/lace14.c
index b34d6d2..f03313d 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -585,8 +585,9 @@ lace_run_task(Task *task)
         external_task_counter++;
         pthread_mutex_unlock(&external_task_lock);
 
+        // wait for the slot to be free (a failed CAS overwrites exp, so reset it)
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
@@ -632,8 +633,9 @@ lace_run_task_exclusive(Task *task)
         }
         pthread_mutex_unlock(&external_task_lock);
 
+        // wait for the slot to be free (a failed CAS overwrites exp, so reset it)
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
-- 
2.43.0


From 03f443be67add56b92eaed3f2e9a43b1da1e4fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:23 +0000
Subject: [PATCH 03/18] fix: mark the deque slot of a dropped task as empty

DROP left the slot marked as a task, so lace_get_head returned a position above
dropped tasks; work spawned from there could expose them to thieves, which then
executed the dropped tasks.
---
 src/lace.h   | 2 ++
 src/lace.sh  | 2 ++
 src/lace14.h | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/lace.h b/src/lace.h
index 6b562a7..a94955a 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -702,6 +702,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -709,6 +710,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
diff --git a/src/lace.sh b/src/lace.sh
index a180a4b..95de5a1 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -709,6 +709,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -716,6 +717,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
diff --git a/src/lace14.h b/src/lace14.h
index 477ed2a..9945a88 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -702,6 +702,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -709,6 +710,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
-- 
2.43.0


From 66479eb57d5a100400434e326d2aac54b10083a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:33 +0000
Subject: [PATCH 04/18] fix: keep workers available for new frames until a
 frame is left

An external task that is picked up by a worker inside a frame (NEWFRAME or
TOGETHER) may itself request a new frame. The workers that were done with the
frame were then already waiting in its final barrier and never took part in
the new frame: barriers of the two frames paired up, leading to deadlock or to
use of a frame that had already been left. Workers now keep taking part in new
frames until every worker is ready to leave.
---
 src/lace.c   | 41 ++++++++++++++++++++++++++++++++++++-----
 src/lace14.c | 41 ++++++++++++++++++++++++++++++++++++-----
 2 files changed, 72 insertions(+), 10 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 5205d15..31166fe 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1210,11 +1210,23 @@ lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head)
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t);
 }
 
+/**
+ * Wait until all workers are ready to leave the frame.
+ * A worker may still be executing an external task that it picked up inside the frame, and that task may
+ * itself use NEWFRAME or TOGETHER, so keep taking part in new frames until no worker is working anymore.
+ */
+static void
+lace_leave_frame(WorkerP *__lace_worker, Task *__lace_dq_head, atomic_int *busy)
+{
+    *busy -= 1;
+    while (*busy != 0) YIELD_NEWFRAME();
+}
+
 /**
  * Root task for the TOGETHER method.
  * Ensures after executing, to steal random tasks until done.
  */
-VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
+VOID_TASK_3(lace_together_root, Task*, t, atomic_int*, finished, atomic_int*, busy)
 {
     // run the root task
     t->f(__lace_worker, __lace_dq_head, t);
@@ -1224,12 +1236,16 @@ VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
 
     // while threads aren't done, steal randomly
     while (*finished != 0) STEAL_RANDOM();
+
+    lace_leave_frame(__lace_worker, __lace_dq_head, busy);
 }
 
 VOID_TASK_1(lace_wrap_together, Task*, task)
 {
     /* synchronization integer (decrease by 1 when done...) */
     atomic_int done = n_workers;
+    /* number of workers that are not yet ready to leave the frame */
+    atomic_int busy = n_workers;
 
     /* wrap task in lace_together_root */
     Task _t2;
@@ -1238,6 +1254,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     atomic_store_explicit(&t2->thief, THIEF_TASK, memory_order_relaxed);
     t2->d.args.arg_1 = task;
     t2->d.args.arg_2 = &done;
+    t2->d.args.arg_3 = &busy;
 
     /* now try to be the one who sets it! */
     while (1) {
@@ -1255,23 +1272,36 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);
 }
 
-VOID_TASK_2(lace_newframe_root, Task*, t, atomic_int*, done)
+VOID_TASK_3(lace_newframe_root, Task*, t, atomic_int*, done, atomic_int*, busy)
 {
     t->f(__lace_worker, __lace_dq_head, t);
     *done = 1;
+    lace_leave_frame(__lace_worker, __lace_dq_head, busy);
+}
+
+/**
+ * Task of the other workers for the NEWFRAME method: steal tasks until done.
+ */
+VOID_TASK_2(lace_newframe_helper, atomic_int*, done, atomic_int*, busy)
+{
+    CALL(lace_steal_loop, done);
+    lace_leave_frame(__lace_worker, __lace_dq_head, busy);
 }
 
 VOID_TASK_1(lace_wrap_newframe, Task*, task)
 {
     /* synchronization integer (set to 1 when done...) */
     atomic_int done = 0;
+    /* number of workers that are not yet ready to leave the frame */
+    atomic_int busy = n_workers;
 
-    /* create the lace_steal_loop task for the other workers */
+    /* create the lace_newframe_helper task for the other workers */
     Task _s;
-    TD_lace_steal_loop *s = (TD_lace_steal_loop *)&_s;
-    s->f = &lace_steal_loop_WRAP;
+    TD_lace_newframe_helper *s = (TD_lace_newframe_helper *)&_s;
+    s->f = &lace_newframe_helper_WRAP;
     atomic_store_explicit(&s->thief, THIEF_TASK, memory_order_relaxed);
     s->d.args.arg_1 = &done;
+    s->d.args.arg_2 = &busy;
 
     /* now try to be the one who sets it! */
     while (1) {
@@ -1293,6 +1323,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     atomic_store_explicit(&t2->thief, THIEF_TASK, memory_order_relaxed);
     t2->d.args.arg_1 = task;
     t2->d.args.arg_2 = &done;
+    t2->d.args.arg_3 = &busy;
 
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);
 }
diff --git a/src/lace14.c b/src/lace14.c
index f03313d..4c13552 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1210,11 +1210,23 @@ lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head)
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t);
 }
 
+/**
+ * Wait until all workers are ready to leave the frame.
+ * A worker may still be executing an external task that it picked up inside the frame, and that task may
+ * itself use NEWFRAME or TOGETHER, so keep taking part in new frames until no worker is working anymore.
+ */
+static void
+lace_leave_frame(WorkerP *__lace_worker, Task *__lace_dq_head, atomic_int *busy)
+{
+    *busy -= 1;
+    while (*busy != 0) YIELD_NEWFRAME();
+}
+
 /**
  * Root task for the TOGETHER method.
  * Ensures after executing, to steal random tasks until done.
  */
-VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
+VOID_TASK_3(lace_together_root, Task*, t, atomic_int*, finished, atomic_int*, busy)
 {
     // run the root task
     t->f(__lace_worker, __lace_dq_head, t);
@@ -1224,12 +1236,16 @@ VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
 
     // while threads aren't done, steal randomly
     while (*finished != 0) STEAL_RANDOM();
+
+    lace_leave_frame(__lace_worker, __lace_dq_head, busy);
 }
 
 VOID_TASK_1(lace_wrap_together, Task*, task)
 {
     /* synchronization integer (decrease by 1 when done...) */
     atomic_int done = n_workers;
+    /* number of workers that are not yet ready to leave the frame */
+    atomic_int busy = n_workers;
 
     /* wrap task in lace_together_root */
     Task _t2;
@@ -1238,6 +1254,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     atomic_store_explicit(&t2->thief, THIEF_TASK, memory_order_relaxed);
     t2->d.args.arg_1 = task;
     t2->d.args.arg_2 = &done;
+    t2->d.args.arg_3 = &busy;
 
     /* now try to be the one who sets it! */
     while (1) {
@@ -1255,23 +1272,36 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);
 }
 
-VOID_TASK_2(lace_newframe_root, Task*, t, atomic_int*, done)
+VOID_TASK_3(lace_newframe_root, Task*, t, atomic_int*, done, atomic_int*, busy)
 {
     t->f(__lace_worker, __lace_dq_head, t);
     *done = 1;
+    lace_leave_frame(__lace_worker, __lace_dq_head, busy);
+}
+
+/**
+ * Task of the other workers for the NEWFRAME method: steal tasks until done.
+ */
+VOID_TASK_2(lace_newframe_helper, atomic_int*, done, atomic_int*, busy)
+{
+    CALL(lace_steal_loop, done);
+    lace_leave_frame(__lace_worker, __lace_dq_head, busy);
 }
 
 VOID_TASK_1(lace_wrap_newframe, Task*, task)
 {
     /* synchronization integer (set to 1 when done...) */
     atomic_int done = 0;
+    /* number of workers that are not yet ready to leave the frame */
+    atomic_int busy = n_workers;
 
-    /* create the lace_steal_loop task for the other workers */
+    /* create the lace_newframe_helper task for the other workers */
     Task _s;
-    TD_lace_steal_loop *s = (TD_lace_steal_loop *)&_s;
-    s->f = &lace_steal_loop_WRAP;
+    TD_lace_newframe_helper *s = (TD_lace_newframe_helper *)&_s;
+    s->f = &lace_newframe_helper_WRAP;
     atomic_store_explicit(&s->thief, THIEF_TASK, memory_order_relaxed);
     s->d.args.arg_1 = &done;
+    s->d.args.arg_2 = &busy;
 
     /* now try to be the one who sets it! */
     while (1) {
@@ -1293,6 +1323,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     atomic_store_explicit(&t2->thief, THIEF_TASK, memory_order_relaxed);
     t2->d.args.arg_1 = task;
     t2->d.args.arg_2 = &done;
+    t2->d.args.arg_3 = &busy;
 
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);
 }
-- 
2.43.0


From b3f09fa455405465430f76b7be8062ad5c000e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:36 +0000
Subject: [PATCH 05/18] fix: do not read outside small task deques in
 lace_get_head

---
 src/lace.c   | 10 +++++-----
 src/lace14.c | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 31166fe..fe09101 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -164,14 +164,14 @@ lace_get_head(WorkerP *self)
     Task *dq = self->dq;
 
     /* First check the first tasks linearly */
-    if (dq[0].thief == 0) return dq;
-    if (dq[1].thief == 0) return dq+1;
-    if (dq[2].thief == 0) return dq+2;
-    if (dq[3].thief == 0) return dq+3;
+    const size_t size = self->end - self->dq;
+    for (size_t i=0; i<4; i++) {
+        if (i == size || dq[i].thief == 0) return dq+i;
+    }
 
     /* Then fast search for a low/high bound using powers of 2: 4, 8, 16... */
     size_t low = 2;
-    size_t high = self->end - self->dq;
+    size_t high = size;
 
     for (;;) {
         if (low*2 >= high) {
diff --git a/src/lace14.c b/src/lace14.c
index 4c13552..4508e05 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -164,14 +164,14 @@ lace_get_head(WorkerP *self)
     Task *dq = self->dq;
 
     /* First check the first tasks linearly */
-    if (dq[0].thief == 0) return dq;
-    if (dq[1].thief == 0) return dq+1;
-    if (dq[2].thief == 0) return dq+2;
-    if (dq[3].thief == 0) return dq+3;
+    const size_t size = self->end - self->dq;
+    for (size_t i=0; i<4; i++) {
+        if (i == size || dq[i].thief == 0) return dq+i;
+    }
 
     /* Then fast search for a low/high bound using powers of 2: 4, 8, 16... */
     size_t low = 2;
-    size_t high = self->end - self->dq;
+    size_t high = size;
 
     for (;;) {
         if (low*2 >= high) {
-- 
2.43.0


From 00a7c9757a4a3ed7b8c3517f5bb7334ef17c5a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:36 +0000
Subject: [PATCH 06/18] fix: let a deque size of 0 always select the default
 size

---
 src/lace.c   | 13 +++++++++----
 src/lace14.c | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index fe09101..aa0169d 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -72,7 +72,12 @@ static Worker **workers = NULL;
  * Default sizes for program stack and task deque
  */
 static size_t stacksize = 0; // 0 means just take default
-static size_t default_dqsize = 100000;
+static const size_t default_dqsize = 100000;
+
+/**
+ * Size of the task deque of each worker (set by lace_start)
+ */
+static size_t worker_dqsize = 0;
 
 /**
  * Verbosity flag, set with lace_set_verbosity
@@ -442,7 +447,7 @@ lace_init_worker(unsigned int worker)
 
     // Initialize private worker data
     w->_public = wt;
-    w->end = w->dq + default_dqsize;
+    w->end = w->dq + worker_dqsize;
     w->split = w->dq;
     w->allstolen = 0;
     w->worker = worker;
@@ -845,8 +850,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     // Initialize globals
     n_workers = _n_workers == 0 ? n_pus : _n_workers;
-    if (dqsize != 0) default_dqsize = dqsize;
-    else dqsize = default_dqsize;
+    if (dqsize == 0) dqsize = default_dqsize;
+    worker_dqsize = dqsize;
     lace_quits = 0;
     atomic_store_explicit(&workers_running, 0, memory_order_relaxed);
 
diff --git a/src/lace14.c b/src/lace14.c
index 4508e05..271218b 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -72,7 +72,12 @@ static Worker **workers = NULL;
  * Default sizes for program stack and task deque
  */
 static size_t stacksize = 0; // 0 means just take default
-static size_t default_dqsize = 100000;
+static const size_t default_dqsize = 100000;
+
+/**
+ * Size of the task deque of each worker (set by lace_start)
+ */
+static size_t worker_dqsize = 0;
 
 /**
  * Verbosity flag, set with lace_set_verbosity
@@ -442,7 +447,7 @@ lace_init_worker(unsigned int worker)
 
     // Initialize private worker data
     w->_public = wt;
-    w->end = w->dq + default_dqsize;
+    w->end = w->dq + worker_dqsize;
     w->split = w->dq;
     w->allstolen = 0;
     w->worker = worker;
@@ -845,8 +850,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     // Initialize globals
     n_workers = _n_workers == 0 ? n_pus : _n_workers;
-    if (dqsize != 0) default_dqsize = dqsize;
-    else dqsize = default_dqsize;
+    if (dqsize == 0) dqsize = default_dqsize;
+    worker_dqsize = dqsize;
     lace_quits = 0;
     atomic_store_explicit(&workers_running, 0, memory_order_relaxed);
 
-- 
2.43.0


From d9cdf87a7edcace0d99bdb6942af56feab7142b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:03 +0000
Subject: [PATCH 07/18] fix: let every worker execute a personal copy of a
 TOGETHER task

The workers all executed the same task structure. When the task has a result,
the first worker to finish overwrote the arguments (they share a union) that
slower workers had not read yet.
---
 src/lace.c   | 6 ++++--
 src/lace14.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index aa0169d..77a6254 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1233,8 +1233,10 @@ lace_leave_frame(WorkerP *__lace_worker, Task *__lace_dq_head, atomic_int *busy)
  */
 VOID_TASK_3(lace_together_root, Task*, t, atomic_int*, finished, atomic_int*, busy)
 {
-    // run the root task
-    t->f(__lace_worker, __lace_dq_head, t);
+    // run a personal copy of the root task (its result overwrites its arguments)
+    Task _t;
+    memcpy(&_t, t, sizeof(Task));
+    _t.f(__lace_worker, __lace_dq_head, &_t);
 
     // signal out completion
     *finished -= 1;
diff --git a/src/lace14.c b/src/lace14.c
index 271218b..1dd34dc 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1233,8 +1233,10 @@ lace_leave_frame(WorkerP *__lace_worker, Task *__lace_dq_head, atomic_int *busy)
  */
 VOID_TASK_3(lace_together_root, Task*, t, atomic_int*, finished, atomic_int*, busy)
 {
-    // run the root task
-    t->f(__lace_worker, __lace_dq_head, t);
+    // run a personal copy of the root task (its result overwrites its arguments)
+    Task _t;
+    memcpy(&_t, t, sizeof(Task));
+    _t.f(__lace_worker, __lace_dq_head, &_t);
 
     // signal out completion
     *finished -= 1;
-- 
2.43.0


From 7adecdc104a2dbe12753a5a43be2d63f9fefeacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:01 +0000
Subject: [PATCH 08/18] fix: report PIE times of runs shorter than a
 millisecond

The elapsed time in whole milliseconds is 0 for such runs, and dividing
by it crashed lace_stop and lace_count_report_file.
---
 src/lace.c   | 7 ++++---
 src/lace14.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 77a6254..c05ba49 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1052,15 +1052,16 @@ lace_count_report_file(FILE *file)
 #if LACE_PIE_TIMES
     count_at_end = gethrtime();
 
-    uint64_t count_per_ms = (count_at_end - count_at_start) / (us_elapsed() / 1000);
-    double dcpm = (double)count_per_ms;
+    // runs shorter than a millisecond are possible, so count in microseconds and never divide by 0
+    uint64_t us = us_elapsed();
+    double dcpm = (double)(count_at_end - count_at_start) * 1000.0 / (double)(us > 0 ? us : 1);
 
     uint64_t sum_count;
     sum_count = ctr_all[CTR_init] + ctr_all[CTR_wapp] + ctr_all[CTR_lapp] + ctr_all[CTR_wsteal] + ctr_all[CTR_lsteal]
               + ctr_all[CTR_close] + ctr_all[CTR_wstealsucc] + ctr_all[CTR_lstealsucc] + ctr_all[CTR_wsignal]
               + ctr_all[CTR_lsignal];
 
-    fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", count_per_ms / 1000000.0);
+    fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", dcpm / 1000000.0);
     fprintf(file, "Aggregated time per pie slice, total time: %.2f CPU seconds\n\n", sum_count / (1000*dcpm));
 
     for (i=0;i<n_workers;i++) {
diff --git a/src/lace14.c b/src/lace14.c
index 1dd34dc..30e14dd 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1052,15 +1052,16 @@ lace_count_report_file(FILE *file)
 #if LACE_PIE_TIMES
     count_at_end = gethrtime();
 
-    uint64_t count_per_ms = (count_at_end - count_at_start) / (us_elapsed() / 1000);
-    double dcpm = (double)count_per_ms;
+    // runs shorter than a millisecond are possible, so count in microseconds and never divide by 0
+    uint64_t us = us_elapsed();
+    double dcpm = (double)(count_at_end - count_at_start) * 1000.0 / (double)(us > 0 ? us : 1);
 
     uint64_t sum_count;
     sum_count = ctr_all[CTR_init] + ctr_all[CTR_wapp] + ctr_all[CTR_lapp] + ctr_all[CTR_wsteal] + ctr_all[CTR_lsteal]
               + ctr_all[CTR_close] + ctr_all[CTR_wstealsucc] + ctr_all[CTR_lstealsucc] + ctr_all[CTR_wsignal]
               + ctr_all[CTR_lsignal];
 
-    fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", count_per_ms / 1000000.0);
+    fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", dcpm / 1000000.0);
     fprintf(file, "Aggregated time per pie slice, total time: %.2f CPU seconds\n\n", sum_count / (1000*dcpm));
 
     for (i=0;i<n_workers;i++) {
-- 
2.43.0


From 544852ca1353309c72a067052642721f782ea9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:34 +0000
Subject: [PATCH 09/18] fix: let statistics functions wait until the workers
 are initialised

lace_start returns before the workers have set up their own data, so
lace_count_reset or lace_count_report_file directly after it followed
uninitialised pointers.
---
 src/lace.c   | 16 ++++++++++++++++
 src/lace14.c | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index c05ba49..3caf12a 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -889,6 +889,7 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     // Ensure worker array is set to 0 initially
     memset(workers, 0, n_workers*sizeof(Worker*));
+    memset(workers_p, 0, n_workers*sizeof(WorkerP*));
 
     // Compute memory size for each worker
     workers_memory_size = sizeof(worker_data) + sizeof(Task) * dqsize;
@@ -956,6 +957,17 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
 #if LACE_COUNT_EVENTS
 static uint64_t ctr_all[CTR_MAX];
+
+/**
+ * Workers initialize their own data; wait until all of them have done so.
+ */
+static void
+lace_count_wait_for_workers()
+{
+    for (unsigned int i=0; i<n_workers; i++) {
+        while (((WorkerP * volatile *)workers_p)[i] == NULL) {}
+    }
+}
 #endif
 
 /**
@@ -968,6 +980,8 @@ lace_count_reset()
     unsigned int i;
     size_t j;
 
+    lace_count_wait_for_workers();
+
     for (i=0;i<n_workers;i++) {
         for (j=0;j<CTR_MAX;j++) {
             workers_p[i]->ctr[j] = 0;
@@ -996,6 +1010,8 @@ lace_count_report_file(FILE *file)
     unsigned int i;
     size_t j;
 
+    lace_count_wait_for_workers();
+
     for (j=0;j<CTR_MAX;j++) ctr_all[j] = 0;
     for (i=0;i<n_workers;i++) {
         uint64_t *wctr = workers_p[i]->ctr;
diff --git a/src/lace14.c b/src/lace14.c
index 30e14dd..25c9b93 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -889,6 +889,7 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     // Ensure worker array is set to 0 initially
     memset(workers, 0, n_workers*sizeof(Worker*));
+    memset(workers_p, 0, n_workers*sizeof(WorkerP*));
 
     // Compute memory size for each worker
     workers_memory_size = sizeof(worker_data) + sizeof(Task) * dqsize;
@@ -956,6 +957,17 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
 #if LACE_COUNT_EVENTS
 static uint64_t ctr_all[CTR_MAX];
+
+/**
+ * Workers initialize their own data; wait until all of them have done so.
+ */
+static void
+lace_count_wait_for_workers()
+{
+    for (unsigned int i=0; i<n_workers; i++) {
+        while (((WorkerP * volatile *)workers_p)[i] == NULL) {}
+    }
+}
 #endif
 
 /**
@@ -968,6 +980,8 @@ lace_count_reset()
     unsigned int i;
     size_t j;
 
+    lace_count_wait_for_workers();
+
     for (i=0;i<n_workers;i++) {
         for (j=0;j<CTR_MAX;j++) {
             workers_p[i]->ctr[j] = 0;
@@ -996,6 +1010,8 @@ lace_count_report_file(FILE *file)
     unsigned int i;
     size_t j;
 
+    lace_count_wait_for_workers();
+
     for (j=0;j<CTR_MAX;j++) ctr_all[j] = 0;
     for (i=0;i<n_workers;i++) {
         uint64_t *wctr = workers_p[i]->ctr;
-- 
2.43.0


From a61bab2bd96e1238eca6006710ff644bdef06c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:02 +0000
Subject: [PATCH 10/18] fix: do not join a frame that nobody requested

A weak compare-and-swap may fail although no other frame is pending, and
the requester then followed a null pointer in lace_yield.
---
 src/lace.c   | 4 ++--
 src/lace14.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 3caf12a..489f29e 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1283,7 +1283,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_t2)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_t2)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
@@ -1330,7 +1330,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_s)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
diff --git a/src/lace14.c b/src/lace14.c
index 25c9b93..f271ba1 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1283,7 +1283,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_t2)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_t2)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
@@ -1330,7 +1330,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_s)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
-- 
2.43.0


From 397319b337d245d3a0a9b149763d8c88129f967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:28 +0000
Subject: [PATCH 11/18] fix: resume waiting when a signal interrupts a
 semaphore wait

Otherwise RUN returns before its task is executed and its frame is reused,
or a suspended worker continues.
---
 src/lace.c   | 8 ++++----
 src/lace14.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 489f29e..75163f4 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -594,7 +594,7 @@ lace_run_task(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        while (sem_wait(&et.sem) != 0) {} // a signal may interrupt the wait
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -642,7 +642,7 @@ lace_run_task_exclusive(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        while (sem_wait(&et.sem) != 0) {} // a signal may interrupt the wait
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -751,7 +751,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         if (unlikely(atomic_load_explicit(&must_suspend, memory_order_acquire))) {
             workers_running -= 1;
-            sem_wait(&suspend_semaphore);
+            while (sem_wait(&suspend_semaphore) != 0) {} // a signal may interrupt the wait
             lace_barrier(); // ensure we're all back before continuing
             workers_running += 1;
         }
@@ -774,7 +774,7 @@ lace_worker_thread(void* arg)
     lace_pin_worker();
 
     // Wait for the first time we are resumed
-    sem_wait(&suspend_semaphore);
+    while (sem_wait(&suspend_semaphore) != 0) {} // a signal may interrupt the wait
 
     // Signal that we are running
     workers_running += 1;
diff --git a/src/lace14.c b/src/lace14.c
index f271ba1..dbd766d 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -594,7 +594,7 @@ lace_run_task(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        while (sem_wait(&et.sem) != 0) {} // a signal may interrupt the wait
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -642,7 +642,7 @@ lace_run_task_exclusive(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        while (sem_wait(&et.sem) != 0) {} // a signal may interrupt the wait
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -751,7 +751,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         if (unlikely(atomic_load_explicit(&must_suspend, memory_order_acquire))) {
             workers_running -= 1;
-            sem_wait(&suspend_semaphore);
+            while (sem_wait(&suspend_semaphore) != 0) {} // a signal may interrupt the wait
             lace_barrier(); // ensure we're all back before continuing
             workers_running += 1;
         }
@@ -774,7 +774,7 @@ lace_worker_thread(void* arg)
     lace_pin_worker();
 
     // Wait for the first time we are resumed
-    sem_wait(&suspend_semaphore);
+    while (sem_wait(&suspend_semaphore) != 0) {} // a signal may interrupt the wait
 
     // Signal that we are running
     workers_running += 1;
-- 
2.43.0


From 1b4c77a08f94459936a73117fbd6634d0a91a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:28 +0000
Subject: [PATCH 12/18] fix: create the worker threads detached

They were neither joined nor detached, so every lace_stop leaked their
stacks and thread descriptors.
---
 src/lace.c   | 3 +++
 src/lace14.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index 75163f4..56edcf6 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -903,6 +903,9 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     pthread_attr_t worker_attr;
     pthread_attr_init(&worker_attr);
 
+    // Nobody joins the workers, so let the system release them when they end
+    pthread_attr_setdetachstate(&worker_attr, PTHREAD_CREATE_DETACHED);
+
     // Set the stack size
     if (stacksize != 0) {
         pthread_attr_setstacksize(&worker_attr, stacksize);
diff --git a/src/lace14.c b/src/lace14.c
index dbd766d..e2d90a1 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -903,6 +903,9 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     pthread_attr_t worker_attr;
     pthread_attr_init(&worker_attr);
 
+    // Nobody joins the workers, so let the system release them when they end
+    pthread_attr_setdetachstate(&worker_attr, PTHREAD_CREATE_DETACHED);
+
     // Set the stack size
     if (stacksize != 0) {
         pthread_attr_setstacksize(&worker_attr, stacksize);
-- 
2.43.0


From 23bd4b31c28baca724ba5aac9c2682982fe11317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:28 +0000
Subject: [PATCH 13/18] fix: report a failure to create a worker thread

lace_start ignored it, and everything that needs all workers then hung.
---
 src/lace.c   | 5 ++++-
 src/lace14.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 56edcf6..463addb 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -948,7 +948,10 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
         pthread_t res;
-        pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i);
+        if (pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i) != 0) {
+            fprintf(stderr, "Lace error: Unable to create a Lace worker thread!\n");
+            exit(1);
+        }
     }
 
     /* Make sure we start resumed */
diff --git a/src/lace14.c b/src/lace14.c
index e2d90a1..81323ed 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -948,7 +948,10 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
         pthread_t res;
-        pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i);
+        if (pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i) != 0) {
+            fprintf(stderr, "Lace error: Unable to create a Lace worker thread!\n");
+            exit(1);
+        }
     }
 
     /* Make sure we start resumed */
-- 
2.43.0


From 0675fd1add43dc17674ea835b36aa8246c721872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:43 +0000
Subject: [PATCH 14/18] fix: release the hwloc topology when stopping

---
 src/lace.c   | 4 ++++
 src/lace14.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index 463addb..08f24ed 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1163,6 +1163,10 @@ void lace_stop()
     free(workers_memory);
 #endif
 
+#if LACE_USE_HWLOC
+    hwloc_topology_destroy(topo);
+#endif
+
     workers = 0;
     workers_p = 0;
     workers_memory = 0;
diff --git a/src/lace14.c b/src/lace14.c
index 81323ed..243dfc4 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1163,6 +1163,10 @@ void lace_stop()
     free(workers_memory);
 #endif
 
+#if LACE_USE_HWLOC
+    hwloc_topology_destroy(topo);
+#endif
+
     workers = 0;
     workers_p = 0;
     workers_memory = 0;
-- 
2.43.0


From ebb891178a8668c132cec9dc6daa8fe9cbb006f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:19 +0000
Subject: [PATCH 15/18] fix: make the status queries on tasks compile in C++

---
 src/lace.h   | 6 +++---
 src/lace.sh  | 6 +++---
 src/lace14.h | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lace.h b/src/lace.h
index a94955a..8c81079 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -258,17 +258,17 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 /**
  * True if the given task is stolen, False otherwise.
  */
-#define TASK_IS_STOLEN(t) ((size_t)t->thief > 1)
+#define TASK_IS_STOLEN(t) ((size_t)(struct _Worker *)(t)->thief > 1)
 
 /**
  * True if the given task is completed, False otherwise.
  */
-#define TASK_IS_COMPLETED(t) ((size_t)t->thief == 2)
+#define TASK_IS_COMPLETED(t) ((size_t)(struct _Worker *)(t)->thief == 2)
 
 /**
  * Retrieves a pointer to the result of the given task.
  */
-#define TASK_RESULT(t) (&t->d[0])
+#define TASK_RESULT(t) (&(t)->d[0])
 
 /**
  * Compute a random number, thread-local (so scalable)
diff --git a/src/lace.sh b/src/lace.sh
index 95de5a1..e17bde4 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -265,17 +265,17 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 /**
  * True if the given task is stolen, False otherwise.
  */
-#define TASK_IS_STOLEN(t) ((size_t)t->thief > 1)
+#define TASK_IS_STOLEN(t) ((size_t)(struct _Worker *)(t)->thief > 1)
 
 /**
  * True if the given task is completed, False otherwise.
  */
-#define TASK_IS_COMPLETED(t) ((size_t)t->thief == 2)
+#define TASK_IS_COMPLETED(t) ((size_t)(struct _Worker *)(t)->thief == 2)
 
 /**
  * Retrieves a pointer to the result of the given task.
  */
-#define TASK_RESULT(t) (&t->d[0])
+#define TASK_RESULT(t) (&(t)->d[0])
 
 /**
  * Compute a random number, thread-local (so scalable)
diff --git a/src/lace14.h b/src/lace14.h
index 9945a88..d2274bc 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -258,17 +258,17 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 /**
  * True if the given task is stolen, False otherwise.
  */
-#define TASK_IS_STOLEN(t) ((size_t)t->thief > 1)
+#define TASK_IS_STOLEN(t) ((size_t)(struct _Worker *)(t)->thief > 1)
 
 /**
  * True if the given task is completed, False otherwise.
  */
-#define TASK_IS_COMPLETED(t) ((size_t)t->thief == 2)
+#define TASK_IS_COMPLETED(t) ((size_t)(struct _Worker *)(t)->thief == 2)
 
 /**
  * Retrieves a pointer to the result of the given task.
  */
-#define TASK_RESULT(t) (&t->d[0])
+#define TASK_RESULT(t) (&(t)->d[0])
 
 /**
  * Compute a random number, thread-local (so scalable)
-- 
2.43.0


From efae8255419922e927f4e51a29770be6df027722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:18 +0000
Subject: [PATCH 16/18] fix: total time in the PIE report counted successful
 steals and signalling twice

---
 src/lace.c   | 4 ++--
 src/lace14.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 08f24ed..6ec95a8 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1079,9 +1079,9 @@ lace_count_report_file(FILE *file)
     double dcpm = (double)(count_at_end - count_at_start) * 1000.0 / (double)(us > 0 ? us : 1);
 
     uint64_t sum_count;
+    // the time of successful steals and of signalling is already part of the time of stealing
     sum_count = ctr_all[CTR_init] + ctr_all[CTR_wapp] + ctr_all[CTR_lapp] + ctr_all[CTR_wsteal] + ctr_all[CTR_lsteal]
-              + ctr_all[CTR_close] + ctr_all[CTR_wstealsucc] + ctr_all[CTR_lstealsucc] + ctr_all[CTR_wsignal]
-              + ctr_all[CTR_lsignal];
+              + ctr_all[CTR_close];
 
     fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", dcpm / 1000000.0);
     fprintf(file, "Aggregated time per pie slice, total time: %.2f CPU seconds\n\n", sum_count / (1000*dcpm));
diff --git a/src/lace14.c b/src/lace14.c
index 243dfc4..f6ca25d 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1079,9 +1079,9 @@ lace_count_report_file(FILE *file)
     double dcpm = (double)(count_at_end - count_at_start) * 1000.0 / (double)(us > 0 ? us : 1);
 
     uint64_t sum_count;
+    // the time of successful steals and of signalling is already part of the time of stealing
     sum_count = ctr_all[CTR_init] + ctr_all[CTR_wapp] + ctr_all[CTR_lapp] + ctr_all[CTR_wsteal] + ctr_all[CTR_lsteal]
-              + ctr_all[CTR_close] + ctr_all[CTR_wstealsucc] + ctr_all[CTR_lstealsucc] + ctr_all[CTR_wsignal]
-              + ctr_all[CTR_lsignal];
+              + ctr_all[CTR_close];
 
     fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", dcpm / 1000000.0);
     fprintf(file, "Aggregated time per pie slice, total time: %.2f CPU seconds\n\n", sum_count / (1000*dcpm));
-- 
2.43.0


From 5a1e72d00d5fb7d726adbee1064b8a3ce404a4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:18 +0000
Subject: [PATCH 17/18] fix: PIE timing rejected the task of a new frame before
 the first steal

---
 src/lace.h   | 6 +++++-
 src/lace.sh  | 6 +++++-
 src/lace14.h | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lace.h b/src/lace.h
index 8c81079..9bd6974 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -526,7 +526,11 @@ static void lace_time_event( WorkerP *w, int event )
 
             // Enter sync on stolen
         case 3 :
-            if( w->level /* level */ == 1 ) {
+            if( w->level /* level */ == 0 ) {
+                // Task of a new frame that interrupted a worker before its first steal
+                PR_ADD( w, CTR_init, now - prev );
+                w->level = 1;
+            } else if( w->level /* level */ == 1 ) {
                 PR_ADD( w, CTR_wapp, now - prev );
             } else {
                 PR_ADD( w, CTR_lapp, now - prev );
diff --git a/src/lace.sh b/src/lace.sh
index e17bde4..5e25e32 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -533,7 +533,11 @@ static void lace_time_event( WorkerP *w, int event )
 
             // Enter sync on stolen
         case 3 :
-            if( w->level /* level */ == 1 ) {
+            if( w->level /* level */ == 0 ) {
+                // Task of a new frame that interrupted a worker before its first steal
+                PR_ADD( w, CTR_init, now - prev );
+                w->level = 1;
+            } else if( w->level /* level */ == 1 ) {
                 PR_ADD( w, CTR_wapp, now - prev );
             } else {
                 PR_ADD( w, CTR_lapp, now - prev );
diff --git a/src/lace14.h b/src/lace14.h
index d2274bc..2da93a8 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -526,7 +526,11 @@ static void lace_time_event( WorkerP *w, int event )
 
             // Enter sync on stolen
         case 3 :
-            if( w->level /* level */ == 1 ) {
+            if( w->level /* level */ == 0 ) {
+                // Task of a new frame that interrupted a worker before its first steal
+                PR_ADD( w, CTR_init, now - prev );
+                w->level = 1;
+            } else if( w->level /* level */ == 1 ) {
                 PR_ADD( w, CTR_wapp, now - prev );
             } else {
                 PR_ADD( w, CTR_lapp, now - prev );
-- 
2.43.0


From 2c68ec5c2ec5ca2db31888f398804408dbfda9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:18 +0000
Subject: [PATCH 18/18] fix: lace_barrier did not order what was written before
 it

---
 src/lace.c   | 6 +++---
 src/lace14.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 6ec95a8..f7f6e28 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -260,12 +260,12 @@ void
 lace_barrier()
 {
     int wait = lace_bar.wait;
-    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_relaxed))) {
+    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))) {
         // we know for sure no other thread can be here
         atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
         atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
-        // flip wait
-        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);
+        // flip wait (release: whoever sees it must also see everything before it)
+        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);
     } else {
         while (wait == lace_bar.wait) {} // wait
     }
diff --git a/src/lace14.c b/src/lace14.c
index f6ca25d..e3e06ee 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -260,12 +260,12 @@ void
 lace_barrier()
 {
     int wait = lace_bar.wait;
-    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_relaxed))) {
+    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))) {
         // we know for sure no other thread can be here
         atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
         atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
-        // flip wait
-        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);
+        // flip wait (release: whoever sees it must also see everything before it)
+        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);
     } else {
         while (wait == lace_bar.wait) {} // wait
     }
-- 
2.43.0

