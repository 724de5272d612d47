/* Generated by tools/gen_variants.py. Variant v: arity v/2, without a result if v is odd. */
static int v_ident;   /* identity of tasks without arguments (all copies of arity 0 are alike) */
#if MAX_ARITY >= 0
TASK_0(int, v_leaf_0) { int id = v_anon(); v_body(id, __lace_worker, __lace_dq_head); id = 0; return (int)((id) * 7 + 0); }
VOID_TASK_0(v_void_0) { v_body(v_anon(), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 1
static int v_id_1(char a1) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (char)((char)((id) + 1))) { MC_ASSERT(1, "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_1(double, v_leaf_1, char, a1) { int id = v_id_1(a1); v_body(id, __lace_worker, __lace_dq_head);  return (double)((id) * 0.125 + 1); }
VOID_TASK_1(v_void_1, char, a1) { v_body(v_id_1(a1), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 2
static int v_id_2(void* a1, uint64_t a2) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (void*)((void*)(size_t)((id) * 11 + 1))) { MC_ASSERT(a2 == (uint64_t)(((uint64_t)(id) << 40) + 2), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_2(uint64_t, v_leaf_2, void*, a1, uint64_t, a2) { int id = v_id_2(a1, a2); v_body(id, __lace_worker, __lace_dq_head);  return (uint64_t)(((uint64_t)(id) << 33) + 2); }
VOID_TASK_2(v_void_2, void*, a1, uint64_t, a2) { v_body(v_id_2(a1, a2), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 3
static int v_id_3(uint64_t a1, float a2, short a3) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (uint64_t)(((uint64_t)(id) << 40) + 1)) { MC_ASSERT(a2 == (float)((float)((id) + 2.25)) && a3 == (short)((short)(-(id) - 3)), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_3(void*, v_leaf_3, uint64_t, a1, float, a2, short, a3) { int id = v_id_3(a1, a2, a3); v_body(id, __lace_worker, __lace_dq_head);  return (void*)((void*)(size_t)((id) * 5 + 3)); }
VOID_TASK_3(v_void_3, uint64_t, a1, float, a2, short, a3) { v_body(v_id_3(a1, a2, a3), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 4
static int v_id_4(float a1, short a2, long a3, int a4) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (float)((float)((id) + 1.25))) { MC_ASSERT(a2 == (short)((short)(-(id) - 2)) && a3 == (long)(-(long)(id) * 100003L - 3) && a4 == (int)((id) * 3 + 4), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_4(char, v_leaf_4, float, a1, short, a2, long, a3, int, a4) { int id = v_id_4(a1, a2, a3, a4); v_body(id, __lace_worker, __lace_dq_head);  return (char)((char)((id) + 4)); }
VOID_TASK_4(v_void_4, float, a1, short, a2, long, a3, int, a4) { v_body(v_id_4(a1, a2, a3, a4), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 5
static int v_id_5(short a1, long a2, int a3, double a4, char a5) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (short)((short)(-(id) - 1))) { MC_ASSERT(a2 == (long)(-(long)(id) * 100003L - 2) && a3 == (int)((id) * 3 + 3) && a4 == (double)((id) * 0.5 + 4) && a5 == (char)((char)((id) + 5)), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_5(int, v_leaf_5, short, a1, long, a2, int, a3, double, a4, char, a5) { int id = v_id_5(a1, a2, a3, a4, a5); v_body(id, __lace_worker, __lace_dq_head);  return (int)((id) * 7 + 5); }
VOID_TASK_5(v_void_5, short, a1, long, a2, int, a3, double, a4, char, a5) { v_body(v_id_5(a1, a2, a3, a4, a5), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 6
static int v_id_6(long a1, int a2, double a3, char a4, void* a5, uint64_t a6) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (long)(-(long)(id) * 100003L - 1)) { MC_ASSERT(a2 == (int)((id) * 3 + 2) && a3 == (double)((id) * 0.5 + 3) && a4 == (char)((char)((id) + 4)) && a5 == (void*)((void*)(size_t)((id) * 11 + 5)) && a6 == (uint64_t)(((uint64_t)(id) << 40) + 6), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_6(double, v_leaf_6, long, a1, int, a2, double, a3, char, a4, void*, a5, uint64_t, a6) { int id = v_id_6(a1, a2, a3, a4, a5, a6); v_body(id, __lace_worker, __lace_dq_head);  return (double)((id) * 0.125 + 6); }
VOID_TASK_6(v_void_6, long, a1, int, a2, double, a3, char, a4, void*, a5, uint64_t, a6) { v_body(v_id_6(a1, a2, a3, a4, a5, a6), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 7
static int v_id_7(int a1, double a2, char a3, void* a4, uint64_t a5, float a6, short a7) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (int)((id) * 3 + 1)) { MC_ASSERT(a2 == (double)((id) * 0.5 + 2) && a3 == (char)((char)((id) + 3)) && a4 == (void*)((void*)(size_t)((id) * 11 + 4)) && a5 == (uint64_t)(((uint64_t)(id) << 40) + 5) && a6 == (float)((float)((id) + 6.25)) && a7 == (short)((short)(-(id) - 7)), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_7(uint64_t, v_leaf_7, int, a1, double, a2, char, a3, void*, a4, uint64_t, a5, float, a6, short, a7) { int id = v_id_7(a1, a2, a3, a4, a5, a6, a7); v_body(id, __lace_worker, __lace_dq_head);  return (uint64_t)(((uint64_t)(id) << 33) + 7); }
VOID_TASK_7(v_void_7, int, a1, double, a2, char, a3, void*, a4, uint64_t, a5, float, a6, short, a7) { v_body(v_id_7(a1, a2, a3, a4, a5, a6, a7), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 8
static int v_id_8(double a1, char a2, void* a3, uint64_t a4, float a5, short a6, long a7, int a8) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (double)((id) * 0.5 + 1)) { MC_ASSERT(a2 == (char)((char)((id) + 2)) && a3 == (void*)((void*)(size_t)((id) * 11 + 3)) && a4 == (uint64_t)(((uint64_t)(id) << 40) + 4) && a5 == (float)((float)((id) + 5.25)) && a6 == (short)((short)(-(id) - 6)) && a7 == (long)(-(long)(id) * 100003L - 7) && a8 == (int)((id) * 3 + 8), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_8(void*, v_leaf_8, double, a1, char, a2, void*, a3, uint64_t, a4, float, a5, short, a6, long, a7, int, a8) { int id = v_id_8(a1, a2, a3, a4, a5, a6, a7, a8); v_body(id, __lace_worker, __lace_dq_head);  return (void*)((void*)(size_t)((id) * 5 + 8)); }
VOID_TASK_8(v_void_8, double, a1, char, a2, void*, a3, uint64_t, a4, float, a5, short, a6, long, a7, int, a8) { v_body(v_id_8(a1, a2, a3, a4, a5, a6, a7, a8), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 9
static int v_id_9(char a1, void* a2, uint64_t a3, float a4, short a5, long a6, int a7, double a8, char a9) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (char)((char)((id) + 1))) { MC_ASSERT(a2 == (void*)((void*)(size_t)((id) * 11 + 2)) && a3 == (uint64_t)(((uint64_t)(id) << 40) + 3) && a4 == (float)((float)((id) + 4.25)) && a5 == (short)((short)(-(id) - 5)) && a6 == (long)(-(long)(id) * 100003L - 6) && a7 == (int)((id) * 3 + 7) && a8 == (double)((id) * 0.5 + 8) && a9 == (char)((char)((id) + 9)), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_9(char, v_leaf_9, char, a1, void*, a2, uint64_t, a3, float, a4, short, a5, long, a6, int, a7, double, a8, char, a9) { int id = v_id_9(a1, a2, a3, a4, a5, a6, a7, a8, a9); v_body(id, __lace_worker, __lace_dq_head);  return (char)((char)((id) + 9)); }
VOID_TASK_9(v_void_9, char, a1, void*, a2, uint64_t, a3, float, a4, short, a5, long, a6, int, a7, double, a8, char, a9) { v_body(v_id_9(a1, a2, a3, a4, a5, a6, a7, a8, a9), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 10
static int v_id_10(void* a1, uint64_t a2, float a3, short a4, long a5, int a6, double a7, char a8, void* a9, uint64_t a10) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (void*)((void*)(size_t)((id) * 11 + 1))) { MC_ASSERT(a2 == (uint64_t)(((uint64_t)(id) << 40) + 2) && a3 == (float)((float)((id) + 3.25)) && a4 == (short)((short)(-(id) - 4)) && a5 == (long)(-(long)(id) * 100003L - 5) && a6 == (int)((id) * 3 + 6) && a7 == (double)((id) * 0.5 + 7) && a8 == (char)((char)((id) + 8)) && a9 == (void*)((void*)(size_t)((id) * 11 + 9)) && a10 == (uint64_t)(((uint64_t)(id) << 40) + 10), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_10(int, v_leaf_10, void*, a1, uint64_t, a2, float, a3, short, a4, long, a5, int, a6, double, a7, char, a8, void*, a9, uint64_t, a10) { int id = v_id_10(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); v_body(id, __lace_worker, __lace_dq_head);  return (int)((id) * 7 + 10); }
VOID_TASK_10(v_void_10, void*, a1, uint64_t, a2, float, a3, short, a4, long, a5, int, a6, double, a7, char, a8, void*, a9, uint64_t, a10) { v_body(v_id_10(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 11
static int v_id_11(uint64_t a1, float a2, short a3, long a4, int a5, double a6, char a7, void* a8, uint64_t a9, float a10, short a11) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (uint64_t)(((uint64_t)(id) << 40) + 1)) { MC_ASSERT(a2 == (float)((float)((id) + 2.25)) && a3 == (short)((short)(-(id) - 3)) && a4 == (long)(-(long)(id) * 100003L - 4) && a5 == (int)((id) * 3 + 5) && a6 == (double)((id) * 0.5 + 6) && a7 == (char)((char)((id) + 7)) && a8 == (void*)((void*)(size_t)((id) * 11 + 8)) && a9 == (uint64_t)(((uint64_t)(id) << 40) + 9) && a10 == (float)((float)((id) + 10.25)) && a11 == (short)((short)(-(id) - 11)), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_11(double, v_leaf_11, uint64_t, a1, float, a2, short, a3, long, a4, int, a5, double, a6, char, a7, void*, a8, uint64_t, a9, float, a10, short, a11) { int id = v_id_11(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); v_body(id, __lace_worker, __lace_dq_head);  return (double)((id) * 0.125 + 11); }
VOID_TASK_11(v_void_11, uint64_t, a1, float, a2, short, a3, long, a4, int, a5, double, a6, char, a7, void*, a8, uint64_t, a9, float, a10, short, a11) { v_body(v_id_11(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 12
static int v_id_12(float a1, short a2, long a3, int a4, double a5, char a6, void* a7, uint64_t a8, float a9, short a10, long a11, int a12) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (float)((float)((id) + 1.25))) { MC_ASSERT(a2 == (short)((short)(-(id) - 2)) && a3 == (long)(-(long)(id) * 100003L - 3) && a4 == (int)((id) * 3 + 4) && a5 == (double)((id) * 0.5 + 5) && a6 == (char)((char)((id) + 6)) && a7 == (void*)((void*)(size_t)((id) * 11 + 7)) && a8 == (uint64_t)(((uint64_t)(id) << 40) + 8) && a9 == (float)((float)((id) + 9.25)) && a10 == (short)((short)(-(id) - 10)) && a11 == (long)(-(long)(id) * 100003L - 11) && a12 == (int)((id) * 3 + 12), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_12(uint64_t, v_leaf_12, float, a1, short, a2, long, a3, int, a4, double, a5, char, a6, void*, a7, uint64_t, a8, float, a9, short, a10, long, a11, int, a12) { int id = v_id_12(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12); v_body(id, __lace_worker, __lace_dq_head);  return (uint64_t)(((uint64_t)(id) << 33) + 12); }
VOID_TASK_12(v_void_12, float, a1, short, a2, long, a3, int, a4, double, a5, char, a6, void*, a7, uint64_t, a8, float, a9, short, a10, long, a11, int, a12) { v_body(v_id_12(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 13
static int v_id_13(short a1, long a2, int a3, double a4, char a5, void* a6, uint64_t a7, float a8, short a9, long a10, int a11, double a12, char a13) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (short)((short)(-(id) - 1))) { MC_ASSERT(a2 == (long)(-(long)(id) * 100003L - 2) && a3 == (int)((id) * 3 + 3) && a4 == (double)((id) * 0.5 + 4) && a5 == (char)((char)((id) + 5)) && a6 == (void*)((void*)(size_t)((id) * 11 + 6)) && a7 == (uint64_t)(((uint64_t)(id) << 40) + 7) && a8 == (float)((float)((id) + 8.25)) && a9 == (short)((short)(-(id) - 9)) && a10 == (long)(-(long)(id) * 100003L - 10) && a11 == (int)((id) * 3 + 11) && a12 == (double)((id) * 0.5 + 12) && a13 == (char)((char)((id) + 13)), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_13(void*, v_leaf_13, short, a1, long, a2, int, a3, double, a4, char, a5, void*, a6, uint64_t, a7, float, a8, short, a9, long, a10, int, a11, double, a12, char, a13) { int id = v_id_13(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13); v_body(id, __lace_worker, __lace_dq_head);  return (void*)((void*)(size_t)((id) * 5 + 13)); }
VOID_TASK_13(v_void_13, short, a1, long, a2, int, a3, double, a4, char, a5, void*, a6, uint64_t, a7, float, a8, short, a9, long, a10, int, a11, double, a12, char, a13) { v_body(v_id_13(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 14
static int v_id_14(long a1, int a2, double a3, char a4, void* a5, uint64_t a6, float a7, short a8, long a9, int a10, double a11, char a12, void* a13, uint64_t a14) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (long)(-(long)(id) * 100003L - 1)) { MC_ASSERT(a2 == (int)((id) * 3 + 2) && a3 == (double)((id) * 0.5 + 3) && a4 == (char)((char)((id) + 4)) && a5 == (void*)((void*)(size_t)((id) * 11 + 5)) && a6 == (uint64_t)(((uint64_t)(id) << 40) + 6) && a7 == (float)((float)((id) + 7.25)) && a8 == (short)((short)(-(id) - 8)) && a9 == (long)(-(long)(id) * 100003L - 9) && a10 == (int)((id) * 3 + 10) && a11 == (double)((id) * 0.5 + 11) && a12 == (char)((char)((id) + 12)) && a13 == (void*)((void*)(size_t)((id) * 11 + 13)) && a14 == (uint64_t)(((uint64_t)(id) << 40) + 14), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_14(char, v_leaf_14, long, a1, int, a2, double, a3, char, a4, void*, a5, uint64_t, a6, float, a7, short, a8, long, a9, int, a10, double, a11, char, a12, void*, a13, uint64_t, a14) { int id = v_id_14(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14); v_body(id, __lace_worker, __lace_dq_head);  return (char)((char)((id) + 14)); }
VOID_TASK_14(v_void_14, long, a1, int, a2, double, a3, char, a4, void*, a5, uint64_t, a6, float, a7, short, a8, long, a9, int, a10, double, a11, char, a12, void*, a13, uint64_t, a14) { v_body(v_id_14(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 15
static int v_id_15(int a1, double a2, char a3, void* a4, uint64_t a5, float a6, short a7, long a8, int a9, double a10, char a11, void* a12, uint64_t a13, float a14, short a15) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (int)((id) * 3 + 1)) { MC_ASSERT(a2 == (double)((id) * 0.5 + 2) && a3 == (char)((char)((id) + 3)) && a4 == (void*)((void*)(size_t)((id) * 11 + 4)) && a5 == (uint64_t)(((uint64_t)(id) << 40) + 5) && a6 == (float)((float)((id) + 6.25)) && a7 == (short)((short)(-(id) - 7)) && a8 == (long)(-(long)(id) * 100003L - 8) && a9 == (int)((id) * 3 + 9) && a10 == (double)((id) * 0.5 + 10) && a11 == (char)((char)((id) + 11)) && a12 == (void*)((void*)(size_t)((id) * 11 + 12)) && a13 == (uint64_t)(((uint64_t)(id) << 40) + 13) && a14 == (float)((float)((id) + 14.25)) && a15 == (short)((short)(-(id) - 15)), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_15(int, v_leaf_15, int, a1, double, a2, char, a3, void*, a4, uint64_t, a5, float, a6, short, a7, long, a8, int, a9, double, a10, char, a11, void*, a12, uint64_t, a13, float, a14, short, a15) { int id = v_id_15(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); v_body(id, __lace_worker, __lace_dq_head);  return (int)((id) * 7 + 15); }
VOID_TASK_15(v_void_15, int, a1, double, a2, char, a3, void*, a4, uint64_t, a5, float, a6, short, a7, long, a8, int, a9, double, a10, char, a11, void*, a12, uint64_t, a13, float, a14, short, a15) { v_body(v_id_15(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 16
static int v_id_16(double a1, char a2, void* a3, uint64_t a4, float a5, short a6, long a7, int a8, double a9, char a10, void* a11, uint64_t a12, float a13, short a14, long a15, int a16) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (double)((id) * 0.5 + 1)) { MC_ASSERT(a2 == (char)((char)((id) + 2)) && a3 == (void*)((void*)(size_t)((id) * 11 + 3)) && a4 == (uint64_t)(((uint64_t)(id) << 40) + 4) && a5 == (float)((float)((id) + 5.25)) && a6 == (short)((short)(-(id) - 6)) && a7 == (long)(-(long)(id) * 100003L - 7) && a8 == (int)((id) * 3 + 8) && a9 == (double)((id) * 0.5 + 9) && a10 == (char)((char)((id) + 10)) && a11 == (void*)((void*)(size_t)((id) * 11 + 11)) && a12 == (uint64_t)(((uint64_t)(id) << 40) + 12) && a13 == (float)((float)((id) + 13.25)) && a14 == (short)((short)(-(id) - 14)) && a15 == (long)(-(long)(id) * 100003L - 15) && a16 == (int)((id) * 3 + 16), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_16(double, v_leaf_16, double, a1, char, a2, void*, a3, uint64_t, a4, float, a5, short, a6, long, a7, int, a8, double, a9, char, a10, void*, a11, uint64_t, a12, float, a13, short, a14, long, a15, int, a16) { int id = v_id_16(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16); v_body(id, __lace_worker, __lace_dq_head);  return (double)((id) * 0.125 + 16); }
VOID_TASK_16(v_void_16, double, a1, char, a2, void*, a3, uint64_t, a4, float, a5, short, a6, long, a7, int, a8, double, a9, char, a10, void*, a11, uint64_t, a12, float, a13, short, a14, long, a15, int, a16) { v_body(v_id_16(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 17
static int v_id_17(char a1, void* a2, uint64_t a3, float a4, short a5, long a6, int a7, double a8, char a9, void* a10, uint64_t a11, float a12, short a13, long a14, int a15, double a16, char a17) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (char)((char)((id) + 1))) { MC_ASSERT(a2 == (void*)((void*)(size_t)((id) * 11 + 2)) && a3 == (uint64_t)(((uint64_t)(id) << 40) + 3) && a4 == (float)((float)((id) + 4.25)) && a5 == (short)((short)(-(id) - 5)) && a6 == (long)(-(long)(id) * 100003L - 6) && a7 == (int)((id) * 3 + 7) && a8 == (double)((id) * 0.5 + 8) && a9 == (char)((char)((id) + 9)) && a10 == (void*)((void*)(size_t)((id) * 11 + 10)) && a11 == (uint64_t)(((uint64_t)(id) << 40) + 11) && a12 == (float)((float)((id) + 12.25)) && a13 == (short)((short)(-(id) - 13)) && a14 == (long)(-(long)(id) * 100003L - 14) && a15 == (int)((id) * 3 + 15) && a16 == (double)((id) * 0.5 + 16) && a17 == (char)((char)((id) + 17)), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_17(uint64_t, v_leaf_17, char, a1, void*, a2, uint64_t, a3, float, a4, short, a5, long, a6, int, a7, double, a8, char, a9, void*, a10, uint64_t, a11, float, a12, short, a13, long, a14, int, a15, double, a16, char, a17) { int id = v_id_17(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17); v_body(id, __lace_worker, __lace_dq_head);  return (uint64_t)(((uint64_t)(id) << 33) + 17); }
VOID_TASK_17(v_void_17, char, a1, void*, a2, uint64_t, a3, float, a4, short, a5, long, a6, int, a7, double, a8, char, a9, void*, a10, uint64_t, a11, float, a12, short, a13, long, a14, int, a15, double, a16, char, a17) { v_body(v_id_17(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 18
static int v_id_18(void* a1, uint64_t a2, float a3, short a4, long a5, int a6, double a7, char a8, void* a9, uint64_t a10, float a11, short a12, long a13, int a14, double a15, char a16, void* a17, uint64_t a18) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (void*)((void*)(size_t)((id) * 11 + 1))) { MC_ASSERT(a2 == (uint64_t)(((uint64_t)(id) << 40) + 2) && a3 == (float)((float)((id) + 3.25)) && a4 == (short)((short)(-(id) - 4)) && a5 == (long)(-(long)(id) * 100003L - 5) && a6 == (int)((id) * 3 + 6) && a7 == (double)((id) * 0.5 + 7) && a8 == (char)((char)((id) + 8)) && a9 == (void*)((void*)(size_t)((id) * 11 + 9)) && a10 == (uint64_t)(((uint64_t)(id) << 40) + 10) && a11 == (float)((float)((id) + 11.25)) && a12 == (short)((short)(-(id) - 12)) && a13 == (long)(-(long)(id) * 100003L - 13) && a14 == (int)((id) * 3 + 14) && a15 == (double)((id) * 0.5 + 15) && a16 == (char)((char)((id) + 16)) && a17 == (void*)((void*)(size_t)((id) * 11 + 17)) && a18 == (uint64_t)(((uint64_t)(id) << 40) + 18), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_18(void*, v_leaf_18, void*, a1, uint64_t, a2, float, a3, short, a4, long, a5, int, a6, double, a7, char, a8, void*, a9, uint64_t, a10, float, a11, short, a12, long, a13, int, a14, double, a15, char, a16, void*, a17, uint64_t, a18) { int id = v_id_18(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18); v_body(id, __lace_worker, __lace_dq_head);  return (void*)((void*)(size_t)((id) * 5 + 18)); }
VOID_TASK_18(v_void_18, void*, a1, uint64_t, a2, float, a3, short, a4, long, a5, int, a6, double, a7, char, a8, void*, a9, uint64_t, a10, float, a11, short, a12, long, a13, int, a14, double, a15, char, a16, void*, a17, uint64_t, a18) { v_body(v_id_18(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 19
static int v_id_19(uint64_t a1, float a2, short a3, long a4, int a5, double a6, char a7, void* a8, uint64_t a9, float a10, short a11, long a12, int a13, double a14, char a15, void* a16, uint64_t a17, float a18, short a19) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (uint64_t)(((uint64_t)(id) << 40) + 1)) { MC_ASSERT(a2 == (float)((float)((id) + 2.25)) && a3 == (short)((short)(-(id) - 3)) && a4 == (long)(-(long)(id) * 100003L - 4) && a5 == (int)((id) * 3 + 5) && a6 == (double)((id) * 0.5 + 6) && a7 == (char)((char)((id) + 7)) && a8 == (void*)((void*)(size_t)((id) * 11 + 8)) && a9 == (uint64_t)(((uint64_t)(id) << 40) + 9) && a10 == (float)((float)((id) + 10.25)) && a11 == (short)((short)(-(id) - 11)) && a12 == (long)(-(long)(id) * 100003L - 12) && a13 == (int)((id) * 3 + 13) && a14 == (double)((id) * 0.5 + 14) && a15 == (char)((char)((id) + 15)) && a16 == (void*)((void*)(size_t)((id) * 11 + 16)) && a17 == (uint64_t)(((uint64_t)(id) << 40) + 17) && a18 == (float)((float)((id) + 18.25)) && a19 == (short)((short)(-(id) - 19)), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_19(char, v_leaf_19, uint64_t, a1, float, a2, short, a3, long, a4, int, a5, double, a6, char, a7, void*, a8, uint64_t, a9, float, a10, short, a11, long, a12, int, a13, double, a14, char, a15, void*, a16, uint64_t, a17, float, a18, short, a19) { int id = v_id_19(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19); v_body(id, __lace_worker, __lace_dq_head);  return (char)((char)((id) + 19)); }
VOID_TASK_19(v_void_19, uint64_t, a1, float, a2, short, a3, long, a4, int, a5, double, a6, char, a7, void*, a8, uint64_t, a9, float, a10, short, a11, long, a12, int, a13, double, a14, char, a15, void*, a16, uint64_t, a17, float, a18, short, a19) { v_body(v_id_19(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 20
static int v_id_20(float a1, short a2, long a3, int a4, double a5, char a6, void* a7, uint64_t a8, float a9, short a10, long a11, int a12, double a13, char a14, void* a15, uint64_t a16, float a17, short a18, long a19, int a20) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (float)((float)((id) + 1.25))) { MC_ASSERT(a2 == (short)((short)(-(id) - 2)) && a3 == (long)(-(long)(id) * 100003L - 3) && a4 == (int)((id) * 3 + 4) && a5 == (double)((id) * 0.5 + 5) && a6 == (char)((char)((id) + 6)) && a7 == (void*)((void*)(size_t)((id) * 11 + 7)) && a8 == (uint64_t)(((uint64_t)(id) << 40) + 8) && a9 == (float)((float)((id) + 9.25)) && a10 == (short)((short)(-(id) - 10)) && a11 == (long)(-(long)(id) * 100003L - 11) && a12 == (int)((id) * 3 + 12) && a13 == (double)((id) * 0.5 + 13) && a14 == (char)((char)((id) + 14)) && a15 == (void*)((void*)(size_t)((id) * 11 + 15)) && a16 == (uint64_t)(((uint64_t)(id) << 40) + 16) && a17 == (float)((float)((id) + 17.25)) && a18 == (short)((short)(-(id) - 18)) && a19 == (long)(-(long)(id) * 100003L - 19) && a20 == (int)((id) * 3 + 20), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_20(int, v_leaf_20, float, a1, short, a2, long, a3, int, a4, double, a5, char, a6, void*, a7, uint64_t, a8, float, a9, short, a10, long, a11, int, a12, double, a13, char, a14, void*, a15, uint64_t, a16, float, a17, short, a18, long, a19, int, a20) { int id = v_id_20(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20); v_body(id, __lace_worker, __lace_dq_head);  return (int)((id) * 7 + 20); }
VOID_TASK_20(v_void_20, float, a1, short, a2, long, a3, int, a4, double, a5, char, a6, void*, a7, uint64_t, a8, float, a9, short, a10, long, a11, int, a12, double, a13, char, a14, void*, a15, uint64_t, a16, float, a17, short, a18, long, a19, int, a20) { v_body(v_id_20(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 21
static int v_id_21(short a1, long a2, int a3, double a4, char a5, void* a6, uint64_t a7, float a8, short a9, long a10, int a11, double a12, char a13, void* a14, uint64_t a15, float a16, short a17, long a18, int a19, double a20, char a21) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (short)((short)(-(id) - 1))) { MC_ASSERT(a2 == (long)(-(long)(id) * 100003L - 2) && a3 == (int)((id) * 3 + 3) && a4 == (double)((id) * 0.5 + 4) && a5 == (char)((char)((id) + 5)) && a6 == (void*)((void*)(size_t)((id) * 11 + 6)) && a7 == (uint64_t)(((uint64_t)(id) << 40) + 7) && a8 == (float)((float)((id) + 8.25)) && a9 == (short)((short)(-(id) - 9)) && a10 == (long)(-(long)(id) * 100003L - 10) && a11 == (int)((id) * 3 + 11) && a12 == (double)((id) * 0.5 + 12) && a13 == (char)((char)((id) + 13)) && a14 == (void*)((void*)(size_t)((id) * 11 + 14)) && a15 == (uint64_t)(((uint64_t)(id) << 40) + 15) && a16 == (float)((float)((id) + 16.25)) && a17 == (short)((short)(-(id) - 17)) && a18 == (long)(-(long)(id) * 100003L - 18) && a19 == (int)((id) * 3 + 19) && a20 == (double)((id) * 0.5 + 20) && a21 == (char)((char)((id) + 21)), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_21(double, v_leaf_21, short, a1, long, a2, int, a3, double, a4, char, a5, void*, a6, uint64_t, a7, float, a8, short, a9, long, a10, int, a11, double, a12, char, a13, void*, a14, uint64_t, a15, float, a16, short, a17, long, a18, int, a19, double, a20, char, a21) { int id = v_id_21(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21); v_body(id, __lace_worker, __lace_dq_head);  return (double)((id) * 0.125 + 21); }
VOID_TASK_21(v_void_21, short, a1, long, a2, int, a3, double, a4, char, a5, void*, a6, uint64_t, a7, float, a8, short, a9, long, a10, int, a11, double, a12, char, a13, void*, a14, uint64_t, a15, float, a16, short, a17, long, a18, int, a19, double, a20, char, a21) { v_body(v_id_21(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21), __lace_worker, __lace_dq_head); }
#endif
#if MAX_ARITY >= 22
static int v_id_22(long a1, int a2, double a3, char a4, void* a5, uint64_t a6, float a7, short a8, long a9, int a10, double a11, char a12, void* a13, uint64_t a14, float a15, short a16, long a17, int a18, double a19, char a20, void* a21, uint64_t a22) {
    for (int id = 0; id < V_MAXID; id++) if (a1 == (long)(-(long)(id) * 100003L - 1)) { MC_ASSERT(a2 == (int)((id) * 3 + 2) && a3 == (double)((id) * 0.5 + 3) && a4 == (char)((char)((id) + 4)) && a5 == (void*)((void*)(size_t)((id) * 11 + 5)) && a6 == (uint64_t)(((uint64_t)(id) << 40) + 6) && a7 == (float)((float)((id) + 7.25)) && a8 == (short)((short)(-(id) - 8)) && a9 == (long)(-(long)(id) * 100003L - 9) && a10 == (int)((id) * 3 + 10) && a11 == (double)((id) * 0.5 + 11) && a12 == (char)((char)((id) + 12)) && a13 == (void*)((void*)(size_t)((id) * 11 + 13)) && a14 == (uint64_t)(((uint64_t)(id) << 40) + 14) && a15 == (float)((float)((id) + 15.25)) && a16 == (short)((short)(-(id) - 16)) && a17 == (long)(-(long)(id) * 100003L - 17) && a18 == (int)((id) * 3 + 18) && a19 == (double)((id) * 0.5 + 19) && a20 == (char)((char)((id) + 20)) && a21 == (void*)((void*)(size_t)((id) * 11 + 21)) && a22 == (uint64_t)(((uint64_t)(id) << 40) + 22), "a task is executed with wrong arguments"); return id; }
    MC_ASSERT(0, "a task is executed with wrong arguments"); return 0; }
TASK_22(uint64_t, v_leaf_22, long, a1, int, a2, double, a3, char, a4, void*, a5, uint64_t, a6, float, a7, short, a8, long, a9, int, a10, double, a11, char, a12, void*, a13, uint64_t, a14, float, a15, short, a16, long, a17, int, a18, double, a19, char, a20, void*, a21, uint64_t, a22) { int id = v_id_22(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22); v_body(id, __lace_worker, __lace_dq_head);  return (uint64_t)(((uint64_t)(id) << 33) + 22); }
VOID_TASK_22(v_void_22, long, a1, int, a2, double, a3, char, a4, void*, a5, uint64_t, a6, float, a7, short, a8, long, a9, int, a10, double, a11, char, a12, void*, a13, uint64_t, a14, float, a15, short, a16, long, a17, int, a18, double, a19, char, a20, void*, a21, uint64_t, a22) { v_body(v_id_22(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22), __lace_worker, __lace_dq_head); }
#endif
#define V_COUNT (2 * (MAX_ARITY + 1))
static void v_spawn(WorkerP *__lace_worker, Task *__lace_dq_head, int v, int id)
{
    switch (v) {
#if MAX_ARITY >= 0
    case 0: SPAWN(v_leaf_0); break;
    case 1: SPAWN(v_void_0); break;
#endif
#if MAX_ARITY >= 1
    case 2: SPAWN(v_leaf_1, (char)((char)((id) + 1))); break;
    case 3: SPAWN(v_void_1, (char)((char)((id) + 1))); break;
#endif
#if MAX_ARITY >= 2
    case 4: SPAWN(v_leaf_2, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2)); break;
    case 5: SPAWN(v_void_2, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2)); break;
#endif
#if MAX_ARITY >= 3
    case 6: SPAWN(v_leaf_3, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3))); break;
    case 7: SPAWN(v_void_3, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3))); break;
#endif
#if MAX_ARITY >= 4
    case 8: SPAWN(v_leaf_4, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4)); break;
    case 9: SPAWN(v_void_4, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4)); break;
#endif
#if MAX_ARITY >= 5
    case 10: SPAWN(v_leaf_5, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5))); break;
    case 11: SPAWN(v_void_5, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5))); break;
#endif
#if MAX_ARITY >= 6
    case 12: SPAWN(v_leaf_6, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6)); break;
    case 13: SPAWN(v_void_6, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6)); break;
#endif
#if MAX_ARITY >= 7
    case 14: SPAWN(v_leaf_7, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7))); break;
    case 15: SPAWN(v_void_7, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7))); break;
#endif
#if MAX_ARITY >= 8
    case 16: SPAWN(v_leaf_8, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8)); break;
    case 17: SPAWN(v_void_8, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8)); break;
#endif
#if MAX_ARITY >= 9
    case 18: SPAWN(v_leaf_9, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9))); break;
    case 19: SPAWN(v_void_9, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9))); break;
#endif
#if MAX_ARITY >= 10
    case 20: SPAWN(v_leaf_10, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10)); break;
    case 21: SPAWN(v_void_10, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10)); break;
#endif
#if MAX_ARITY >= 11
    case 22: SPAWN(v_leaf_11, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11))); break;
    case 23: SPAWN(v_void_11, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11))); break;
#endif
#if MAX_ARITY >= 12
    case 24: SPAWN(v_leaf_12, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12)); break;
    case 25: SPAWN(v_void_12, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12)); break;
#endif
#if MAX_ARITY >= 13
    case 26: SPAWN(v_leaf_13, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13))); break;
    case 27: SPAWN(v_void_13, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13))); break;
#endif
#if MAX_ARITY >= 14
    case 28: SPAWN(v_leaf_14, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14)); break;
    case 29: SPAWN(v_void_14, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14)); break;
#endif
#if MAX_ARITY >= 15
    case 30: SPAWN(v_leaf_15, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7)), (long)(-(long)(id) * 100003L - 8), (int)((id) * 3 + 9), (double)((id) * 0.5 + 10), (char)((char)((id) + 11)), (void*)((void*)(size_t)((id) * 11 + 12)), (uint64_t)(((uint64_t)(id) << 40) + 13), (float)((float)((id) + 14.25)), (short)((short)(-(id) - 15))); break;
    case 31: SPAWN(v_void_15, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7)), (long)(-(long)(id) * 100003L - 8), (int)((id) * 3 + 9), (double)((id) * 0.5 + 10), (char)((char)((id) + 11)), (void*)((void*)(size_t)((id) * 11 + 12)), (uint64_t)(((uint64_t)(id) << 40) + 13), (float)((float)((id) + 14.25)), (short)((short)(-(id) - 15))); break;
#endif
#if MAX_ARITY >= 16
    case 32: SPAWN(v_leaf_16, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8), (double)((id) * 0.5 + 9), (char)((char)((id) + 10)), (void*)((void*)(size_t)((id) * 11 + 11)), (uint64_t)(((uint64_t)(id) << 40) + 12), (float)((float)((id) + 13.25)), (short)((short)(-(id) - 14)), (long)(-(long)(id) * 100003L - 15), (int)((id) * 3 + 16)); break;
    case 33: SPAWN(v_void_16, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8), (double)((id) * 0.5 + 9), (char)((char)((id) + 10)), (void*)((void*)(size_t)((id) * 11 + 11)), (uint64_t)(((uint64_t)(id) << 40) + 12), (float)((float)((id) + 13.25)), (short)((short)(-(id) - 14)), (long)(-(long)(id) * 100003L - 15), (int)((id) * 3 + 16)); break;
#endif
#if MAX_ARITY >= 17
    case 34: SPAWN(v_leaf_17, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9)), (void*)((void*)(size_t)((id) * 11 + 10)), (uint64_t)(((uint64_t)(id) << 40) + 11), (float)((float)((id) + 12.25)), (short)((short)(-(id) - 13)), (long)(-(long)(id) * 100003L - 14), (int)((id) * 3 + 15), (double)((id) * 0.5 + 16), (char)((char)((id) + 17))); break;
    case 35: SPAWN(v_void_17, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9)), (void*)((void*)(size_t)((id) * 11 + 10)), (uint64_t)(((uint64_t)(id) << 40) + 11), (float)((float)((id) + 12.25)), (short)((short)(-(id) - 13)), (long)(-(long)(id) * 100003L - 14), (int)((id) * 3 + 15), (double)((id) * 0.5 + 16), (char)((char)((id) + 17))); break;
#endif
#if MAX_ARITY >= 18
    case 36: SPAWN(v_leaf_18, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10), (float)((float)((id) + 11.25)), (short)((short)(-(id) - 12)), (long)(-(long)(id) * 100003L - 13), (int)((id) * 3 + 14), (double)((id) * 0.5 + 15), (char)((char)((id) + 16)), (void*)((void*)(size_t)((id) * 11 + 17)), (uint64_t)(((uint64_t)(id) << 40) + 18)); break;
    case 37: SPAWN(v_void_18, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10), (float)((float)((id) + 11.25)), (short)((short)(-(id) - 12)), (long)(-(long)(id) * 100003L - 13), (int)((id) * 3 + 14), (double)((id) * 0.5 + 15), (char)((char)((id) + 16)), (void*)((void*)(size_t)((id) * 11 + 17)), (uint64_t)(((uint64_t)(id) << 40) + 18)); break;
#endif
#if MAX_ARITY >= 19
    case 38: SPAWN(v_leaf_19, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11)), (long)(-(long)(id) * 100003L - 12), (int)((id) * 3 + 13), (double)((id) * 0.5 + 14), (char)((char)((id) + 15)), (void*)((void*)(size_t)((id) * 11 + 16)), (uint64_t)(((uint64_t)(id) << 40) + 17), (float)((float)((id) + 18.25)), (short)((short)(-(id) - 19))); break;
    case 39: SPAWN(v_void_19, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11)), (long)(-(long)(id) * 100003L - 12), (int)((id) * 3 + 13), (double)((id) * 0.5 + 14), (char)((char)((id) + 15)), (void*)((void*)(size_t)((id) * 11 + 16)), (uint64_t)(((uint64_t)(id) << 40) + 17), (float)((float)((id) + 18.25)), (short)((short)(-(id) - 19))); break;
#endif
#if MAX_ARITY >= 20
    case 40: SPAWN(v_leaf_20, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12), (double)((id) * 0.5 + 13), (char)((char)((id) + 14)), (void*)((void*)(size_t)((id) * 11 + 15)), (uint64_t)(((uint64_t)(id) << 40) + 16), (float)((float)((id) + 17.25)), (short)((short)(-(id) - 18)), (long)(-(long)(id) * 100003L - 19), (int)((id) * 3 + 20)); break;
    case 41: SPAWN(v_void_20, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12), (double)((id) * 0.5 + 13), (char)((char)((id) + 14)), (void*)((void*)(size_t)((id) * 11 + 15)), (uint64_t)(((uint64_t)(id) << 40) + 16), (float)((float)((id) + 17.25)), (short)((short)(-(id) - 18)), (long)(-(long)(id) * 100003L - 19), (int)((id) * 3 + 20)); break;
#endif
#if MAX_ARITY >= 21
    case 42: SPAWN(v_leaf_21, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13)), (void*)((void*)(size_t)((id) * 11 + 14)), (uint64_t)(((uint64_t)(id) << 40) + 15), (float)((float)((id) + 16.25)), (short)((short)(-(id) - 17)), (long)(-(long)(id) * 100003L - 18), (int)((id) * 3 + 19), (double)((id) * 0.5 + 20), (char)((char)((id) + 21))); break;
    case 43: SPAWN(v_void_21, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13)), (void*)((void*)(size_t)((id) * 11 + 14)), (uint64_t)(((uint64_t)(id) << 40) + 15), (float)((float)((id) + 16.25)), (short)((short)(-(id) - 17)), (long)(-(long)(id) * 100003L - 18), (int)((id) * 3 + 19), (double)((id) * 0.5 + 20), (char)((char)((id) + 21))); break;
#endif
#if MAX_ARITY >= 22
    case 44: SPAWN(v_leaf_22, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14), (float)((float)((id) + 15.25)), (short)((short)(-(id) - 16)), (long)(-(long)(id) * 100003L - 17), (int)((id) * 3 + 18), (double)((id) * 0.5 + 19), (char)((char)((id) + 20)), (void*)((void*)(size_t)((id) * 11 + 21)), (uint64_t)(((uint64_t)(id) << 40) + 22)); break;
    case 45: SPAWN(v_void_22, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14), (float)((float)((id) + 15.25)), (short)((short)(-(id) - 16)), (long)(-(long)(id) * 100003L - 17), (int)((id) * 3 + 18), (double)((id) * 0.5 + 19), (char)((char)((id) + 20)), (void*)((void*)(size_t)((id) * 11 + 21)), (uint64_t)(((uint64_t)(id) << 40) + 22)); break;
#endif
    }
    (void)id; (void)__lace_worker; (void)__lace_dq_head;
}
static void v_call(WorkerP *__lace_worker, Task *__lace_dq_head, int v, int id)
{
    switch (v) {
#if MAX_ARITY >= 0
    case 0: { int r = CALL(v_leaf_0); MC_ASSERT(r == (int)((0) * 7 + 0), "a task delivered the wrong result"); } break;
    case 1: CALL(v_void_0); break;
#endif
#if MAX_ARITY >= 1
    case 2: { double r = CALL(v_leaf_1, (char)((char)((id) + 1))); MC_ASSERT(r == (double)((id) * 0.125 + 1), "a task delivered the wrong result"); } break;
    case 3: CALL(v_void_1, (char)((char)((id) + 1))); break;
#endif
#if MAX_ARITY >= 2
    case 4: { uint64_t r = CALL(v_leaf_2, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 2), "a task delivered the wrong result"); } break;
    case 5: CALL(v_void_2, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2)); break;
#endif
#if MAX_ARITY >= 3
    case 6: { void* r = CALL(v_leaf_3, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3))); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 3)), "a task delivered the wrong result"); } break;
    case 7: CALL(v_void_3, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3))); break;
#endif
#if MAX_ARITY >= 4
    case 8: { char r = CALL(v_leaf_4, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4)); MC_ASSERT(r == (char)((char)((id) + 4)), "a task delivered the wrong result"); } break;
    case 9: CALL(v_void_4, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4)); break;
#endif
#if MAX_ARITY >= 5
    case 10: { int r = CALL(v_leaf_5, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5))); MC_ASSERT(r == (int)((id) * 7 + 5), "a task delivered the wrong result"); } break;
    case 11: CALL(v_void_5, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5))); break;
#endif
#if MAX_ARITY >= 6
    case 12: { double r = CALL(v_leaf_6, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6)); MC_ASSERT(r == (double)((id) * 0.125 + 6), "a task delivered the wrong result"); } break;
    case 13: CALL(v_void_6, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6)); break;
#endif
#if MAX_ARITY >= 7
    case 14: { uint64_t r = CALL(v_leaf_7, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7))); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 7), "a task delivered the wrong result"); } break;
    case 15: CALL(v_void_7, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7))); break;
#endif
#if MAX_ARITY >= 8
    case 16: { void* r = CALL(v_leaf_8, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8)); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 8)), "a task delivered the wrong result"); } break;
    case 17: CALL(v_void_8, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8)); break;
#endif
#if MAX_ARITY >= 9
    case 18: { char r = CALL(v_leaf_9, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9))); MC_ASSERT(r == (char)((char)((id) + 9)), "a task delivered the wrong result"); } break;
    case 19: CALL(v_void_9, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9))); break;
#endif
#if MAX_ARITY >= 10
    case 20: { int r = CALL(v_leaf_10, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10)); MC_ASSERT(r == (int)((id) * 7 + 10), "a task delivered the wrong result"); } break;
    case 21: CALL(v_void_10, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10)); break;
#endif
#if MAX_ARITY >= 11
    case 22: { double r = CALL(v_leaf_11, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11))); MC_ASSERT(r == (double)((id) * 0.125 + 11), "a task delivered the wrong result"); } break;
    case 23: CALL(v_void_11, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11))); break;
#endif
#if MAX_ARITY >= 12
    case 24: { uint64_t r = CALL(v_leaf_12, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 12), "a task delivered the wrong result"); } break;
    case 25: CALL(v_void_12, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12)); break;
#endif
#if MAX_ARITY >= 13
    case 26: { void* r = CALL(v_leaf_13, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13))); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 13)), "a task delivered the wrong result"); } break;
    case 27: CALL(v_void_13, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13))); break;
#endif
#if MAX_ARITY >= 14
    case 28: { char r = CALL(v_leaf_14, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14)); MC_ASSERT(r == (char)((char)((id) + 14)), "a task delivered the wrong result"); } break;
    case 29: CALL(v_void_14, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14)); break;
#endif
#if MAX_ARITY >= 15
    case 30: { int r = CALL(v_leaf_15, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7)), (long)(-(long)(id) * 100003L - 8), (int)((id) * 3 + 9), (double)((id) * 0.5 + 10), (char)((char)((id) + 11)), (void*)((void*)(size_t)((id) * 11 + 12)), (uint64_t)(((uint64_t)(id) << 40) + 13), (float)((float)((id) + 14.25)), (short)((short)(-(id) - 15))); MC_ASSERT(r == (int)((id) * 7 + 15), "a task delivered the wrong result"); } break;
    case 31: CALL(v_void_15, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7)), (long)(-(long)(id) * 100003L - 8), (int)((id) * 3 + 9), (double)((id) * 0.5 + 10), (char)((char)((id) + 11)), (void*)((void*)(size_t)((id) * 11 + 12)), (uint64_t)(((uint64_t)(id) << 40) + 13), (float)((float)((id) + 14.25)), (short)((short)(-(id) - 15))); break;
#endif
#if MAX_ARITY >= 16
    case 32: { double r = CALL(v_leaf_16, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8), (double)((id) * 0.5 + 9), (char)((char)((id) + 10)), (void*)((void*)(size_t)((id) * 11 + 11)), (uint64_t)(((uint64_t)(id) << 40) + 12), (float)((float)((id) + 13.25)), (short)((short)(-(id) - 14)), (long)(-(long)(id) * 100003L - 15), (int)((id) * 3 + 16)); MC_ASSERT(r == (double)((id) * 0.125 + 16), "a task delivered the wrong result"); } break;
    case 33: CALL(v_void_16, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8), (double)((id) * 0.5 + 9), (char)((char)((id) + 10)), (void*)((void*)(size_t)((id) * 11 + 11)), (uint64_t)(((uint64_t)(id) << 40) + 12), (float)((float)((id) + 13.25)), (short)((short)(-(id) - 14)), (long)(-(long)(id) * 100003L - 15), (int)((id) * 3 + 16)); break;
#endif
#if MAX_ARITY >= 17
    case 34: { uint64_t r = CALL(v_leaf_17, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9)), (void*)((void*)(size_t)((id) * 11 + 10)), (uint64_t)(((uint64_t)(id) << 40) + 11), (float)((float)((id) + 12.25)), (short)((short)(-(id) - 13)), (long)(-(long)(id) * 100003L - 14), (int)((id) * 3 + 15), (double)((id) * 0.5 + 16), (char)((char)((id) + 17))); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 17), "a task delivered the wrong result"); } break;
    case 35: CALL(v_void_17, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9)), (void*)((void*)(size_t)((id) * 11 + 10)), (uint64_t)(((uint64_t)(id) << 40) + 11), (float)((float)((id) + 12.25)), (short)((short)(-(id) - 13)), (long)(-(long)(id) * 100003L - 14), (int)((id) * 3 + 15), (double)((id) * 0.5 + 16), (char)((char)((id) + 17))); break;
#endif
#if MAX_ARITY >= 18
    case 36: { void* r = CALL(v_leaf_18, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10), (float)((float)((id) + 11.25)), (short)((short)(-(id) - 12)), (long)(-(long)(id) * 100003L - 13), (int)((id) * 3 + 14), (double)((id) * 0.5 + 15), (char)((char)((id) + 16)), (void*)((void*)(size_t)((id) * 11 + 17)), (uint64_t)(((uint64_t)(id) << 40) + 18)); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 18)), "a task delivered the wrong result"); } break;
    case 37: CALL(v_void_18, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10), (float)((float)((id) + 11.25)), (short)((short)(-(id) - 12)), (long)(-(long)(id) * 100003L - 13), (int)((id) * 3 + 14), (double)((id) * 0.5 + 15), (char)((char)((id) + 16)), (void*)((void*)(size_t)((id) * 11 + 17)), (uint64_t)(((uint64_t)(id) << 40) + 18)); break;
#endif
#if MAX_ARITY >= 19
    case 38: { char r = CALL(v_leaf_19, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11)), (long)(-(long)(id) * 100003L - 12), (int)((id) * 3 + 13), (double)((id) * 0.5 + 14), (char)((char)((id) + 15)), (void*)((void*)(size_t)((id) * 11 + 16)), (uint64_t)(((uint64_t)(id) << 40) + 17), (float)((float)((id) + 18.25)), (short)((short)(-(id) - 19))); MC_ASSERT(r == (char)((char)((id) + 19)), "a task delivered the wrong result"); } break;
    case 39: CALL(v_void_19, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11)), (long)(-(long)(id) * 100003L - 12), (int)((id) * 3 + 13), (double)((id) * 0.5 + 14), (char)((char)((id) + 15)), (void*)((void*)(size_t)((id) * 11 + 16)), (uint64_t)(((uint64_t)(id) << 40) + 17), (float)((float)((id) + 18.25)), (short)((short)(-(id) - 19))); break;
#endif
#if MAX_ARITY >= 20
    case 40: { int r = CALL(v_leaf_20, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12), (double)((id) * 0.5 + 13), (char)((char)((id) + 14)), (void*)((void*)(size_t)((id) * 11 + 15)), (uint64_t)(((uint64_t)(id) << 40) + 16), (float)((float)((id) + 17.25)), (short)((short)(-(id) - 18)), (long)(-(long)(id) * 100003L - 19), (int)((id) * 3 + 20)); MC_ASSERT(r == (int)((id) * 7 + 20), "a task delivered the wrong result"); } break;
    case 41: CALL(v_void_20, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12), (double)((id) * 0.5 + 13), (char)((char)((id) + 14)), (void*)((void*)(size_t)((id) * 11 + 15)), (uint64_t)(((uint64_t)(id) << 40) + 16), (float)((float)((id) + 17.25)), (short)((short)(-(id) - 18)), (long)(-(long)(id) * 100003L - 19), (int)((id) * 3 + 20)); break;
#endif
#if MAX_ARITY >= 21
    case 42: { double r = CALL(v_leaf_21, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13)), (void*)((void*)(size_t)((id) * 11 + 14)), (uint64_t)(((uint64_t)(id) << 40) + 15), (float)((float)((id) + 16.25)), (short)((short)(-(id) - 17)), (long)(-(long)(id) * 100003L - 18), (int)((id) * 3 + 19), (double)((id) * 0.5 + 20), (char)((char)((id) + 21))); MC_ASSERT(r == (double)((id) * 0.125 + 21), "a task delivered the wrong result"); } break;
    case 43: CALL(v_void_21, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13)), (void*)((void*)(size_t)((id) * 11 + 14)), (uint64_t)(((uint64_t)(id) << 40) + 15), (float)((float)((id) + 16.25)), (short)((short)(-(id) - 17)), (long)(-(long)(id) * 100003L - 18), (int)((id) * 3 + 19), (double)((id) * 0.5 + 20), (char)((char)((id) + 21))); break;
#endif
#if MAX_ARITY >= 22
    case 44: { uint64_t r = CALL(v_leaf_22, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14), (float)((float)((id) + 15.25)), (short)((short)(-(id) - 16)), (long)(-(long)(id) * 100003L - 17), (int)((id) * 3 + 18), (double)((id) * 0.5 + 19), (char)((char)((id) + 20)), (void*)((void*)(size_t)((id) * 11 + 21)), (uint64_t)(((uint64_t)(id) << 40) + 22)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 22), "a task delivered the wrong result"); } break;
    case 45: CALL(v_void_22, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14), (float)((float)((id) + 15.25)), (short)((short)(-(id) - 16)), (long)(-(long)(id) * 100003L - 17), (int)((id) * 3 + 18), (double)((id) * 0.5 + 19), (char)((char)((id) + 20)), (void*)((void*)(size_t)((id) * 11 + 21)), (uint64_t)(((uint64_t)(id) << 40) + 22)); break;
#endif
    }
    (void)id; (void)__lace_worker; (void)__lace_dq_head;
}
static void v_sync(WorkerP *__lace_worker, Task *__lace_dq_head, int v, int id)
{
    switch (v) {
#if MAX_ARITY >= 0
    case 0: { int r = SYNC(v_leaf_0); MC_ASSERT(r == (int)((0) * 7 + 0), "a task delivered the wrong result"); } break;
    case 1: SYNC(v_void_0); break;
#endif
#if MAX_ARITY >= 1
    case 2: { double r = SYNC(v_leaf_1); MC_ASSERT(r == (double)((id) * 0.125 + 1), "a task delivered the wrong result"); } break;
    case 3: SYNC(v_void_1); break;
#endif
#if MAX_ARITY >= 2
    case 4: { uint64_t r = SYNC(v_leaf_2); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 2), "a task delivered the wrong result"); } break;
    case 5: SYNC(v_void_2); break;
#endif
#if MAX_ARITY >= 3
    case 6: { void* r = SYNC(v_leaf_3); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 3)), "a task delivered the wrong result"); } break;
    case 7: SYNC(v_void_3); break;
#endif
#if MAX_ARITY >= 4
    case 8: { char r = SYNC(v_leaf_4); MC_ASSERT(r == (char)((char)((id) + 4)), "a task delivered the wrong result"); } break;
    case 9: SYNC(v_void_4); break;
#endif
#if MAX_ARITY >= 5
    case 10: { int r = SYNC(v_leaf_5); MC_ASSERT(r == (int)((id) * 7 + 5), "a task delivered the wrong result"); } break;
    case 11: SYNC(v_void_5); break;
#endif
#if MAX_ARITY >= 6
    case 12: { double r = SYNC(v_leaf_6); MC_ASSERT(r == (double)((id) * 0.125 + 6), "a task delivered the wrong result"); } break;
    case 13: SYNC(v_void_6); break;
#endif
#if MAX_ARITY >= 7
    case 14: { uint64_t r = SYNC(v_leaf_7); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 7), "a task delivered the wrong result"); } break;
    case 15: SYNC(v_void_7); break;
#endif
#if MAX_ARITY >= 8
    case 16: { void* r = SYNC(v_leaf_8); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 8)), "a task delivered the wrong result"); } break;
    case 17: SYNC(v_void_8); break;
#endif
#if MAX_ARITY >= 9
    case 18: { char r = SYNC(v_leaf_9); MC_ASSERT(r == (char)((char)((id) + 9)), "a task delivered the wrong result"); } break;
    case 19: SYNC(v_void_9); break;
#endif
#if MAX_ARITY >= 10
    case 20: { int r = SYNC(v_leaf_10); MC_ASSERT(r == (int)((id) * 7 + 10), "a task delivered the wrong result"); } break;
    case 21: SYNC(v_void_10); break;
#endif
#if MAX_ARITY >= 11
    case 22: { double r = SYNC(v_leaf_11); MC_ASSERT(r == (double)((id) * 0.125 + 11), "a task delivered the wrong result"); } break;
    case 23: SYNC(v_void_11); break;
#endif
#if MAX_ARITY >= 12
    case 24: { uint64_t r = SYNC(v_leaf_12); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 12), "a task delivered the wrong result"); } break;
    case 25: SYNC(v_void_12); break;
#endif
#if MAX_ARITY >= 13
    case 26: { void* r = SYNC(v_leaf_13); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 13)), "a task delivered the wrong result"); } break;
    case 27: SYNC(v_void_13); break;
#endif
#if MAX_ARITY >= 14
    case 28: { char r = SYNC(v_leaf_14); MC_ASSERT(r == (char)((char)((id) + 14)), "a task delivered the wrong result"); } break;
    case 29: SYNC(v_void_14); break;
#endif
#if MAX_ARITY >= 15
    case 30: { int r = SYNC(v_leaf_15); MC_ASSERT(r == (int)((id) * 7 + 15), "a task delivered the wrong result"); } break;
    case 31: SYNC(v_void_15); break;
#endif
#if MAX_ARITY >= 16
    case 32: { double r = SYNC(v_leaf_16); MC_ASSERT(r == (double)((id) * 0.125 + 16), "a task delivered the wrong result"); } break;
    case 33: SYNC(v_void_16); break;
#endif
#if MAX_ARITY >= 17
    case 34: { uint64_t r = SYNC(v_leaf_17); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 17), "a task delivered the wrong result"); } break;
    case 35: SYNC(v_void_17); break;
#endif
#if MAX_ARITY >= 18
    case 36: { void* r = SYNC(v_leaf_18); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 18)), "a task delivered the wrong result"); } break;
    case 37: SYNC(v_void_18); break;
#endif
#if MAX_ARITY >= 19
    case 38: { char r = SYNC(v_leaf_19); MC_ASSERT(r == (char)((char)((id) + 19)), "a task delivered the wrong result"); } break;
    case 39: SYNC(v_void_19); break;
#endif
#if MAX_ARITY >= 20
    case 40: { int r = SYNC(v_leaf_20); MC_ASSERT(r == (int)((id) * 7 + 20), "a task delivered the wrong result"); } break;
    case 41: SYNC(v_void_20); break;
#endif
#if MAX_ARITY >= 21
    case 42: { double r = SYNC(v_leaf_21); MC_ASSERT(r == (double)((id) * 0.125 + 21), "a task delivered the wrong result"); } break;
    case 43: SYNC(v_void_21); break;
#endif
#if MAX_ARITY >= 22
    case 44: { uint64_t r = SYNC(v_leaf_22); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 22), "a task delivered the wrong result"); } break;
    case 45: SYNC(v_void_22); break;
#endif
    }
    (void)id; (void)__lace_worker; (void)__lace_dq_head;
}
static void v_fptr(WorkerP *__lace_worker, Task *__lace_dq_head, int v, int id)
{
    switch (v) {
#if MAX_ARITY >= 0
    case 0: { __typeof__(&v_leaf_0_CALL) f = TASK(v_leaf_0); int r = WRAP(f); MC_ASSERT(r == (int)((0) * 7 + 0), "a task delivered the wrong result"); } break;
    case 1: { __typeof__(&v_void_0_CALL) f = TASK(v_void_0); WRAP(f); } break;
#endif
#if MAX_ARITY >= 1
    case 2: { __typeof__(&v_leaf_1_CALL) f = TASK(v_leaf_1); double r = WRAP(f, (char)((char)((id) + 1))); MC_ASSERT(r == (double)((id) * 0.125 + 1), "a task delivered the wrong result"); } break;
    case 3: { __typeof__(&v_void_1_CALL) f = TASK(v_void_1); WRAP(f, (char)((char)((id) + 1))); } break;
#endif
#if MAX_ARITY >= 2
    case 4: { __typeof__(&v_leaf_2_CALL) f = TASK(v_leaf_2); uint64_t r = WRAP(f, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 2), "a task delivered the wrong result"); } break;
    case 5: { __typeof__(&v_void_2_CALL) f = TASK(v_void_2); WRAP(f, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2)); } break;
#endif
#if MAX_ARITY >= 3
    case 6: { __typeof__(&v_leaf_3_CALL) f = TASK(v_leaf_3); void* r = WRAP(f, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3))); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 3)), "a task delivered the wrong result"); } break;
    case 7: { __typeof__(&v_void_3_CALL) f = TASK(v_void_3); WRAP(f, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3))); } break;
#endif
#if MAX_ARITY >= 4
    case 8: { __typeof__(&v_leaf_4_CALL) f = TASK(v_leaf_4); char r = WRAP(f, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4)); MC_ASSERT(r == (char)((char)((id) + 4)), "a task delivered the wrong result"); } break;
    case 9: { __typeof__(&v_void_4_CALL) f = TASK(v_void_4); WRAP(f, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4)); } break;
#endif
#if MAX_ARITY >= 5
    case 10: { __typeof__(&v_leaf_5_CALL) f = TASK(v_leaf_5); int r = WRAP(f, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5))); MC_ASSERT(r == (int)((id) * 7 + 5), "a task delivered the wrong result"); } break;
    case 11: { __typeof__(&v_void_5_CALL) f = TASK(v_void_5); WRAP(f, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5))); } break;
#endif
#if MAX_ARITY >= 6
    case 12: { __typeof__(&v_leaf_6_CALL) f = TASK(v_leaf_6); double r = WRAP(f, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6)); MC_ASSERT(r == (double)((id) * 0.125 + 6), "a task delivered the wrong result"); } break;
    case 13: { __typeof__(&v_void_6_CALL) f = TASK(v_void_6); WRAP(f, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6)); } break;
#endif
#if MAX_ARITY >= 7
    case 14: { __typeof__(&v_leaf_7_CALL) f = TASK(v_leaf_7); uint64_t r = WRAP(f, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7))); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 7), "a task delivered the wrong result"); } break;
    case 15: { __typeof__(&v_void_7_CALL) f = TASK(v_void_7); WRAP(f, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7))); } break;
#endif
#if MAX_ARITY >= 8
    case 16: { __typeof__(&v_leaf_8_CALL) f = TASK(v_leaf_8); void* r = WRAP(f, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8)); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 8)), "a task delivered the wrong result"); } break;
    case 17: { __typeof__(&v_void_8_CALL) f = TASK(v_void_8); WRAP(f, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8)); } break;
#endif
#if MAX_ARITY >= 9
    case 18: { __typeof__(&v_leaf_9_CALL) f = TASK(v_leaf_9); char r = WRAP(f, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9))); MC_ASSERT(r == (char)((char)((id) + 9)), "a task delivered the wrong result"); } break;
    case 19: { __typeof__(&v_void_9_CALL) f = TASK(v_void_9); WRAP(f, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9))); } break;
#endif
#if MAX_ARITY >= 10
    case 20: { __typeof__(&v_leaf_10_CALL) f = TASK(v_leaf_10); int r = WRAP(f, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10)); MC_ASSERT(r == (int)((id) * 7 + 10), "a task delivered the wrong result"); } break;
    case 21: { __typeof__(&v_void_10_CALL) f = TASK(v_void_10); WRAP(f, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10)); } break;
#endif
#if MAX_ARITY >= 11
    case 22: { __typeof__(&v_leaf_11_CALL) f = TASK(v_leaf_11); double r = WRAP(f, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11))); MC_ASSERT(r == (double)((id) * 0.125 + 11), "a task delivered the wrong result"); } break;
    case 23: { __typeof__(&v_void_11_CALL) f = TASK(v_void_11); WRAP(f, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11))); } break;
#endif
#if MAX_ARITY >= 12
    case 24: { __typeof__(&v_leaf_12_CALL) f = TASK(v_leaf_12); uint64_t r = WRAP(f, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 12), "a task delivered the wrong result"); } break;
    case 25: { __typeof__(&v_void_12_CALL) f = TASK(v_void_12); WRAP(f, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12)); } break;
#endif
#if MAX_ARITY >= 13
    case 26: { __typeof__(&v_leaf_13_CALL) f = TASK(v_leaf_13); void* r = WRAP(f, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13))); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 13)), "a task delivered the wrong result"); } break;
    case 27: { __typeof__(&v_void_13_CALL) f = TASK(v_void_13); WRAP(f, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13))); } break;
#endif
#if MAX_ARITY >= 14
    case 28: { __typeof__(&v_leaf_14_CALL) f = TASK(v_leaf_14); char r = WRAP(f, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14)); MC_ASSERT(r == (char)((char)((id) + 14)), "a task delivered the wrong result"); } break;
    case 29: { __typeof__(&v_void_14_CALL) f = TASK(v_void_14); WRAP(f, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14)); } break;
#endif
#if MAX_ARITY >= 15
    case 30: { __typeof__(&v_leaf_15_CALL) f = TASK(v_leaf_15); int r = WRAP(f, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7)), (long)(-(long)(id) * 100003L - 8), (int)((id) * 3 + 9), (double)((id) * 0.5 + 10), (char)((char)((id) + 11)), (void*)((void*)(size_t)((id) * 11 + 12)), (uint64_t)(((uint64_t)(id) << 40) + 13), (float)((float)((id) + 14.25)), (short)((short)(-(id) - 15))); MC_ASSERT(r == (int)((id) * 7 + 15), "a task delivered the wrong result"); } break;
    case 31: { __typeof__(&v_void_15_CALL) f = TASK(v_void_15); WRAP(f, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7)), (long)(-(long)(id) * 100003L - 8), (int)((id) * 3 + 9), (double)((id) * 0.5 + 10), (char)((char)((id) + 11)), (void*)((void*)(size_t)((id) * 11 + 12)), (uint64_t)(((uint64_t)(id) << 40) + 13), (float)((float)((id) + 14.25)), (short)((short)(-(id) - 15))); } break;
#endif
#if MAX_ARITY >= 16
    case 32: { __typeof__(&v_leaf_16_CALL) f = TASK(v_leaf_16); double r = WRAP(f, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8), (double)((id) * 0.5 + 9), (char)((char)((id) + 10)), (void*)((void*)(size_t)((id) * 11 + 11)), (uint64_t)(((uint64_t)(id) << 40) + 12), (float)((float)((id) + 13.25)), (short)((short)(-(id) - 14)), (long)(-(long)(id) * 100003L - 15), (int)((id) * 3 + 16)); MC_ASSERT(r == (double)((id) * 0.125 + 16), "a task delivered the wrong result"); } break;
    case 33: { __typeof__(&v_void_16_CALL) f = TASK(v_void_16); WRAP(f, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8), (double)((id) * 0.5 + 9), (char)((char)((id) + 10)), (void*)((void*)(size_t)((id) * 11 + 11)), (uint64_t)(((uint64_t)(id) << 40) + 12), (float)((float)((id) + 13.25)), (short)((short)(-(id) - 14)), (long)(-(long)(id) * 100003L - 15), (int)((id) * 3 + 16)); } break;
#endif
#if MAX_ARITY >= 17
    case 34: { __typeof__(&v_leaf_17_CALL) f = TASK(v_leaf_17); uint64_t r = WRAP(f, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9)), (void*)((void*)(size_t)((id) * 11 + 10)), (uint64_t)(((uint64_t)(id) << 40) + 11), (float)((float)((id) + 12.25)), (short)((short)(-(id) - 13)), (long)(-(long)(id) * 100003L - 14), (int)((id) * 3 + 15), (double)((id) * 0.5 + 16), (char)((char)((id) + 17))); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 17), "a task delivered the wrong result"); } break;
    case 35: { __typeof__(&v_void_17_CALL) f = TASK(v_void_17); WRAP(f, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9)), (void*)((void*)(size_t)((id) * 11 + 10)), (uint64_t)(((uint64_t)(id) << 40) + 11), (float)((float)((id) + 12.25)), (short)((short)(-(id) - 13)), (long)(-(long)(id) * 100003L - 14), (int)((id) * 3 + 15), (double)((id) * 0.5 + 16), (char)((char)((id) + 17))); } break;
#endif
#if MAX_ARITY >= 18
    case 36: { __typeof__(&v_leaf_18_CALL) f = TASK(v_leaf_18); void* r = WRAP(f, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10), (float)((float)((id) + 11.25)), (short)((short)(-(id) - 12)), (long)(-(long)(id) * 100003L - 13), (int)((id) * 3 + 14), (double)((id) * 0.5 + 15), (char)((char)((id) + 16)), (void*)((void*)(size_t)((id) * 11 + 17)), (uint64_t)(((uint64_t)(id) << 40) + 18)); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 18)), "a task delivered the wrong result"); } break;
    case 37: { __typeof__(&v_void_18_CALL) f = TASK(v_void_18); WRAP(f, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10), (float)((float)((id) + 11.25)), (short)((short)(-(id) - 12)), (long)(-(long)(id) * 100003L - 13), (int)((id) * 3 + 14), (double)((id) * 0.5 + 15), (char)((char)((id) + 16)), (void*)((void*)(size_t)((id) * 11 + 17)), (uint64_t)(((uint64_t)(id) << 40) + 18)); } break;
#endif
#if MAX_ARITY >= 19
    case 38: { __typeof__(&v_leaf_19_CALL) f = TASK(v_leaf_19); char r = WRAP(f, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11)), (long)(-(long)(id) * 100003L - 12), (int)((id) * 3 + 13), (double)((id) * 0.5 + 14), (char)((char)((id) + 15)), (void*)((void*)(size_t)((id) * 11 + 16)), (uint64_t)(((uint64_t)(id) << 40) + 17), (float)((float)((id) + 18.25)), (short)((short)(-(id) - 19))); MC_ASSERT(r == (char)((char)((id) + 19)), "a task delivered the wrong result"); } break;
    case 39: { __typeof__(&v_void_19_CALL) f = TASK(v_void_19); WRAP(f, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11)), (long)(-(long)(id) * 100003L - 12), (int)((id) * 3 + 13), (double)((id) * 0.5 + 14), (char)((char)((id) + 15)), (void*)((void*)(size_t)((id) * 11 + 16)), (uint64_t)(((uint64_t)(id) << 40) + 17), (float)((float)((id) + 18.25)), (short)((short)(-(id) - 19))); } break;
#endif
#if MAX_ARITY >= 20
    case 40: { __typeof__(&v_leaf_20_CALL) f = TASK(v_leaf_20); int r = WRAP(f, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12), (double)((id) * 0.5 + 13), (char)((char)((id) + 14)), (void*)((void*)(size_t)((id) * 11 + 15)), (uint64_t)(((uint64_t)(id) << 40) + 16), (float)((float)((id) + 17.25)), (short)((short)(-(id) - 18)), (long)(-(long)(id) * 100003L - 19), (int)((id) * 3 + 20)); MC_ASSERT(r == (int)((id) * 7 + 20), "a task delivered the wrong result"); } break;
    case 41: { __typeof__(&v_void_20_CALL) f = TASK(v_void_20); WRAP(f, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12), (double)((id) * 0.5 + 13), (char)((char)((id) + 14)), (void*)((void*)(size_t)((id) * 11 + 15)), (uint64_t)(((uint64_t)(id) << 40) + 16), (float)((float)((id) + 17.25)), (short)((short)(-(id) - 18)), (long)(-(long)(id) * 100003L - 19), (int)((id) * 3 + 20)); } break;
#endif
#if MAX_ARITY >= 21
    case 42: { __typeof__(&v_leaf_21_CALL) f = TASK(v_leaf_21); double r = WRAP(f, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13)), (void*)((void*)(size_t)((id) * 11 + 14)), (uint64_t)(((uint64_t)(id) << 40) + 15), (float)((float)((id) + 16.25)), (short)((short)(-(id) - 17)), (long)(-(long)(id) * 100003L - 18), (int)((id) * 3 + 19), (double)((id) * 0.5 + 20), (char)((char)((id) + 21))); MC_ASSERT(r == (double)((id) * 0.125 + 21), "a task delivered the wrong result"); } break;
    case 43: { __typeof__(&v_void_21_CALL) f = TASK(v_void_21); WRAP(f, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13)), (void*)((void*)(size_t)((id) * 11 + 14)), (uint64_t)(((uint64_t)(id) << 40) + 15), (float)((float)((id) + 16.25)), (short)((short)(-(id) - 17)), (long)(-(long)(id) * 100003L - 18), (int)((id) * 3 + 19), (double)((id) * 0.5 + 20), (char)((char)((id) + 21))); } break;
#endif
#if MAX_ARITY >= 22
    case 44: { __typeof__(&v_leaf_22_CALL) f = TASK(v_leaf_22); uint64_t r = WRAP(f, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14), (float)((float)((id) + 15.25)), (short)((short)(-(id) - 16)), (long)(-(long)(id) * 100003L - 17), (int)((id) * 3 + 18), (double)((id) * 0.5 + 19), (char)((char)((id) + 20)), (void*)((void*)(size_t)((id) * 11 + 21)), (uint64_t)(((uint64_t)(id) << 40) + 22)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 22), "a task delivered the wrong result"); } break;
    case 45: { __typeof__(&v_void_22_CALL) f = TASK(v_void_22); WRAP(f, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14), (float)((float)((id) + 15.25)), (short)((short)(-(id) - 16)), (long)(-(long)(id) * 100003L - 17), (int)((id) * 3 + 18), (double)((id) * 0.5 + 19), (char)((char)((id) + 20)), (void*)((void*)(size_t)((id) * 11 + 21)), (uint64_t)(((uint64_t)(id) << 40) + 22)); } break;
#endif
    }
    (void)id; (void)__lace_worker; (void)__lace_dq_head;
}
static void v_run(int v, int id)
{
    switch (v) {
#if MAX_ARITY >= 0
    case 0: { int r = RUN(v_leaf_0); MC_ASSERT(r == (int)((0) * 7 + 0), "a task delivered the wrong result"); } break;
    case 1: RUN(v_void_0); break;
#endif
#if MAX_ARITY >= 1
    case 2: { double r = RUN(v_leaf_1, (char)((char)((id) + 1))); MC_ASSERT(r == (double)((id) * 0.125 + 1), "a task delivered the wrong result"); } break;
    case 3: RUN(v_void_1, (char)((char)((id) + 1))); break;
#endif
#if MAX_ARITY >= 2
    case 4: { uint64_t r = RUN(v_leaf_2, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 2), "a task delivered the wrong result"); } break;
    case 5: RUN(v_void_2, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2)); break;
#endif
#if MAX_ARITY >= 3
    case 6: { void* r = RUN(v_leaf_3, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3))); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 3)), "a task delivered the wrong result"); } break;
    case 7: RUN(v_void_3, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3))); break;
#endif
#if MAX_ARITY >= 4
    case 8: { char r = RUN(v_leaf_4, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4)); MC_ASSERT(r == (char)((char)((id) + 4)), "a task delivered the wrong result"); } break;
    case 9: RUN(v_void_4, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4)); break;
#endif
#if MAX_ARITY >= 5
    case 10: { int r = RUN(v_leaf_5, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5))); MC_ASSERT(r == (int)((id) * 7 + 5), "a task delivered the wrong result"); } break;
    case 11: RUN(v_void_5, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5))); break;
#endif
#if MAX_ARITY >= 6
    case 12: { double r = RUN(v_leaf_6, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6)); MC_ASSERT(r == (double)((id) * 0.125 + 6), "a task delivered the wrong result"); } break;
    case 13: RUN(v_void_6, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6)); break;
#endif
#if MAX_ARITY >= 7
    case 14: { uint64_t r = RUN(v_leaf_7, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7))); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 7), "a task delivered the wrong result"); } break;
    case 15: RUN(v_void_7, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7))); break;
#endif
#if MAX_ARITY >= 8
    case 16: { void* r = RUN(v_leaf_8, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8)); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 8)), "a task delivered the wrong result"); } break;
    case 17: RUN(v_void_8, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8)); break;
#endif
#if MAX_ARITY >= 9
    case 18: { char r = RUN(v_leaf_9, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9))); MC_ASSERT(r == (char)((char)((id) + 9)), "a task delivered the wrong result"); } break;
    case 19: RUN(v_void_9, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9))); break;
#endif
#if MAX_ARITY >= 10
    case 20: { int r = RUN(v_leaf_10, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10)); MC_ASSERT(r == (int)((id) * 7 + 10), "a task delivered the wrong result"); } break;
    case 21: RUN(v_void_10, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10)); break;
#endif
#if MAX_ARITY >= 11
    case 22: { double r = RUN(v_leaf_11, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11))); MC_ASSERT(r == (double)((id) * 0.125 + 11), "a task delivered the wrong result"); } break;
    case 23: RUN(v_void_11, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11))); break;
#endif
#if MAX_ARITY >= 12
    case 24: { uint64_t r = RUN(v_leaf_12, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 12), "a task delivered the wrong result"); } break;
    case 25: RUN(v_void_12, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12)); break;
#endif
#if MAX_ARITY >= 13
    case 26: { void* r = RUN(v_leaf_13, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13))); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 13)), "a task delivered the wrong result"); } break;
    case 27: RUN(v_void_13, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13))); break;
#endif
#if MAX_ARITY >= 14
    case 28: { char r = RUN(v_leaf_14, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14)); MC_ASSERT(r == (char)((char)((id) + 14)), "a task delivered the wrong result"); } break;
    case 29: RUN(v_void_14, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14)); break;
#endif
#if MAX_ARITY >= 15
    case 30: { int r = RUN(v_leaf_15, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7)), (long)(-(long)(id) * 100003L - 8), (int)((id) * 3 + 9), (double)((id) * 0.5 + 10), (char)((char)((id) + 11)), (void*)((void*)(size_t)((id) * 11 + 12)), (uint64_t)(((uint64_t)(id) << 40) + 13), (float)((float)((id) + 14.25)), (short)((short)(-(id) - 15))); MC_ASSERT(r == (int)((id) * 7 + 15), "a task delivered the wrong result"); } break;
    case 31: RUN(v_void_15, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7)), (long)(-(long)(id) * 100003L - 8), (int)((id) * 3 + 9), (double)((id) * 0.5 + 10), (char)((char)((id) + 11)), (void*)((void*)(size_t)((id) * 11 + 12)), (uint64_t)(((uint64_t)(id) << 40) + 13), (float)((float)((id) + 14.25)), (short)((short)(-(id) - 15))); break;
#endif
#if MAX_ARITY >= 16
    case 32: { double r = RUN(v_leaf_16, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8), (double)((id) * 0.5 + 9), (char)((char)((id) + 10)), (void*)((void*)(size_t)((id) * 11 + 11)), (uint64_t)(((uint64_t)(id) << 40) + 12), (float)((float)((id) + 13.25)), (short)((short)(-(id) - 14)), (long)(-(long)(id) * 100003L - 15), (int)((id) * 3 + 16)); MC_ASSERT(r == (double)((id) * 0.125 + 16), "a task delivered the wrong result"); } break;
    case 33: RUN(v_void_16, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8), (double)((id) * 0.5 + 9), (char)((char)((id) + 10)), (void*)((void*)(size_t)((id) * 11 + 11)), (uint64_t)(((uint64_t)(id) << 40) + 12), (float)((float)((id) + 13.25)), (short)((short)(-(id) - 14)), (long)(-(long)(id) * 100003L - 15), (int)((id) * 3 + 16)); break;
#endif
#if MAX_ARITY >= 17
    case 34: { uint64_t r = RUN(v_leaf_17, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9)), (void*)((void*)(size_t)((id) * 11 + 10)), (uint64_t)(((uint64_t)(id) << 40) + 11), (float)((float)((id) + 12.25)), (short)((short)(-(id) - 13)), (long)(-(long)(id) * 100003L - 14), (int)((id) * 3 + 15), (double)((id) * 0.5 + 16), (char)((char)((id) + 17))); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 17), "a task delivered the wrong result"); } break;
    case 35: RUN(v_void_17, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9)), (void*)((void*)(size_t)((id) * 11 + 10)), (uint64_t)(((uint64_t)(id) << 40) + 11), (float)((float)((id) + 12.25)), (short)((short)(-(id) - 13)), (long)(-(long)(id) * 100003L - 14), (int)((id) * 3 + 15), (double)((id) * 0.5 + 16), (char)((char)((id) + 17))); break;
#endif
#if MAX_ARITY >= 18
    case 36: { void* r = RUN(v_leaf_18, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10), (float)((float)((id) + 11.25)), (short)((short)(-(id) - 12)), (long)(-(long)(id) * 100003L - 13), (int)((id) * 3 + 14), (double)((id) * 0.5 + 15), (char)((char)((id) + 16)), (void*)((void*)(size_t)((id) * 11 + 17)), (uint64_t)(((uint64_t)(id) << 40) + 18)); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 18)), "a task delivered the wrong result"); } break;
    case 37: RUN(v_void_18, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10), (float)((float)((id) + 11.25)), (short)((short)(-(id) - 12)), (long)(-(long)(id) * 100003L - 13), (int)((id) * 3 + 14), (double)((id) * 0.5 + 15), (char)((char)((id) + 16)), (void*)((void*)(size_t)((id) * 11 + 17)), (uint64_t)(((uint64_t)(id) << 40) + 18)); break;
#endif
#if MAX_ARITY >= 19
    case 38: { char r = RUN(v_leaf_19, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11)), (long)(-(long)(id) * 100003L - 12), (int)((id) * 3 + 13), (double)((id) * 0.5 + 14), (char)((char)((id) + 15)), (void*)((void*)(size_t)((id) * 11 + 16)), (uint64_t)(((uint64_t)(id) << 40) + 17), (float)((float)((id) + 18.25)), (short)((short)(-(id) - 19))); MC_ASSERT(r == (char)((char)((id) + 19)), "a task delivered the wrong result"); } break;
    case 39: RUN(v_void_19, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11)), (long)(-(long)(id) * 100003L - 12), (int)((id) * 3 + 13), (double)((id) * 0.5 + 14), (char)((char)((id) + 15)), (void*)((void*)(size_t)((id) * 11 + 16)), (uint64_t)(((uint64_t)(id) << 40) + 17), (float)((float)((id) + 18.25)), (short)((short)(-(id) - 19))); break;
#endif
#if MAX_ARITY >= 20
    case 40: { int r = RUN(v_leaf_20, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12), (double)((id) * 0.5 + 13), (char)((char)((id) + 14)), (void*)((void*)(size_t)((id) * 11 + 15)), (uint64_t)(((uint64_t)(id) << 40) + 16), (float)((float)((id) + 17.25)), (short)((short)(-(id) - 18)), (long)(-(long)(id) * 100003L - 19), (int)((id) * 3 + 20)); MC_ASSERT(r == (int)((id) * 7 + 20), "a task delivered the wrong result"); } break;
    case 41: RUN(v_void_20, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12), (double)((id) * 0.5 + 13), (char)((char)((id) + 14)), (void*)((void*)(size_t)((id) * 11 + 15)), (uint64_t)(((uint64_t)(id) << 40) + 16), (float)((float)((id) + 17.25)), (short)((short)(-(id) - 18)), (long)(-(long)(id) * 100003L - 19), (int)((id) * 3 + 20)); break;
#endif
#if MAX_ARITY >= 21
    case 42: { double r = RUN(v_leaf_21, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13)), (void*)((void*)(size_t)((id) * 11 + 14)), (uint64_t)(((uint64_t)(id) << 40) + 15), (float)((float)((id) + 16.25)), (short)((short)(-(id) - 17)), (long)(-(long)(id) * 100003L - 18), (int)((id) * 3 + 19), (double)((id) * 0.5 + 20), (char)((char)((id) + 21))); MC_ASSERT(r == (double)((id) * 0.125 + 21), "a task delivered the wrong result"); } break;
    case 43: RUN(v_void_21, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13)), (void*)((void*)(size_t)((id) * 11 + 14)), (uint64_t)(((uint64_t)(id) << 40) + 15), (float)((float)((id) + 16.25)), (short)((short)(-(id) - 17)), (long)(-(long)(id) * 100003L - 18), (int)((id) * 3 + 19), (double)((id) * 0.5 + 20), (char)((char)((id) + 21))); break;
#endif
#if MAX_ARITY >= 22
    case 44: { uint64_t r = RUN(v_leaf_22, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14), (float)((float)((id) + 15.25)), (short)((short)(-(id) - 16)), (long)(-(long)(id) * 100003L - 17), (int)((id) * 3 + 18), (double)((id) * 0.5 + 19), (char)((char)((id) + 20)), (void*)((void*)(size_t)((id) * 11 + 21)), (uint64_t)(((uint64_t)(id) << 40) + 22)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 22), "a task delivered the wrong result"); } break;
    case 45: RUN(v_void_22, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14), (float)((float)((id) + 15.25)), (short)((short)(-(id) - 16)), (long)(-(long)(id) * 100003L - 17), (int)((id) * 3 + 18), (double)((id) * 0.5 + 19), (char)((char)((id) + 20)), (void*)((void*)(size_t)((id) * 11 + 21)), (uint64_t)(((uint64_t)(id) << 40) + 22)); break;
#endif
    }
    (void)id;
}
static void v_runex(int v, int id)
{
    switch (v) {
#if MAX_ARITY >= 0
    case 0: { int r = RUNEX(v_leaf_0); MC_ASSERT(r == (int)((0) * 7 + 0), "a task delivered the wrong result"); } break;
    case 1: RUNEX(v_void_0); break;
#endif
#if MAX_ARITY >= 1
    case 2: { double r = RUNEX(v_leaf_1, (char)((char)((id) + 1))); MC_ASSERT(r == (double)((id) * 0.125 + 1), "a task delivered the wrong result"); } break;
    case 3: RUNEX(v_void_1, (char)((char)((id) + 1))); break;
#endif
#if MAX_ARITY >= 2
    case 4: { uint64_t r = RUNEX(v_leaf_2, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 2), "a task delivered the wrong result"); } break;
    case 5: RUNEX(v_void_2, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2)); break;
#endif
#if MAX_ARITY >= 3
    case 6: { void* r = RUNEX(v_leaf_3, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3))); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 3)), "a task delivered the wrong result"); } break;
    case 7: RUNEX(v_void_3, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3))); break;
#endif
#if MAX_ARITY >= 4
    case 8: { char r = RUNEX(v_leaf_4, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4)); MC_ASSERT(r == (char)((char)((id) + 4)), "a task delivered the wrong result"); } break;
    case 9: RUNEX(v_void_4, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4)); break;
#endif
#if MAX_ARITY >= 5
    case 10: { int r = RUNEX(v_leaf_5, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5))); MC_ASSERT(r == (int)((id) * 7 + 5), "a task delivered the wrong result"); } break;
    case 11: RUNEX(v_void_5, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5))); break;
#endif
#if MAX_ARITY >= 6
    case 12: { double r = RUNEX(v_leaf_6, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6)); MC_ASSERT(r == (double)((id) * 0.125 + 6), "a task delivered the wrong result"); } break;
    case 13: RUNEX(v_void_6, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6)); break;
#endif
#if MAX_ARITY >= 7
    case 14: { uint64_t r = RUNEX(v_leaf_7, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7))); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 7), "a task delivered the wrong result"); } break;
    case 15: RUNEX(v_void_7, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7))); break;
#endif
#if MAX_ARITY >= 8
    case 16: { void* r = RUNEX(v_leaf_8, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8)); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 8)), "a task delivered the wrong result"); } break;
    case 17: RUNEX(v_void_8, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8)); break;
#endif
#if MAX_ARITY >= 9
    case 18: { char r = RUNEX(v_leaf_9, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9))); MC_ASSERT(r == (char)((char)((id) + 9)), "a task delivered the wrong result"); } break;
    case 19: RUNEX(v_void_9, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9))); break;
#endif
#if MAX_ARITY >= 10
    case 20: { int r = RUNEX(v_leaf_10, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10)); MC_ASSERT(r == (int)((id) * 7 + 10), "a task delivered the wrong result"); } break;
    case 21: RUNEX(v_void_10, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10)); break;
#endif
#if MAX_ARITY >= 11
    case 22: { double r = RUNEX(v_leaf_11, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11))); MC_ASSERT(r == (double)((id) * 0.125 + 11), "a task delivered the wrong result"); } break;
    case 23: RUNEX(v_void_11, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11))); break;
#endif
#if MAX_ARITY >= 12
    case 24: { uint64_t r = RUNEX(v_leaf_12, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 12), "a task delivered the wrong result"); } break;
    case 25: RUNEX(v_void_12, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12)); break;
#endif
#if MAX_ARITY >= 13
    case 26: { void* r = RUNEX(v_leaf_13, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13))); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 13)), "a task delivered the wrong result"); } break;
    case 27: RUNEX(v_void_13, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13))); break;
#endif
#if MAX_ARITY >= 14
    case 28: { char r = RUNEX(v_leaf_14, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14)); MC_ASSERT(r == (char)((char)((id) + 14)), "a task delivered the wrong result"); } break;
    case 29: RUNEX(v_void_14, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14)); break;
#endif
#if MAX_ARITY >= 15
    case 30: { int r = RUNEX(v_leaf_15, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7)), (long)(-(long)(id) * 100003L - 8), (int)((id) * 3 + 9), (double)((id) * 0.5 + 10), (char)((char)((id) + 11)), (void*)((void*)(size_t)((id) * 11 + 12)), (uint64_t)(((uint64_t)(id) << 40) + 13), (float)((float)((id) + 14.25)), (short)((short)(-(id) - 15))); MC_ASSERT(r == (int)((id) * 7 + 15), "a task delivered the wrong result"); } break;
    case 31: RUNEX(v_void_15, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7)), (long)(-(long)(id) * 100003L - 8), (int)((id) * 3 + 9), (double)((id) * 0.5 + 10), (char)((char)((id) + 11)), (void*)((void*)(size_t)((id) * 11 + 12)), (uint64_t)(((uint64_t)(id) << 40) + 13), (float)((float)((id) + 14.25)), (short)((short)(-(id) - 15))); break;
#endif
#if MAX_ARITY >= 16
    case 32: { double r = RUNEX(v_leaf_16, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8), (double)((id) * 0.5 + 9), (char)((char)((id) + 10)), (void*)((void*)(size_t)((id) * 11 + 11)), (uint64_t)(((uint64_t)(id) << 40) + 12), (float)((float)((id) + 13.25)), (short)((short)(-(id) - 14)), (long)(-(long)(id) * 100003L - 15), (int)((id) * 3 + 16)); MC_ASSERT(r == (double)((id) * 0.125 + 16), "a task delivered the wrong result"); } break;
    case 33: RUNEX(v_void_16, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8), (double)((id) * 0.5 + 9), (char)((char)((id) + 10)), (void*)((void*)(size_t)((id) * 11 + 11)), (uint64_t)(((uint64_t)(id) << 40) + 12), (float)((float)((id) + 13.25)), (short)((short)(-(id) - 14)), (long)(-(long)(id) * 100003L - 15), (int)((id) * 3 + 16)); break;
#endif
#if MAX_ARITY >= 17
    case 34: { uint64_t r = RUNEX(v_leaf_17, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9)), (void*)((void*)(size_t)((id) * 11 + 10)), (uint64_t)(((uint64_t)(id) << 40) + 11), (float)((float)((id) + 12.25)), (short)((short)(-(id) - 13)), (long)(-(long)(id) * 100003L - 14), (int)((id) * 3 + 15), (double)((id) * 0.5 + 16), (char)((char)((id) + 17))); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 17), "a task delivered the wrong result"); } break;
    case 35: RUNEX(v_void_17, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9)), (void*)((void*)(size_t)((id) * 11 + 10)), (uint64_t)(((uint64_t)(id) << 40) + 11), (float)((float)((id) + 12.25)), (short)((short)(-(id) - 13)), (long)(-(long)(id) * 100003L - 14), (int)((id) * 3 + 15), (double)((id) * 0.5 + 16), (char)((char)((id) + 17))); break;
#endif
#if MAX_ARITY >= 18
    case 36: { void* r = RUNEX(v_leaf_18, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10), (float)((float)((id) + 11.25)), (short)((short)(-(id) - 12)), (long)(-(long)(id) * 100003L - 13), (int)((id) * 3 + 14), (double)((id) * 0.5 + 15), (char)((char)((id) + 16)), (void*)((void*)(size_t)((id) * 11 + 17)), (uint64_t)(((uint64_t)(id) << 40) + 18)); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 18)), "a task delivered the wrong result"); } break;
    case 37: RUNEX(v_void_18, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10), (float)((float)((id) + 11.25)), (short)((short)(-(id) - 12)), (long)(-(long)(id) * 100003L - 13), (int)((id) * 3 + 14), (double)((id) * 0.5 + 15), (char)((char)((id) + 16)), (void*)((void*)(size_t)((id) * 11 + 17)), (uint64_t)(((uint64_t)(id) << 40) + 18)); break;
#endif
#if MAX_ARITY >= 19
    case 38: { char r = RUNEX(v_leaf_19, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11)), (long)(-(long)(id) * 100003L - 12), (int)((id) * 3 + 13), (double)((id) * 0.5 + 14), (char)((char)((id) + 15)), (void*)((void*)(size_t)((id) * 11 + 16)), (uint64_t)(((uint64_t)(id) << 40) + 17), (float)((float)((id) + 18.25)), (short)((short)(-(id) - 19))); MC_ASSERT(r == (char)((char)((id) + 19)), "a task delivered the wrong result"); } break;
    case 39: RUNEX(v_void_19, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11)), (long)(-(long)(id) * 100003L - 12), (int)((id) * 3 + 13), (double)((id) * 0.5 + 14), (char)((char)((id) + 15)), (void*)((void*)(size_t)((id) * 11 + 16)), (uint64_t)(((uint64_t)(id) << 40) + 17), (float)((float)((id) + 18.25)), (short)((short)(-(id) - 19))); break;
#endif
#if MAX_ARITY >= 20
    case 40: { int r = RUNEX(v_leaf_20, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12), (double)((id) * 0.5 + 13), (char)((char)((id) + 14)), (void*)((void*)(size_t)((id) * 11 + 15)), (uint64_t)(((uint64_t)(id) << 40) + 16), (float)((float)((id) + 17.25)), (short)((short)(-(id) - 18)), (long)(-(long)(id) * 100003L - 19), (int)((id) * 3 + 20)); MC_ASSERT(r == (int)((id) * 7 + 20), "a task delivered the wrong result"); } break;
    case 41: RUNEX(v_void_20, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12), (double)((id) * 0.5 + 13), (char)((char)((id) + 14)), (void*)((void*)(size_t)((id) * 11 + 15)), (uint64_t)(((uint64_t)(id) << 40) + 16), (float)((float)((id) + 17.25)), (short)((short)(-(id) - 18)), (long)(-(long)(id) * 100003L - 19), (int)((id) * 3 + 20)); break;
#endif
#if MAX_ARITY >= 21
    case 42: { double r = RUNEX(v_leaf_21, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13)), (void*)((void*)(size_t)((id) * 11 + 14)), (uint64_t)(((uint64_t)(id) << 40) + 15), (float)((float)((id) + 16.25)), (short)((short)(-(id) - 17)), (long)(-(long)(id) * 100003L - 18), (int)((id) * 3 + 19), (double)((id) * 0.5 + 20), (char)((char)((id) + 21))); MC_ASSERT(r == (double)((id) * 0.125 + 21), "a task delivered the wrong result"); } break;
    case 43: RUNEX(v_void_21, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13)), (void*)((void*)(size_t)((id) * 11 + 14)), (uint64_t)(((uint64_t)(id) << 40) + 15), (float)((float)((id) + 16.25)), (short)((short)(-(id) - 17)), (long)(-(long)(id) * 100003L - 18), (int)((id) * 3 + 19), (double)((id) * 0.5 + 20), (char)((char)((id) + 21))); break;
#endif
#if MAX_ARITY >= 22
    case 44: { uint64_t r = RUNEX(v_leaf_22, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14), (float)((float)((id) + 15.25)), (short)((short)(-(id) - 16)), (long)(-(long)(id) * 100003L - 17), (int)((id) * 3 + 18), (double)((id) * 0.5 + 19), (char)((char)((id) + 20)), (void*)((void*)(size_t)((id) * 11 + 21)), (uint64_t)(((uint64_t)(id) << 40) + 22)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 22), "a task delivered the wrong result"); } break;
    case 45: RUNEX(v_void_22, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14), (float)((float)((id) + 15.25)), (short)((short)(-(id) - 16)), (long)(-(long)(id) * 100003L - 17), (int)((id) * 3 + 18), (double)((id) * 0.5 + 19), (char)((char)((id) + 20)), (void*)((void*)(size_t)((id) * 11 + 21)), (uint64_t)(((uint64_t)(id) << 40) + 22)); break;
#endif
    }
    (void)id;
}
static void v_newframe(int v, int id)
{
    switch (v) {
#if MAX_ARITY >= 0
    case 0: { int r = NEWFRAME(v_leaf_0); MC_ASSERT(r == (int)((0) * 7 + 0), "a task delivered the wrong result"); } break;
    case 1: NEWFRAME(v_void_0); break;
#endif
#if MAX_ARITY >= 1
    case 2: { double r = NEWFRAME(v_leaf_1, (char)((char)((id) + 1))); MC_ASSERT(r == (double)((id) * 0.125 + 1), "a task delivered the wrong result"); } break;
    case 3: NEWFRAME(v_void_1, (char)((char)((id) + 1))); break;
#endif
#if MAX_ARITY >= 2
    case 4: { uint64_t r = NEWFRAME(v_leaf_2, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 2), "a task delivered the wrong result"); } break;
    case 5: NEWFRAME(v_void_2, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2)); break;
#endif
#if MAX_ARITY >= 3
    case 6: { void* r = NEWFRAME(v_leaf_3, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3))); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 3)), "a task delivered the wrong result"); } break;
    case 7: NEWFRAME(v_void_3, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3))); break;
#endif
#if MAX_ARITY >= 4
    case 8: { char r = NEWFRAME(v_leaf_4, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4)); MC_ASSERT(r == (char)((char)((id) + 4)), "a task delivered the wrong result"); } break;
    case 9: NEWFRAME(v_void_4, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4)); break;
#endif
#if MAX_ARITY >= 5
    case 10: { int r = NEWFRAME(v_leaf_5, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5))); MC_ASSERT(r == (int)((id) * 7 + 5), "a task delivered the wrong result"); } break;
    case 11: NEWFRAME(v_void_5, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5))); break;
#endif
#if MAX_ARITY >= 6
    case 12: { double r = NEWFRAME(v_leaf_6, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6)); MC_ASSERT(r == (double)((id) * 0.125 + 6), "a task delivered the wrong result"); } break;
    case 13: NEWFRAME(v_void_6, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6)); break;
#endif
#if MAX_ARITY >= 7
    case 14: { uint64_t r = NEWFRAME(v_leaf_7, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7))); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 7), "a task delivered the wrong result"); } break;
    case 15: NEWFRAME(v_void_7, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7))); break;
#endif
#if MAX_ARITY >= 8
    case 16: { void* r = NEWFRAME(v_leaf_8, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8)); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 8)), "a task delivered the wrong result"); } break;
    case 17: NEWFRAME(v_void_8, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8)); break;
#endif
#if MAX_ARITY >= 9
    case 18: { char r = NEWFRAME(v_leaf_9, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9))); MC_ASSERT(r == (char)((char)((id) + 9)), "a task delivered the wrong result"); } break;
    case 19: NEWFRAME(v_void_9, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9))); break;
#endif
#if MAX_ARITY >= 10
    case 20: { int r = NEWFRAME(v_leaf_10, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10)); MC_ASSERT(r == (int)((id) * 7 + 10), "a task delivered the wrong result"); } break;
    case 21: NEWFRAME(v_void_10, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10)); break;
#endif
#if MAX_ARITY >= 11
    case 22: { double r = NEWFRAME(v_leaf_11, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11))); MC_ASSERT(r == (double)((id) * 0.125 + 11), "a task delivered the wrong result"); } break;
    case 23: NEWFRAME(v_void_11, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11))); break;
#endif
#if MAX_ARITY >= 12
    case 24: { uint64_t r = NEWFRAME(v_leaf_12, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 12), "a task delivered the wrong result"); } break;
    case 25: NEWFRAME(v_void_12, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12)); break;
#endif
#if MAX_ARITY >= 13
    case 26: { void* r = NEWFRAME(v_leaf_13, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13))); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 13)), "a task delivered the wrong result"); } break;
    case 27: NEWFRAME(v_void_13, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13))); break;
#endif
#if MAX_ARITY >= 14
    case 28: { char r = NEWFRAME(v_leaf_14, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14)); MC_ASSERT(r == (char)((char)((id) + 14)), "a task delivered the wrong result"); } break;
    case 29: NEWFRAME(v_void_14, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14)); break;
#endif
#if MAX_ARITY >= 15
    case 30: { int r = NEWFRAME(v_leaf_15, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7)), (long)(-(long)(id) * 100003L - 8), (int)((id) * 3 + 9), (double)((id) * 0.5 + 10), (char)((char)((id) + 11)), (void*)((void*)(size_t)((id) * 11 + 12)), (uint64_t)(((uint64_t)(id) << 40) + 13), (float)((float)((id) + 14.25)), (short)((short)(-(id) - 15))); MC_ASSERT(r == (int)((id) * 7 + 15), "a task delivered the wrong result"); } break;
    case 31: NEWFRAME(v_void_15, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7)), (long)(-(long)(id) * 100003L - 8), (int)((id) * 3 + 9), (double)((id) * 0.5 + 10), (char)((char)((id) + 11)), (void*)((void*)(size_t)((id) * 11 + 12)), (uint64_t)(((uint64_t)(id) << 40) + 13), (float)((float)((id) + 14.25)), (short)((short)(-(id) - 15))); break;
#endif
#if MAX_ARITY >= 16
    case 32: { double r = NEWFRAME(v_leaf_16, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8), (double)((id) * 0.5 + 9), (char)((char)((id) + 10)), (void*)((void*)(size_t)((id) * 11 + 11)), (uint64_t)(((uint64_t)(id) << 40) + 12), (float)((float)((id) + 13.25)), (short)((short)(-(id) - 14)), (long)(-(long)(id) * 100003L - 15), (int)((id) * 3 + 16)); MC_ASSERT(r == (double)((id) * 0.125 + 16), "a task delivered the wrong result"); } break;
    case 33: NEWFRAME(v_void_16, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8), (double)((id) * 0.5 + 9), (char)((char)((id) + 10)), (void*)((void*)(size_t)((id) * 11 + 11)), (uint64_t)(((uint64_t)(id) << 40) + 12), (float)((float)((id) + 13.25)), (short)((short)(-(id) - 14)), (long)(-(long)(id) * 100003L - 15), (int)((id) * 3 + 16)); break;
#endif
#if MAX_ARITY >= 17
    case 34: { uint64_t r = NEWFRAME(v_leaf_17, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9)), (void*)((void*)(size_t)((id) * 11 + 10)), (uint64_t)(((uint64_t)(id) << 40) + 11), (float)((float)((id) + 12.25)), (short)((short)(-(id) - 13)), (long)(-(long)(id) * 100003L - 14), (int)((id) * 3 + 15), (double)((id) * 0.5 + 16), (char)((char)((id) + 17))); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 17), "a task delivered the wrong result"); } break;
    case 35: NEWFRAME(v_void_17, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9)), (void*)((void*)(size_t)((id) * 11 + 10)), (uint64_t)(((uint64_t)(id) << 40) + 11), (float)((float)((id) + 12.25)), (short)((short)(-(id) - 13)), (long)(-(long)(id) * 100003L - 14), (int)((id) * 3 + 15), (double)((id) * 0.5 + 16), (char)((char)((id) + 17))); break;
#endif
#if MAX_ARITY >= 18
    case 36: { void* r = NEWFRAME(v_leaf_18, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10), (float)((float)((id) + 11.25)), (short)((short)(-(id) - 12)), (long)(-(long)(id) * 100003L - 13), (int)((id) * 3 + 14), (double)((id) * 0.5 + 15), (char)((char)((id) + 16)), (void*)((void*)(size_t)((id) * 11 + 17)), (uint64_t)(((uint64_t)(id) << 40) + 18)); MC_ASSERT(r == (void*)((void*)(size_t)((id) * 5 + 18)), "a task delivered the wrong result"); } break;
    case 37: NEWFRAME(v_void_18, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10), (float)((float)((id) + 11.25)), (short)((short)(-(id) - 12)), (long)(-(long)(id) * 100003L - 13), (int)((id) * 3 + 14), (double)((id) * 0.5 + 15), (char)((char)((id) + 16)), (void*)((void*)(size_t)((id) * 11 + 17)), (uint64_t)(((uint64_t)(id) << 40) + 18)); break;
#endif
#if MAX_ARITY >= 19
    case 38: { char r = NEWFRAME(v_leaf_19, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11)), (long)(-(long)(id) * 100003L - 12), (int)((id) * 3 + 13), (double)((id) * 0.5 + 14), (char)((char)((id) + 15)), (void*)((void*)(size_t)((id) * 11 + 16)), (uint64_t)(((uint64_t)(id) << 40) + 17), (float)((float)((id) + 18.25)), (short)((short)(-(id) - 19))); MC_ASSERT(r == (char)((char)((id) + 19)), "a task delivered the wrong result"); } break;
    case 39: NEWFRAME(v_void_19, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11)), (long)(-(long)(id) * 100003L - 12), (int)((id) * 3 + 13), (double)((id) * 0.5 + 14), (char)((char)((id) + 15)), (void*)((void*)(size_t)((id) * 11 + 16)), (uint64_t)(((uint64_t)(id) << 40) + 17), (float)((float)((id) + 18.25)), (short)((short)(-(id) - 19))); break;
#endif
#if MAX_ARITY >= 20
    case 40: { int r = NEWFRAME(v_leaf_20, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12), (double)((id) * 0.5 + 13), (char)((char)((id) + 14)), (void*)((void*)(size_t)((id) * 11 + 15)), (uint64_t)(((uint64_t)(id) << 40) + 16), (float)((float)((id) + 17.25)), (short)((short)(-(id) - 18)), (long)(-(long)(id) * 100003L - 19), (int)((id) * 3 + 20)); MC_ASSERT(r == (int)((id) * 7 + 20), "a task delivered the wrong result"); } break;
    case 41: NEWFRAME(v_void_20, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12), (double)((id) * 0.5 + 13), (char)((char)((id) + 14)), (void*)((void*)(size_t)((id) * 11 + 15)), (uint64_t)(((uint64_t)(id) << 40) + 16), (float)((float)((id) + 17.25)), (short)((short)(-(id) - 18)), (long)(-(long)(id) * 100003L - 19), (int)((id) * 3 + 20)); break;
#endif
#if MAX_ARITY >= 21
    case 42: { double r = NEWFRAME(v_leaf_21, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13)), (void*)((void*)(size_t)((id) * 11 + 14)), (uint64_t)(((uint64_t)(id) << 40) + 15), (float)((float)((id) + 16.25)), (short)((short)(-(id) - 17)), (long)(-(long)(id) * 100003L - 18), (int)((id) * 3 + 19), (double)((id) * 0.5 + 20), (char)((char)((id) + 21))); MC_ASSERT(r == (double)((id) * 0.125 + 21), "a task delivered the wrong result"); } break;
    case 43: NEWFRAME(v_void_21, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13)), (void*)((void*)(size_t)((id) * 11 + 14)), (uint64_t)(((uint64_t)(id) << 40) + 15), (float)((float)((id) + 16.25)), (short)((short)(-(id) - 17)), (long)(-(long)(id) * 100003L - 18), (int)((id) * 3 + 19), (double)((id) * 0.5 + 20), (char)((char)((id) + 21))); break;
#endif
#if MAX_ARITY >= 22
    case 44: { uint64_t r = NEWFRAME(v_leaf_22, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14), (float)((float)((id) + 15.25)), (short)((short)(-(id) - 16)), (long)(-(long)(id) * 100003L - 17), (int)((id) * 3 + 18), (double)((id) * 0.5 + 19), (char)((char)((id) + 20)), (void*)((void*)(size_t)((id) * 11 + 21)), (uint64_t)(((uint64_t)(id) << 40) + 22)); MC_ASSERT(r == (uint64_t)(((uint64_t)(id) << 33) + 22), "a task delivered the wrong result"); } break;
    case 45: NEWFRAME(v_void_22, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14), (float)((float)((id) + 15.25)), (short)((short)(-(id) - 16)), (long)(-(long)(id) * 100003L - 17), (int)((id) * 3 + 18), (double)((id) * 0.5 + 19), (char)((char)((id) + 20)), (void*)((void*)(size_t)((id) * 11 + 21)), (uint64_t)(((uint64_t)(id) << 40) + 22)); break;
#endif
    }
    (void)id;
}
static void v_together(int v, int id)
{
    switch (v) {
#if MAX_ARITY >= 0
    case 0: TOGETHER(v_leaf_0); break;
    case 1: TOGETHER(v_void_0); break;
#endif
#if MAX_ARITY >= 1
    case 2: TOGETHER(v_leaf_1, (char)((char)((id) + 1))); break;
    case 3: TOGETHER(v_void_1, (char)((char)((id) + 1))); break;
#endif
#if MAX_ARITY >= 2
    case 4: TOGETHER(v_leaf_2, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2)); break;
    case 5: TOGETHER(v_void_2, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2)); break;
#endif
#if MAX_ARITY >= 3
    case 6: TOGETHER(v_leaf_3, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3))); break;
    case 7: TOGETHER(v_void_3, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3))); break;
#endif
#if MAX_ARITY >= 4
    case 8: TOGETHER(v_leaf_4, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4)); break;
    case 9: TOGETHER(v_void_4, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4)); break;
#endif
#if MAX_ARITY >= 5
    case 10: TOGETHER(v_leaf_5, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5))); break;
    case 11: TOGETHER(v_void_5, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5))); break;
#endif
#if MAX_ARITY >= 6
    case 12: TOGETHER(v_leaf_6, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6)); break;
    case 13: TOGETHER(v_void_6, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6)); break;
#endif
#if MAX_ARITY >= 7
    case 14: TOGETHER(v_leaf_7, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7))); break;
    case 15: TOGETHER(v_void_7, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7))); break;
#endif
#if MAX_ARITY >= 8
    case 16: TOGETHER(v_leaf_8, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8)); break;
    case 17: TOGETHER(v_void_8, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8)); break;
#endif
#if MAX_ARITY >= 9
    case 18: TOGETHER(v_leaf_9, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9))); break;
    case 19: TOGETHER(v_void_9, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9))); break;
#endif
#if MAX_ARITY >= 10
    case 20: TOGETHER(v_leaf_10, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10)); break;
    case 21: TOGETHER(v_void_10, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10)); break;
#endif
#if MAX_ARITY >= 11
    case 22: TOGETHER(v_leaf_11, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11))); break;
    case 23: TOGETHER(v_void_11, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11))); break;
#endif
#if MAX_ARITY >= 12
    case 24: TOGETHER(v_leaf_12, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12)); break;
    case 25: TOGETHER(v_void_12, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12)); break;
#endif
#if MAX_ARITY >= 13
    case 26: TOGETHER(v_leaf_13, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13))); break;
    case 27: TOGETHER(v_void_13, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13))); break;
#endif
#if MAX_ARITY >= 14
    case 28: TOGETHER(v_leaf_14, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14)); break;
    case 29: TOGETHER(v_void_14, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14)); break;
#endif
#if MAX_ARITY >= 15
    case 30: TOGETHER(v_leaf_15, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7)), (long)(-(long)(id) * 100003L - 8), (int)((id) * 3 + 9), (double)((id) * 0.5 + 10), (char)((char)((id) + 11)), (void*)((void*)(size_t)((id) * 11 + 12)), (uint64_t)(((uint64_t)(id) << 40) + 13), (float)((float)((id) + 14.25)), (short)((short)(-(id) - 15))); break;
    case 31: TOGETHER(v_void_15, (int)((id) * 3 + 1), (double)((id) * 0.5 + 2), (char)((char)((id) + 3)), (void*)((void*)(size_t)((id) * 11 + 4)), (uint64_t)(((uint64_t)(id) << 40) + 5), (float)((float)((id) + 6.25)), (short)((short)(-(id) - 7)), (long)(-(long)(id) * 100003L - 8), (int)((id) * 3 + 9), (double)((id) * 0.5 + 10), (char)((char)((id) + 11)), (void*)((void*)(size_t)((id) * 11 + 12)), (uint64_t)(((uint64_t)(id) << 40) + 13), (float)((float)((id) + 14.25)), (short)((short)(-(id) - 15))); break;
#endif
#if MAX_ARITY >= 16
    case 32: TOGETHER(v_leaf_16, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8), (double)((id) * 0.5 + 9), (char)((char)((id) + 10)), (void*)((void*)(size_t)((id) * 11 + 11)), (uint64_t)(((uint64_t)(id) << 40) + 12), (float)((float)((id) + 13.25)), (short)((short)(-(id) - 14)), (long)(-(long)(id) * 100003L - 15), (int)((id) * 3 + 16)); break;
    case 33: TOGETHER(v_void_16, (double)((id) * 0.5 + 1), (char)((char)((id) + 2)), (void*)((void*)(size_t)((id) * 11 + 3)), (uint64_t)(((uint64_t)(id) << 40) + 4), (float)((float)((id) + 5.25)), (short)((short)(-(id) - 6)), (long)(-(long)(id) * 100003L - 7), (int)((id) * 3 + 8), (double)((id) * 0.5 + 9), (char)((char)((id) + 10)), (void*)((void*)(size_t)((id) * 11 + 11)), (uint64_t)(((uint64_t)(id) << 40) + 12), (float)((float)((id) + 13.25)), (short)((short)(-(id) - 14)), (long)(-(long)(id) * 100003L - 15), (int)((id) * 3 + 16)); break;
#endif
#if MAX_ARITY >= 17
    case 34: TOGETHER(v_leaf_17, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9)), (void*)((void*)(size_t)((id) * 11 + 10)), (uint64_t)(((uint64_t)(id) << 40) + 11), (float)((float)((id) + 12.25)), (short)((short)(-(id) - 13)), (long)(-(long)(id) * 100003L - 14), (int)((id) * 3 + 15), (double)((id) * 0.5 + 16), (char)((char)((id) + 17))); break;
    case 35: TOGETHER(v_void_17, (char)((char)((id) + 1)), (void*)((void*)(size_t)((id) * 11 + 2)), (uint64_t)(((uint64_t)(id) << 40) + 3), (float)((float)((id) + 4.25)), (short)((short)(-(id) - 5)), (long)(-(long)(id) * 100003L - 6), (int)((id) * 3 + 7), (double)((id) * 0.5 + 8), (char)((char)((id) + 9)), (void*)((void*)(size_t)((id) * 11 + 10)), (uint64_t)(((uint64_t)(id) << 40) + 11), (float)((float)((id) + 12.25)), (short)((short)(-(id) - 13)), (long)(-(long)(id) * 100003L - 14), (int)((id) * 3 + 15), (double)((id) * 0.5 + 16), (char)((char)((id) + 17))); break;
#endif
#if MAX_ARITY >= 18
    case 36: TOGETHER(v_leaf_18, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10), (float)((float)((id) + 11.25)), (short)((short)(-(id) - 12)), (long)(-(long)(id) * 100003L - 13), (int)((id) * 3 + 14), (double)((id) * 0.5 + 15), (char)((char)((id) + 16)), (void*)((void*)(size_t)((id) * 11 + 17)), (uint64_t)(((uint64_t)(id) << 40) + 18)); break;
    case 37: TOGETHER(v_void_18, (void*)((void*)(size_t)((id) * 11 + 1)), (uint64_t)(((uint64_t)(id) << 40) + 2), (float)((float)((id) + 3.25)), (short)((short)(-(id) - 4)), (long)(-(long)(id) * 100003L - 5), (int)((id) * 3 + 6), (double)((id) * 0.5 + 7), (char)((char)((id) + 8)), (void*)((void*)(size_t)((id) * 11 + 9)), (uint64_t)(((uint64_t)(id) << 40) + 10), (float)((float)((id) + 11.25)), (short)((short)(-(id) - 12)), (long)(-(long)(id) * 100003L - 13), (int)((id) * 3 + 14), (double)((id) * 0.5 + 15), (char)((char)((id) + 16)), (void*)((void*)(size_t)((id) * 11 + 17)), (uint64_t)(((uint64_t)(id) << 40) + 18)); break;
#endif
#if MAX_ARITY >= 19
    case 38: TOGETHER(v_leaf_19, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11)), (long)(-(long)(id) * 100003L - 12), (int)((id) * 3 + 13), (double)((id) * 0.5 + 14), (char)((char)((id) + 15)), (void*)((void*)(size_t)((id) * 11 + 16)), (uint64_t)(((uint64_t)(id) << 40) + 17), (float)((float)((id) + 18.25)), (short)((short)(-(id) - 19))); break;
    case 39: TOGETHER(v_void_19, (uint64_t)(((uint64_t)(id) << 40) + 1), (float)((float)((id) + 2.25)), (short)((short)(-(id) - 3)), (long)(-(long)(id) * 100003L - 4), (int)((id) * 3 + 5), (double)((id) * 0.5 + 6), (char)((char)((id) + 7)), (void*)((void*)(size_t)((id) * 11 + 8)), (uint64_t)(((uint64_t)(id) << 40) + 9), (float)((float)((id) + 10.25)), (short)((short)(-(id) - 11)), (long)(-(long)(id) * 100003L - 12), (int)((id) * 3 + 13), (double)((id) * 0.5 + 14), (char)((char)((id) + 15)), (void*)((void*)(size_t)((id) * 11 + 16)), (uint64_t)(((uint64_t)(id) << 40) + 17), (float)((float)((id) + 18.25)), (short)((short)(-(id) - 19))); break;
#endif
#if MAX_ARITY >= 20
    case 40: TOGETHER(v_leaf_20, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12), (double)((id) * 0.5 + 13), (char)((char)((id) + 14)), (void*)((void*)(size_t)((id) * 11 + 15)), (uint64_t)(((uint64_t)(id) << 40) + 16), (float)((float)((id) + 17.25)), (short)((short)(-(id) - 18)), (long)(-(long)(id) * 100003L - 19), (int)((id) * 3 + 20)); break;
    case 41: TOGETHER(v_void_20, (float)((float)((id) + 1.25)), (short)((short)(-(id) - 2)), (long)(-(long)(id) * 100003L - 3), (int)((id) * 3 + 4), (double)((id) * 0.5 + 5), (char)((char)((id) + 6)), (void*)((void*)(size_t)((id) * 11 + 7)), (uint64_t)(((uint64_t)(id) << 40) + 8), (float)((float)((id) + 9.25)), (short)((short)(-(id) - 10)), (long)(-(long)(id) * 100003L - 11), (int)((id) * 3 + 12), (double)((id) * 0.5 + 13), (char)((char)((id) + 14)), (void*)((void*)(size_t)((id) * 11 + 15)), (uint64_t)(((uint64_t)(id) << 40) + 16), (float)((float)((id) + 17.25)), (short)((short)(-(id) - 18)), (long)(-(long)(id) * 100003L - 19), (int)((id) * 3 + 20)); break;
#endif
#if MAX_ARITY >= 21
    case 42: TOGETHER(v_leaf_21, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13)), (void*)((void*)(size_t)((id) * 11 + 14)), (uint64_t)(((uint64_t)(id) << 40) + 15), (float)((float)((id) + 16.25)), (short)((short)(-(id) - 17)), (long)(-(long)(id) * 100003L - 18), (int)((id) * 3 + 19), (double)((id) * 0.5 + 20), (char)((char)((id) + 21))); break;
    case 43: TOGETHER(v_void_21, (short)((short)(-(id) - 1)), (long)(-(long)(id) * 100003L - 2), (int)((id) * 3 + 3), (double)((id) * 0.5 + 4), (char)((char)((id) + 5)), (void*)((void*)(size_t)((id) * 11 + 6)), (uint64_t)(((uint64_t)(id) << 40) + 7), (float)((float)((id) + 8.25)), (short)((short)(-(id) - 9)), (long)(-(long)(id) * 100003L - 10), (int)((id) * 3 + 11), (double)((id) * 0.5 + 12), (char)((char)((id) + 13)), (void*)((void*)(size_t)((id) * 11 + 14)), (uint64_t)(((uint64_t)(id) << 40) + 15), (float)((float)((id) + 16.25)), (short)((short)(-(id) - 17)), (long)(-(long)(id) * 100003L - 18), (int)((id) * 3 + 19), (double)((id) * 0.5 + 20), (char)((char)((id) + 21))); break;
#endif
#if MAX_ARITY >= 22
    case 44: TOGETHER(v_leaf_22, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14), (float)((float)((id) + 15.25)), (short)((short)(-(id) - 16)), (long)(-(long)(id) * 100003L - 17), (int)((id) * 3 + 18), (double)((id) * 0.5 + 19), (char)((char)((id) + 20)), (void*)((void*)(size_t)((id) * 11 + 21)), (uint64_t)(((uint64_t)(id) << 40) + 22)); break;
    case 45: TOGETHER(v_void_22, (long)(-(long)(id) * 100003L - 1), (int)((id) * 3 + 2), (double)((id) * 0.5 + 3), (char)((char)((id) + 4)), (void*)((void*)(size_t)((id) * 11 + 5)), (uint64_t)(((uint64_t)(id) << 40) + 6), (float)((float)((id) + 7.25)), (short)((short)(-(id) - 8)), (long)(-(long)(id) * 100003L - 9), (int)((id) * 3 + 10), (double)((id) * 0.5 + 11), (char)((char)((id) + 12)), (void*)((void*)(size_t)((id) * 11 + 13)), (uint64_t)(((uint64_t)(id) << 40) + 14), (float)((float)((id) + 15.25)), (short)((short)(-(id) - 16)), (long)(-(long)(id) * 100003L - 17), (int)((id) * 3 + 18), (double)((id) * 0.5 + 19), (char)((char)((id) + 20)), (void*)((void*)(size_t)((id) * 11 + 21)), (uint64_t)(((uint64_t)(id) << 40) + 22)); break;
#endif
    }
    (void)id;
}
