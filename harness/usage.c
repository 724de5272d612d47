/* Generated by tools/gen_variants.py. Every macro of every arity, as a program uses them. */
#include LACE_HEADER
#if MAX_ARITY >= 0
TASK_DECL_0(int, d0)
VOID_TASK_DECL_0(e0)
TASK_IMPL_0(int, d0) { return 0; }
VOID_TASK_IMPL_0(e0) { }
TASK_0(long, f0) { return 0; }
VOID_TASK_0(g0) { }
TASK_0(long, use0) {
    long r = 0;
    SPAWN(d0); SPAWN(d0); DROP(); r += SYNC(d0); r += CALL(d0); r += RUN(d0); r += NEWFRAME(d0); TOGETHER(d0); r += WRAP(TASK(d0));
    SPAWN(e0); SPAWN(e0); DROP(); SYNC(e0); CALL(e0); RUN(e0); NEWFRAME(e0); TOGETHER(e0); WRAP(TASK(e0));
    SPAWN(f0); SPAWN(f0); DROP(); r += SYNC(f0); r += CALL(f0); r += RUN(f0); r += NEWFRAME(f0); TOGETHER(f0); r += WRAP(TASK(f0));
    SPAWN(g0); SPAWN(g0); DROP(); SYNC(g0); CALL(g0); RUN(g0); NEWFRAME(g0); TOGETHER(g0); WRAP(TASK(g0));
    return r;
}
long out0(void) { RUN(e0); TOGETHER(g0); NEWFRAME(g0); RUNEX(g0); return RUN(use0) + RUNEX(d0) + NEWFRAME(f0); }
#endif
#if MAX_ARITY >= 1
TASK_DECL_1(int, d1, long)
VOID_TASK_DECL_1(e1, long)
TASK_IMPL_1(int, d1, long, a1) { return (int)a1; }
VOID_TASK_IMPL_1(e1, long, a1) { }
TASK_1(long, f1, long, a1) { return a1; }
VOID_TASK_1(g1, long, a1) { }
TASK_0(long, use1) {
    long r = 0;
    SPAWN(d1, 1); SPAWN(d1, 1); DROP(); r += SYNC(d1); r += CALL(d1, 1); r += RUN(d1, 1); r += NEWFRAME(d1, 1); TOGETHER(d1, 1); r += WRAP(TASK(d1), 1);
    SPAWN(e1, 1); SPAWN(e1, 1); DROP(); SYNC(e1); CALL(e1, 1); RUN(e1, 1); NEWFRAME(e1, 1); TOGETHER(e1, 1); WRAP(TASK(e1), 1);
    SPAWN(f1, 1); SPAWN(f1, 1); DROP(); r += SYNC(f1); r += CALL(f1, 1); r += RUN(f1, 1); r += NEWFRAME(f1, 1); TOGETHER(f1, 1); r += WRAP(TASK(f1), 1);
    SPAWN(g1, 1); SPAWN(g1, 1); DROP(); SYNC(g1); CALL(g1, 1); RUN(g1, 1); NEWFRAME(g1, 1); TOGETHER(g1, 1); WRAP(TASK(g1), 1);
    return r;
}
long out1(void) { RUN(e1, 1); TOGETHER(g1, 1); NEWFRAME(g1, 1); RUNEX(g1, 1); return RUN(use1) + RUNEX(d1, 1) + NEWFRAME(f1, 1); }
#endif
#if MAX_ARITY >= 2
TASK_DECL_2(int, d2, long, long)
VOID_TASK_DECL_2(e2, long, long)
TASK_IMPL_2(int, d2, long, a1, long, a2) { return (int)a2; }
VOID_TASK_IMPL_2(e2, long, a1, long, a2) { }
TASK_2(long, f2, long, a1, long, a2) { return a2; }
VOID_TASK_2(g2, long, a1, long, a2) { }
TASK_0(long, use2) {
    long r = 0;
    SPAWN(d2, 1, 2); SPAWN(d2, 1, 2); DROP(); r += SYNC(d2); r += CALL(d2, 1, 2); r += RUN(d2, 1, 2); r += NEWFRAME(d2, 1, 2); TOGETHER(d2, 1, 2); r += WRAP(TASK(d2), 1, 2);
    SPAWN(e2, 1, 2); SPAWN(e2, 1, 2); DROP(); SYNC(e2); CALL(e2, 1, 2); RUN(e2, 1, 2); NEWFRAME(e2, 1, 2); TOGETHER(e2, 1, 2); WRAP(TASK(e2), 1, 2);
    SPAWN(f2, 1, 2); SPAWN(f2, 1, 2); DROP(); r += SYNC(f2); r += CALL(f2, 1, 2); r += RUN(f2, 1, 2); r += NEWFRAME(f2, 1, 2); TOGETHER(f2, 1, 2); r += WRAP(TASK(f2), 1, 2);
    SPAWN(g2, 1, 2); SPAWN(g2, 1, 2); DROP(); SYNC(g2); CALL(g2, 1, 2); RUN(g2, 1, 2); NEWFRAME(g2, 1, 2); TOGETHER(g2, 1, 2); WRAP(TASK(g2), 1, 2);
    return r;
}
long out2(void) { RUN(e2, 1, 2); TOGETHER(g2, 1, 2); NEWFRAME(g2, 1, 2); RUNEX(g2, 1, 2); return RUN(use2) + RUNEX(d2, 1, 2) + NEWFRAME(f2, 1, 2); }
#endif
#if MAX_ARITY >= 3
TASK_DECL_3(int, d3, long, long, long)
VOID_TASK_DECL_3(e3, long, long, long)
TASK_IMPL_3(int, d3, long, a1, long, a2, long, a3) { return (int)a3; }
VOID_TASK_IMPL_3(e3, long, a1, long, a2, long, a3) { }
TASK_3(long, f3, long, a1, long, a2, long, a3) { return a3; }
VOID_TASK_3(g3, long, a1, long, a2, long, a3) { }
TASK_0(long, use3) {
    long r = 0;
    SPAWN(d3, 1, 2, 3); SPAWN(d3, 1, 2, 3); DROP(); r += SYNC(d3); r += CALL(d3, 1, 2, 3); r += RUN(d3, 1, 2, 3); r += NEWFRAME(d3, 1, 2, 3); TOGETHER(d3, 1, 2, 3); r += WRAP(TASK(d3), 1, 2, 3);
    SPAWN(e3, 1, 2, 3); SPAWN(e3, 1, 2, 3); DROP(); SYNC(e3); CALL(e3, 1, 2, 3); RUN(e3, 1, 2, 3); NEWFRAME(e3, 1, 2, 3); TOGETHER(e3, 1, 2, 3); WRAP(TASK(e3), 1, 2, 3);
    SPAWN(f3, 1, 2, 3); SPAWN(f3, 1, 2, 3); DROP(); r += SYNC(f3); r += CALL(f3, 1, 2, 3); r += RUN(f3, 1, 2, 3); r += NEWFRAME(f3, 1, 2, 3); TOGETHER(f3, 1, 2, 3); r += WRAP(TASK(f3), 1, 2, 3);
    SPAWN(g3, 1, 2, 3); SPAWN(g3, 1, 2, 3); DROP(); SYNC(g3); CALL(g3, 1, 2, 3); RUN(g3, 1, 2, 3); NEWFRAME(g3, 1, 2, 3); TOGETHER(g3, 1, 2, 3); WRAP(TASK(g3), 1, 2, 3);
    return r;
}
long out3(void) { RUN(e3, 1, 2, 3); TOGETHER(g3, 1, 2, 3); NEWFRAME(g3, 1, 2, 3); RUNEX(g3, 1, 2, 3); return RUN(use3) + RUNEX(d3, 1, 2, 3) + NEWFRAME(f3, 1, 2, 3); }
#endif
#if MAX_ARITY >= 4
TASK_DECL_4(int, d4, long, long, long, long)
VOID_TASK_DECL_4(e4, long, long, long, long)
TASK_IMPL_4(int, d4, long, a1, long, a2, long, a3, long, a4) { return (int)a4; }
VOID_TASK_IMPL_4(e4, long, a1, long, a2, long, a3, long, a4) { }
TASK_4(long, f4, long, a1, long, a2, long, a3, long, a4) { return a4; }
VOID_TASK_4(g4, long, a1, long, a2, long, a3, long, a4) { }
TASK_0(long, use4) {
    long r = 0;
    SPAWN(d4, 1, 2, 3, 4); SPAWN(d4, 1, 2, 3, 4); DROP(); r += SYNC(d4); r += CALL(d4, 1, 2, 3, 4); r += RUN(d4, 1, 2, 3, 4); r += NEWFRAME(d4, 1, 2, 3, 4); TOGETHER(d4, 1, 2, 3, 4); r += WRAP(TASK(d4), 1, 2, 3, 4);
    SPAWN(e4, 1, 2, 3, 4); SPAWN(e4, 1, 2, 3, 4); DROP(); SYNC(e4); CALL(e4, 1, 2, 3, 4); RUN(e4, 1, 2, 3, 4); NEWFRAME(e4, 1, 2, 3, 4); TOGETHER(e4, 1, 2, 3, 4); WRAP(TASK(e4), 1, 2, 3, 4);
    SPAWN(f4, 1, 2, 3, 4); SPAWN(f4, 1, 2, 3, 4); DROP(); r += SYNC(f4); r += CALL(f4, 1, 2, 3, 4); r += RUN(f4, 1, 2, 3, 4); r += NEWFRAME(f4, 1, 2, 3, 4); TOGETHER(f4, 1, 2, 3, 4); r += WRAP(TASK(f4), 1, 2, 3, 4);
    SPAWN(g4, 1, 2, 3, 4); SPAWN(g4, 1, 2, 3, 4); DROP(); SYNC(g4); CALL(g4, 1, 2, 3, 4); RUN(g4, 1, 2, 3, 4); NEWFRAME(g4, 1, 2, 3, 4); TOGETHER(g4, 1, 2, 3, 4); WRAP(TASK(g4), 1, 2, 3, 4);
    return r;
}
long out4(void) { RUN(e4, 1, 2, 3, 4); TOGETHER(g4, 1, 2, 3, 4); NEWFRAME(g4, 1, 2, 3, 4); RUNEX(g4, 1, 2, 3, 4); return RUN(use4) + RUNEX(d4, 1, 2, 3, 4) + NEWFRAME(f4, 1, 2, 3, 4); }
#endif
#if MAX_ARITY >= 5
TASK_DECL_5(int, d5, long, long, long, long, long)
VOID_TASK_DECL_5(e5, long, long, long, long, long)
TASK_IMPL_5(int, d5, long, a1, long, a2, long, a3, long, a4, long, a5) { return (int)a5; }
VOID_TASK_IMPL_5(e5, long, a1, long, a2, long, a3, long, a4, long, a5) { }
TASK_5(long, f5, long, a1, long, a2, long, a3, long, a4, long, a5) { return a5; }
VOID_TASK_5(g5, long, a1, long, a2, long, a3, long, a4, long, a5) { }
TASK_0(long, use5) {
    long r = 0;
    SPAWN(d5, 1, 2, 3, 4, 5); SPAWN(d5, 1, 2, 3, 4, 5); DROP(); r += SYNC(d5); r += CALL(d5, 1, 2, 3, 4, 5); r += RUN(d5, 1, 2, 3, 4, 5); r += NEWFRAME(d5, 1, 2, 3, 4, 5); TOGETHER(d5, 1, 2, 3, 4, 5); r += WRAP(TASK(d5), 1, 2, 3, 4, 5);
    SPAWN(e5, 1, 2, 3, 4, 5); SPAWN(e5, 1, 2, 3, 4, 5); DROP(); SYNC(e5); CALL(e5, 1, 2, 3, 4, 5); RUN(e5, 1, 2, 3, 4, 5); NEWFRAME(e5, 1, 2, 3, 4, 5); TOGETHER(e5, 1, 2, 3, 4, 5); WRAP(TASK(e5), 1, 2, 3, 4, 5);
    SPAWN(f5, 1, 2, 3, 4, 5); SPAWN(f5, 1, 2, 3, 4, 5); DROP(); r += SYNC(f5); r += CALL(f5, 1, 2, 3, 4, 5); r += RUN(f5, 1, 2, 3, 4, 5); r += NEWFRAME(f5, 1, 2, 3, 4, 5); TOGETHER(f5, 1, 2, 3, 4, 5); r += WRAP(TASK(f5), 1, 2, 3, 4, 5);
    SPAWN(g5, 1, 2, 3, 4, 5); SPAWN(g5, 1, 2, 3, 4, 5); DROP(); SYNC(g5); CALL(g5, 1, 2, 3, 4, 5); RUN(g5, 1, 2, 3, 4, 5); NEWFRAME(g5, 1, 2, 3, 4, 5); TOGETHER(g5, 1, 2, 3, 4, 5); WRAP(TASK(g5), 1, 2, 3, 4, 5);
    return r;
}
long out5(void) { RUN(e5, 1, 2, 3, 4, 5); TOGETHER(g5, 1, 2, 3, 4, 5); NEWFRAME(g5, 1, 2, 3, 4, 5); RUNEX(g5, 1, 2, 3, 4, 5); return RUN(use5) + RUNEX(d5, 1, 2, 3, 4, 5) + NEWFRAME(f5, 1, 2, 3, 4, 5); }
#endif
#if MAX_ARITY >= 6
TASK_DECL_6(int, d6, long, long, long, long, long, long)
VOID_TASK_DECL_6(e6, long, long, long, long, long, long)
TASK_IMPL_6(int, d6, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6) { return (int)a6; }
VOID_TASK_IMPL_6(e6, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6) { }
TASK_6(long, f6, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6) { return a6; }
VOID_TASK_6(g6, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6) { }
TASK_0(long, use6) {
    long r = 0;
    SPAWN(d6, 1, 2, 3, 4, 5, 6); SPAWN(d6, 1, 2, 3, 4, 5, 6); DROP(); r += SYNC(d6); r += CALL(d6, 1, 2, 3, 4, 5, 6); r += RUN(d6, 1, 2, 3, 4, 5, 6); r += NEWFRAME(d6, 1, 2, 3, 4, 5, 6); TOGETHER(d6, 1, 2, 3, 4, 5, 6); r += WRAP(TASK(d6), 1, 2, 3, 4, 5, 6);
    SPAWN(e6, 1, 2, 3, 4, 5, 6); SPAWN(e6, 1, 2, 3, 4, 5, 6); DROP(); SYNC(e6); CALL(e6, 1, 2, 3, 4, 5, 6); RUN(e6, 1, 2, 3, 4, 5, 6); NEWFRAME(e6, 1, 2, 3, 4, 5, 6); TOGETHER(e6, 1, 2, 3, 4, 5, 6); WRAP(TASK(e6), 1, 2, 3, 4, 5, 6);
    SPAWN(f6, 1, 2, 3, 4, 5, 6); SPAWN(f6, 1, 2, 3, 4, 5, 6); DROP(); r += SYNC(f6); r += CALL(f6, 1, 2, 3, 4, 5, 6); r += RUN(f6, 1, 2, 3, 4, 5, 6); r += NEWFRAME(f6, 1, 2, 3, 4, 5, 6); TOGETHER(f6, 1, 2, 3, 4, 5, 6); r += WRAP(TASK(f6), 1, 2, 3, 4, 5, 6);
    SPAWN(g6, 1, 2, 3, 4, 5, 6); SPAWN(g6, 1, 2, 3, 4, 5, 6); DROP(); SYNC(g6); CALL(g6, 1, 2, 3, 4, 5, 6); RUN(g6, 1, 2, 3, 4, 5, 6); NEWFRAME(g6, 1, 2, 3, 4, 5, 6); TOGETHER(g6, 1, 2, 3, 4, 5, 6); WRAP(TASK(g6), 1, 2, 3, 4, 5, 6);
    return r;
}
long out6(void) { RUN(e6, 1, 2, 3, 4, 5, 6); TOGETHER(g6, 1, 2, 3, 4, 5, 6); NEWFRAME(g6, 1, 2, 3, 4, 5, 6); RUNEX(g6, 1, 2, 3, 4, 5, 6); return RUN(use6) + RUNEX(d6, 1, 2, 3, 4, 5, 6) + NEWFRAME(f6, 1, 2, 3, 4, 5, 6); }
#endif
#if MAX_ARITY >= 7
TASK_DECL_7(int, d7, long, long, long, long, long, long, long)
VOID_TASK_DECL_7(e7, long, long, long, long, long, long, long)
TASK_IMPL_7(int, d7, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7) { return (int)a7; }
VOID_TASK_IMPL_7(e7, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7) { }
TASK_7(long, f7, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7) { return a7; }
VOID_TASK_7(g7, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7) { }
TASK_0(long, use7) {
    long r = 0;
    SPAWN(d7, 1, 2, 3, 4, 5, 6, 7); SPAWN(d7, 1, 2, 3, 4, 5, 6, 7); DROP(); r += SYNC(d7); r += CALL(d7, 1, 2, 3, 4, 5, 6, 7); r += RUN(d7, 1, 2, 3, 4, 5, 6, 7); r += NEWFRAME(d7, 1, 2, 3, 4, 5, 6, 7); TOGETHER(d7, 1, 2, 3, 4, 5, 6, 7); r += WRAP(TASK(d7), 1, 2, 3, 4, 5, 6, 7);
    SPAWN(e7, 1, 2, 3, 4, 5, 6, 7); SPAWN(e7, 1, 2, 3, 4, 5, 6, 7); DROP(); SYNC(e7); CALL(e7, 1, 2, 3, 4, 5, 6, 7); RUN(e7, 1, 2, 3, 4, 5, 6, 7); NEWFRAME(e7, 1, 2, 3, 4, 5, 6, 7); TOGETHER(e7, 1, 2, 3, 4, 5, 6, 7); WRAP(TASK(e7), 1, 2, 3, 4, 5, 6, 7);
    SPAWN(f7, 1, 2, 3, 4, 5, 6, 7); SPAWN(f7, 1, 2, 3, 4, 5, 6, 7); DROP(); r += SYNC(f7); r += CALL(f7, 1, 2, 3, 4, 5, 6, 7); r += RUN(f7, 1, 2, 3, 4, 5, 6, 7); r += NEWFRAME(f7, 1, 2, 3, 4, 5, 6, 7); TOGETHER(f7, 1, 2, 3, 4, 5, 6, 7); r += WRAP(TASK(f7), 1, 2, 3, 4, 5, 6, 7);
    SPAWN(g7, 1, 2, 3, 4, 5, 6, 7); SPAWN(g7, 1, 2, 3, 4, 5, 6, 7); DROP(); SYNC(g7); CALL(g7, 1, 2, 3, 4, 5, 6, 7); RUN(g7, 1, 2, 3, 4, 5, 6, 7); NEWFRAME(g7, 1, 2, 3, 4, 5, 6, 7); TOGETHER(g7, 1, 2, 3, 4, 5, 6, 7); WRAP(TASK(g7), 1, 2, 3, 4, 5, 6, 7);
    return r;
}
long out7(void) { RUN(e7, 1, 2, 3, 4, 5, 6, 7); TOGETHER(g7, 1, 2, 3, 4, 5, 6, 7); NEWFRAME(g7, 1, 2, 3, 4, 5, 6, 7); RUNEX(g7, 1, 2, 3, 4, 5, 6, 7); return RUN(use7) + RUNEX(d7, 1, 2, 3, 4, 5, 6, 7) + NEWFRAME(f7, 1, 2, 3, 4, 5, 6, 7); }
#endif
#if MAX_ARITY >= 8
TASK_DECL_8(int, d8, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_8(e8, long, long, long, long, long, long, long, long)
TASK_IMPL_8(int, d8, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8) { return (int)a8; }
VOID_TASK_IMPL_8(e8, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8) { }
TASK_8(long, f8, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8) { return a8; }
VOID_TASK_8(g8, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8) { }
TASK_0(long, use8) {
    long r = 0;
    SPAWN(d8, 1, 2, 3, 4, 5, 6, 7, 8); SPAWN(d8, 1, 2, 3, 4, 5, 6, 7, 8); DROP(); r += SYNC(d8); r += CALL(d8, 1, 2, 3, 4, 5, 6, 7, 8); r += RUN(d8, 1, 2, 3, 4, 5, 6, 7, 8); r += NEWFRAME(d8, 1, 2, 3, 4, 5, 6, 7, 8); TOGETHER(d8, 1, 2, 3, 4, 5, 6, 7, 8); r += WRAP(TASK(d8), 1, 2, 3, 4, 5, 6, 7, 8);
    SPAWN(e8, 1, 2, 3, 4, 5, 6, 7, 8); SPAWN(e8, 1, 2, 3, 4, 5, 6, 7, 8); DROP(); SYNC(e8); CALL(e8, 1, 2, 3, 4, 5, 6, 7, 8); RUN(e8, 1, 2, 3, 4, 5, 6, 7, 8); NEWFRAME(e8, 1, 2, 3, 4, 5, 6, 7, 8); TOGETHER(e8, 1, 2, 3, 4, 5, 6, 7, 8); WRAP(TASK(e8), 1, 2, 3, 4, 5, 6, 7, 8);
    SPAWN(f8, 1, 2, 3, 4, 5, 6, 7, 8); SPAWN(f8, 1, 2, 3, 4, 5, 6, 7, 8); DROP(); r += SYNC(f8); r += CALL(f8, 1, 2, 3, 4, 5, 6, 7, 8); r += RUN(f8, 1, 2, 3, 4, 5, 6, 7, 8); r += NEWFRAME(f8, 1, 2, 3, 4, 5, 6, 7, 8); TOGETHER(f8, 1, 2, 3, 4, 5, 6, 7, 8); r += WRAP(TASK(f8), 1, 2, 3, 4, 5, 6, 7, 8);
    SPAWN(g8, 1, 2, 3, 4, 5, 6, 7, 8); SPAWN(g8, 1, 2, 3, 4, 5, 6, 7, 8); DROP(); SYNC(g8); CALL(g8, 1, 2, 3, 4, 5, 6, 7, 8); RUN(g8, 1, 2, 3, 4, 5, 6, 7, 8); NEWFRAME(g8, 1, 2, 3, 4, 5, 6, 7, 8); TOGETHER(g8, 1, 2, 3, 4, 5, 6, 7, 8); WRAP(TASK(g8), 1, 2, 3, 4, 5, 6, 7, 8);
    return r;
}
long out8(void) { RUN(e8, 1, 2, 3, 4, 5, 6, 7, 8); TOGETHER(g8, 1, 2, 3, 4, 5, 6, 7, 8); NEWFRAME(g8, 1, 2, 3, 4, 5, 6, 7, 8); RUNEX(g8, 1, 2, 3, 4, 5, 6, 7, 8); return RUN(use8) + RUNEX(d8, 1, 2, 3, 4, 5, 6, 7, 8) + NEWFRAME(f8, 1, 2, 3, 4, 5, 6, 7, 8); }
#endif
#if MAX_ARITY >= 9
TASK_DECL_9(int, d9, long, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_9(e9, long, long, long, long, long, long, long, long, long)
TASK_IMPL_9(int, d9, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9) { return (int)a9; }
VOID_TASK_IMPL_9(e9, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9) { }
TASK_9(long, f9, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9) { return a9; }
VOID_TASK_9(g9, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9) { }
TASK_0(long, use9) {
    long r = 0;
    SPAWN(d9, 1, 2, 3, 4, 5, 6, 7, 8, 9); SPAWN(d9, 1, 2, 3, 4, 5, 6, 7, 8, 9); DROP(); r += SYNC(d9); r += CALL(d9, 1, 2, 3, 4, 5, 6, 7, 8, 9); r += RUN(d9, 1, 2, 3, 4, 5, 6, 7, 8, 9); r += NEWFRAME(d9, 1, 2, 3, 4, 5, 6, 7, 8, 9); TOGETHER(d9, 1, 2, 3, 4, 5, 6, 7, 8, 9); r += WRAP(TASK(d9), 1, 2, 3, 4, 5, 6, 7, 8, 9);
    SPAWN(e9, 1, 2, 3, 4, 5, 6, 7, 8, 9); SPAWN(e9, 1, 2, 3, 4, 5, 6, 7, 8, 9); DROP(); SYNC(e9); CALL(e9, 1, 2, 3, 4, 5, 6, 7, 8, 9); RUN(e9, 1, 2, 3, 4, 5, 6, 7, 8, 9); NEWFRAME(e9, 1, 2, 3, 4, 5, 6, 7, 8, 9); TOGETHER(e9, 1, 2, 3, 4, 5, 6, 7, 8, 9); WRAP(TASK(e9), 1, 2, 3, 4, 5, 6, 7, 8, 9);
    SPAWN(f9, 1, 2, 3, 4, 5, 6, 7, 8, 9); SPAWN(f9, 1, 2, 3, 4, 5, 6, 7, 8, 9); DROP(); r += SYNC(f9); r += CALL(f9, 1, 2, 3, 4, 5, 6, 7, 8, 9); r += RUN(f9, 1, 2, 3, 4, 5, 6, 7, 8, 9); r += NEWFRAME(f9, 1, 2, 3, 4, 5, 6, 7, 8, 9); TOGETHER(f9, 1, 2, 3, 4, 5, 6, 7, 8, 9); r += WRAP(TASK(f9), 1, 2, 3, 4, 5, 6, 7, 8, 9);
    SPAWN(g9, 1, 2, 3, 4, 5, 6, 7, 8, 9); SPAWN(g9, 1, 2, 3, 4, 5, 6, 7, 8, 9); DROP(); SYNC(g9); CALL(g9, 1, 2, 3, 4, 5, 6, 7, 8, 9); RUN(g9, 1, 2, 3, 4, 5, 6, 7, 8, 9); NEWFRAME(g9, 1, 2, 3, 4, 5, 6, 7, 8, 9); TOGETHER(g9, 1, 2, 3, 4, 5, 6, 7, 8, 9); WRAP(TASK(g9), 1, 2, 3, 4, 5, 6, 7, 8, 9);
    return r;
}
long out9(void) { RUN(e9, 1, 2, 3, 4, 5, 6, 7, 8, 9); TOGETHER(g9, 1, 2, 3, 4, 5, 6, 7, 8, 9); NEWFRAME(g9, 1, 2, 3, 4, 5, 6, 7, 8, 9); RUNEX(g9, 1, 2, 3, 4, 5, 6, 7, 8, 9); return RUN(use9) + RUNEX(d9, 1, 2, 3, 4, 5, 6, 7, 8, 9) + NEWFRAME(f9, 1, 2, 3, 4, 5, 6, 7, 8, 9); }
#endif
#if MAX_ARITY >= 10
TASK_DECL_10(int, d10, long, long, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_10(e10, long, long, long, long, long, long, long, long, long, long)
TASK_IMPL_10(int, d10, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10) { return (int)a10; }
VOID_TASK_IMPL_10(e10, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10) { }
TASK_10(long, f10, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10) { return a10; }
VOID_TASK_10(g10, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10) { }
TASK_0(long, use10) {
    long r = 0;
    SPAWN(d10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); SPAWN(d10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); DROP(); r += SYNC(d10); r += CALL(d10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); r += RUN(d10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); r += NEWFRAME(d10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); TOGETHER(d10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); r += WRAP(TASK(d10), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10);
    SPAWN(e10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); SPAWN(e10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); DROP(); SYNC(e10); CALL(e10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); RUN(e10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); NEWFRAME(e10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); TOGETHER(e10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); WRAP(TASK(e10), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10);
    SPAWN(f10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); SPAWN(f10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); DROP(); r += SYNC(f10); r += CALL(f10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); r += RUN(f10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); r += NEWFRAME(f10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); TOGETHER(f10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); r += WRAP(TASK(f10), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10);
    SPAWN(g10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); SPAWN(g10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); DROP(); SYNC(g10); CALL(g10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); RUN(g10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); NEWFRAME(g10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); TOGETHER(g10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); WRAP(TASK(g10), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10);
    return r;
}
long out10(void) { RUN(e10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); TOGETHER(g10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); NEWFRAME(g10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); RUNEX(g10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); return RUN(use10) + RUNEX(d10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10) + NEWFRAME(f10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); }
#endif
#if MAX_ARITY >= 11
TASK_DECL_11(int, d11, long, long, long, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_11(e11, long, long, long, long, long, long, long, long, long, long, long)
TASK_IMPL_11(int, d11, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11) { return (int)a11; }
VOID_TASK_IMPL_11(e11, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11) { }
TASK_11(long, f11, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11) { return a11; }
VOID_TASK_11(g11, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11) { }
TASK_0(long, use11) {
    long r = 0;
    SPAWN(d11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); SPAWN(d11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); DROP(); r += SYNC(d11); r += CALL(d11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); r += RUN(d11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); r += NEWFRAME(d11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); TOGETHER(d11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); r += WRAP(TASK(d11), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);
    SPAWN(e11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); SPAWN(e11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); DROP(); SYNC(e11); CALL(e11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); RUN(e11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); NEWFRAME(e11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); TOGETHER(e11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); WRAP(TASK(e11), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);
    SPAWN(f11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); SPAWN(f11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); DROP(); r += SYNC(f11); r += CALL(f11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); r += RUN(f11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); r += NEWFRAME(f11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); TOGETHER(f11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); r += WRAP(TASK(f11), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);
    SPAWN(g11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); SPAWN(g11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); DROP(); SYNC(g11); CALL(g11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); RUN(g11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); NEWFRAME(g11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); TOGETHER(g11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); WRAP(TASK(g11), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);
    return r;
}
long out11(void) { RUN(e11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); TOGETHER(g11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); NEWFRAME(g11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); RUNEX(g11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); return RUN(use11) + RUNEX(d11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11) + NEWFRAME(f11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); }
#endif
#if MAX_ARITY >= 12
TASK_DECL_12(int, d12, long, long, long, long, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_12(e12, long, long, long, long, long, long, long, long, long, long, long, long)
TASK_IMPL_12(int, d12, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12) { return (int)a12; }
VOID_TASK_IMPL_12(e12, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12) { }
TASK_12(long, f12, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12) { return a12; }
VOID_TASK_12(g12, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12) { }
TASK_0(long, use12) {
    long r = 0;
    SPAWN(d12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); SPAWN(d12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); DROP(); r += SYNC(d12); r += CALL(d12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); r += RUN(d12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); r += NEWFRAME(d12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); TOGETHER(d12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); r += WRAP(TASK(d12), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12);
    SPAWN(e12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); SPAWN(e12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); DROP(); SYNC(e12); CALL(e12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); RUN(e12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); NEWFRAME(e12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); TOGETHER(e12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); WRAP(TASK(e12), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12);
    SPAWN(f12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); SPAWN(f12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); DROP(); r += SYNC(f12); r += CALL(f12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); r += RUN(f12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); r += NEWFRAME(f12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); TOGETHER(f12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); r += WRAP(TASK(f12), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12);
    SPAWN(g12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); SPAWN(g12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); DROP(); SYNC(g12); CALL(g12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); RUN(g12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); NEWFRAME(g12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); TOGETHER(g12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); WRAP(TASK(g12), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12);
    return r;
}
long out12(void) { RUN(e12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); TOGETHER(g12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); NEWFRAME(g12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); RUNEX(g12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); return RUN(use12) + RUNEX(d12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12) + NEWFRAME(f12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); }
#endif
#if MAX_ARITY >= 13
TASK_DECL_13(int, d13, long, long, long, long, long, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_13(e13, long, long, long, long, long, long, long, long, long, long, long, long, long)
TASK_IMPL_13(int, d13, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13) { return (int)a13; }
VOID_TASK_IMPL_13(e13, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13) { }
TASK_13(long, f13, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13) { return a13; }
VOID_TASK_13(g13, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13) { }
TASK_0(long, use13) {
    long r = 0;
    SPAWN(d13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); SPAWN(d13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); DROP(); r += SYNC(d13); r += CALL(d13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); r += RUN(d13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); r += NEWFRAME(d13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); TOGETHER(d13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); r += WRAP(TASK(d13), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13);
    SPAWN(e13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); SPAWN(e13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); DROP(); SYNC(e13); CALL(e13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); RUN(e13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); NEWFRAME(e13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); TOGETHER(e13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); WRAP(TASK(e13), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13);
    SPAWN(f13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); SPAWN(f13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); DROP(); r += SYNC(f13); r += CALL(f13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); r += RUN(f13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); r += NEWFRAME(f13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); TOGETHER(f13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); r += WRAP(TASK(f13), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13);
    SPAWN(g13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); SPAWN(g13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); DROP(); SYNC(g13); CALL(g13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); RUN(g13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); NEWFRAME(g13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); TOGETHER(g13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); WRAP(TASK(g13), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13);
    return r;
}
long out13(void) { RUN(e13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); TOGETHER(g13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); NEWFRAME(g13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); RUNEX(g13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); return RUN(use13) + RUNEX(d13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13) + NEWFRAME(f13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); }
#endif
#if MAX_ARITY >= 14
TASK_DECL_14(int, d14, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_14(e14, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
TASK_IMPL_14(int, d14, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14) { return (int)a14; }
VOID_TASK_IMPL_14(e14, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14) { }
TASK_14(long, f14, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14) { return a14; }
VOID_TASK_14(g14, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14) { }
TASK_0(long, use14) {
    long r = 0;
    SPAWN(d14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); SPAWN(d14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); DROP(); r += SYNC(d14); r += CALL(d14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); r += RUN(d14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); r += NEWFRAME(d14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); TOGETHER(d14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); r += WRAP(TASK(d14), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14);
    SPAWN(e14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); SPAWN(e14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); DROP(); SYNC(e14); CALL(e14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); RUN(e14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); NEWFRAME(e14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); TOGETHER(e14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); WRAP(TASK(e14), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14);
    SPAWN(f14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); SPAWN(f14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); DROP(); r += SYNC(f14); r += CALL(f14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); r += RUN(f14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); r += NEWFRAME(f14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); TOGETHER(f14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); r += WRAP(TASK(f14), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14);
    SPAWN(g14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); SPAWN(g14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); DROP(); SYNC(g14); CALL(g14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); RUN(g14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); NEWFRAME(g14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); TOGETHER(g14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); WRAP(TASK(g14), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14);
    return r;
}
long out14(void) { RUN(e14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); TOGETHER(g14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); NEWFRAME(g14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); RUNEX(g14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); return RUN(use14) + RUNEX(d14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14) + NEWFRAME(f14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); }
#endif
#if MAX_ARITY >= 15
TASK_DECL_15(int, d15, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_15(e15, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
TASK_IMPL_15(int, d15, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15) { return (int)a15; }
VOID_TASK_IMPL_15(e15, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15) { }
TASK_15(long, f15, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15) { return a15; }
VOID_TASK_15(g15, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15) { }
TASK_0(long, use15) {
    long r = 0;
    SPAWN(d15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); SPAWN(d15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); DROP(); r += SYNC(d15); r += CALL(d15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); r += RUN(d15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); r += NEWFRAME(d15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); TOGETHER(d15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); r += WRAP(TASK(d15), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15);
    SPAWN(e15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); SPAWN(e15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); DROP(); SYNC(e15); CALL(e15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); RUN(e15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); NEWFRAME(e15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); TOGETHER(e15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); WRAP(TASK(e15), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15);
    SPAWN(f15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); SPAWN(f15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); DROP(); r += SYNC(f15); r += CALL(f15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); r += RUN(f15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); r += NEWFRAME(f15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); TOGETHER(f15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); r += WRAP(TASK(f15), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15);
    SPAWN(g15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); SPAWN(g15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); DROP(); SYNC(g15); CALL(g15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); RUN(g15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); NEWFRAME(g15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); TOGETHER(g15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); WRAP(TASK(g15), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15);
    return r;
}
long out15(void) { RUN(e15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); TOGETHER(g15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); NEWFRAME(g15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); RUNEX(g15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); return RUN(use15) + RUNEX(d15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15) + NEWFRAME(f15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
#endif
#if MAX_ARITY >= 16
TASK_DECL_16(int, d16, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_16(e16, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
TASK_IMPL_16(int, d16, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16) { return (int)a16; }
VOID_TASK_IMPL_16(e16, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16) { }
TASK_16(long, f16, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16) { return a16; }
VOID_TASK_16(g16, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16) { }
TASK_0(long, use16) {
    long r = 0;
    SPAWN(d16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); SPAWN(d16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); DROP(); r += SYNC(d16); r += CALL(d16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); r += RUN(d16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); r += NEWFRAME(d16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); TOGETHER(d16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); r += WRAP(TASK(d16), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16);
    SPAWN(e16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); SPAWN(e16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); DROP(); SYNC(e16); CALL(e16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); RUN(e16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); NEWFRAME(e16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); TOGETHER(e16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); WRAP(TASK(e16), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16);
    SPAWN(f16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); SPAWN(f16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); DROP(); r += SYNC(f16); r += CALL(f16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); r += RUN(f16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); r += NEWFRAME(f16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); TOGETHER(f16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); r += WRAP(TASK(f16), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16);
    SPAWN(g16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); SPAWN(g16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); DROP(); SYNC(g16); CALL(g16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); RUN(g16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); NEWFRAME(g16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); TOGETHER(g16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); WRAP(TASK(g16), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16);
    return r;
}
long out16(void) { RUN(e16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); TOGETHER(g16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); NEWFRAME(g16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); RUNEX(g16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); return RUN(use16) + RUNEX(d16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16) + NEWFRAME(f16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); }
#endif
#if MAX_ARITY >= 17
TASK_DECL_17(int, d17, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_17(e17, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
TASK_IMPL_17(int, d17, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17) { return (int)a17; }
VOID_TASK_IMPL_17(e17, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17) { }
TASK_17(long, f17, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17) { return a17; }
VOID_TASK_17(g17, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17) { }
TASK_0(long, use17) {
    long r = 0;
    SPAWN(d17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); SPAWN(d17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); DROP(); r += SYNC(d17); r += CALL(d17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); r += RUN(d17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); r += NEWFRAME(d17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); TOGETHER(d17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); r += WRAP(TASK(d17), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17);
    SPAWN(e17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); SPAWN(e17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); DROP(); SYNC(e17); CALL(e17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); RUN(e17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); NEWFRAME(e17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); TOGETHER(e17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); WRAP(TASK(e17), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17);
    SPAWN(f17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); SPAWN(f17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); DROP(); r += SYNC(f17); r += CALL(f17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); r += RUN(f17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); r += NEWFRAME(f17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); TOGETHER(f17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); r += WRAP(TASK(f17), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17);
    SPAWN(g17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); SPAWN(g17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); DROP(); SYNC(g17); CALL(g17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); RUN(g17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); NEWFRAME(g17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); TOGETHER(g17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); WRAP(TASK(g17), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17);
    return r;
}
long out17(void) { RUN(e17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); TOGETHER(g17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); NEWFRAME(g17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); RUNEX(g17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); return RUN(use17) + RUNEX(d17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17) + NEWFRAME(f17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17); }
#endif
#if MAX_ARITY >= 18
TASK_DECL_18(int, d18, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_18(e18, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
TASK_IMPL_18(int, d18, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18) { return (int)a18; }
VOID_TASK_IMPL_18(e18, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18) { }
TASK_18(long, f18, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18) { return a18; }
VOID_TASK_18(g18, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18) { }
TASK_0(long, use18) {
    long r = 0;
    SPAWN(d18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); SPAWN(d18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); DROP(); r += SYNC(d18); r += CALL(d18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); r += RUN(d18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); r += NEWFRAME(d18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); TOGETHER(d18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); r += WRAP(TASK(d18), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18);
    SPAWN(e18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); SPAWN(e18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); DROP(); SYNC(e18); CALL(e18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); RUN(e18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); NEWFRAME(e18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); TOGETHER(e18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); WRAP(TASK(e18), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18);
    SPAWN(f18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); SPAWN(f18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); DROP(); r += SYNC(f18); r += CALL(f18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); r += RUN(f18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); r += NEWFRAME(f18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); TOGETHER(f18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); r += WRAP(TASK(f18), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18);
    SPAWN(g18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); SPAWN(g18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); DROP(); SYNC(g18); CALL(g18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); RUN(g18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); NEWFRAME(g18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); TOGETHER(g18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); WRAP(TASK(g18), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18);
    return r;
}
long out18(void) { RUN(e18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); TOGETHER(g18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); NEWFRAME(g18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); RUNEX(g18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); return RUN(use18) + RUNEX(d18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18) + NEWFRAME(f18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18); }
#endif
#if MAX_ARITY >= 19
TASK_DECL_19(int, d19, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_19(e19, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
TASK_IMPL_19(int, d19, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19) { return (int)a19; }
VOID_TASK_IMPL_19(e19, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19) { }
TASK_19(long, f19, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19) { return a19; }
VOID_TASK_19(g19, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19) { }
TASK_0(long, use19) {
    long r = 0;
    SPAWN(d19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); SPAWN(d19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); DROP(); r += SYNC(d19); r += CALL(d19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); r += RUN(d19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); r += NEWFRAME(d19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); TOGETHER(d19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); r += WRAP(TASK(d19), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19);
    SPAWN(e19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); SPAWN(e19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); DROP(); SYNC(e19); CALL(e19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); RUN(e19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); NEWFRAME(e19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); TOGETHER(e19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); WRAP(TASK(e19), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19);
    SPAWN(f19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); SPAWN(f19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); DROP(); r += SYNC(f19); r += CALL(f19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); r += RUN(f19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); r += NEWFRAME(f19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); TOGETHER(f19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); r += WRAP(TASK(f19), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19);
    SPAWN(g19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); SPAWN(g19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); DROP(); SYNC(g19); CALL(g19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); RUN(g19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); NEWFRAME(g19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); TOGETHER(g19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); WRAP(TASK(g19), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19);
    return r;
}
long out19(void) { RUN(e19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); TOGETHER(g19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); NEWFRAME(g19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); RUNEX(g19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); return RUN(use19) + RUNEX(d19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19) + NEWFRAME(f19, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19); }
#endif
#if MAX_ARITY >= 20
TASK_DECL_20(int, d20, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_20(e20, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
TASK_IMPL_20(int, d20, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19, long, a20) { return (int)a20; }
VOID_TASK_IMPL_20(e20, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19, long, a20) { }
TASK_20(long, f20, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19, long, a20) { return a20; }
VOID_TASK_20(g20, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19, long, a20) { }
TASK_0(long, use20) {
    long r = 0;
    SPAWN(d20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); SPAWN(d20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); DROP(); r += SYNC(d20); r += CALL(d20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); r += RUN(d20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); r += NEWFRAME(d20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); TOGETHER(d20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); r += WRAP(TASK(d20), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20);
    SPAWN(e20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); SPAWN(e20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); DROP(); SYNC(e20); CALL(e20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); RUN(e20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); NEWFRAME(e20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); TOGETHER(e20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); WRAP(TASK(e20), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20);
    SPAWN(f20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); SPAWN(f20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); DROP(); r += SYNC(f20); r += CALL(f20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); r += RUN(f20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); r += NEWFRAME(f20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); TOGETHER(f20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); r += WRAP(TASK(f20), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20);
    SPAWN(g20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); SPAWN(g20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); DROP(); SYNC(g20); CALL(g20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); RUN(g20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); NEWFRAME(g20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); TOGETHER(g20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); WRAP(TASK(g20), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20);
    return r;
}
long out20(void) { RUN(e20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); TOGETHER(g20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); NEWFRAME(g20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); RUNEX(g20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); return RUN(use20) + RUNEX(d20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20) + NEWFRAME(f20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20); }
#endif
#if MAX_ARITY >= 21
TASK_DECL_21(int, d21, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_21(e21, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
TASK_IMPL_21(int, d21, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19, long, a20, long, a21) { return (int)a21; }
VOID_TASK_IMPL_21(e21, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19, long, a20, long, a21) { }
TASK_21(long, f21, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19, long, a20, long, a21) { return a21; }
VOID_TASK_21(g21, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19, long, a20, long, a21) { }
TASK_0(long, use21) {
    long r = 0;
    SPAWN(d21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); SPAWN(d21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); DROP(); r += SYNC(d21); r += CALL(d21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); r += RUN(d21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); r += NEWFRAME(d21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); TOGETHER(d21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); r += WRAP(TASK(d21), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21);
    SPAWN(e21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); SPAWN(e21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); DROP(); SYNC(e21); CALL(e21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); RUN(e21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); NEWFRAME(e21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); TOGETHER(e21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); WRAP(TASK(e21), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21);
    SPAWN(f21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); SPAWN(f21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); DROP(); r += SYNC(f21); r += CALL(f21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); r += RUN(f21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); r += NEWFRAME(f21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); TOGETHER(f21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); r += WRAP(TASK(f21), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21);
    SPAWN(g21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); SPAWN(g21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); DROP(); SYNC(g21); CALL(g21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); RUN(g21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); NEWFRAME(g21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); TOGETHER(g21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); WRAP(TASK(g21), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21);
    return r;
}
long out21(void) { RUN(e21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); TOGETHER(g21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); NEWFRAME(g21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); RUNEX(g21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); return RUN(use21) + RUNEX(d21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21) + NEWFRAME(f21, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21); }
#endif
#if MAX_ARITY >= 22
TASK_DECL_22(int, d22, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
VOID_TASK_DECL_22(e22, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long)
TASK_IMPL_22(int, d22, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19, long, a20, long, a21, long, a22) { return (int)a22; }
VOID_TASK_IMPL_22(e22, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19, long, a20, long, a21, long, a22) { }
TASK_22(long, f22, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19, long, a20, long, a21, long, a22) { return a22; }
VOID_TASK_22(g22, long, a1, long, a2, long, a3, long, a4, long, a5, long, a6, long, a7, long, a8, long, a9, long, a10, long, a11, long, a12, long, a13, long, a14, long, a15, long, a16, long, a17, long, a18, long, a19, long, a20, long, a21, long, a22) { }
TASK_0(long, use22) {
    long r = 0;
    SPAWN(d22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); SPAWN(d22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); DROP(); r += SYNC(d22); r += CALL(d22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); r += RUN(d22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); r += NEWFRAME(d22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); TOGETHER(d22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); r += WRAP(TASK(d22), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22);
    SPAWN(e22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); SPAWN(e22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); DROP(); SYNC(e22); CALL(e22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); RUN(e22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); NEWFRAME(e22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); TOGETHER(e22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); WRAP(TASK(e22), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22);
    SPAWN(f22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); SPAWN(f22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); DROP(); r += SYNC(f22); r += CALL(f22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); r += RUN(f22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); r += NEWFRAME(f22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); TOGETHER(f22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); r += WRAP(TASK(f22), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22);
    SPAWN(g22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); SPAWN(g22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); DROP(); SYNC(g22); CALL(g22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); RUN(g22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); NEWFRAME(g22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); TOGETHER(g22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); WRAP(TASK(g22), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22);
    return r;
}
long out22(void) { RUN(e22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); TOGETHER(g22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); NEWFRAME(g22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); RUNEX(g22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); return RUN(use22) + RUNEX(d22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22) + NEWFRAME(f22, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22); }
#endif
TASK_1(int, various, int, n) { { LACE_VARS; CALL(lace_steal_random); } LACE_MAKE_ALL_SHARED(); STEAL_RANDOM(); if (n) { TOGETHER(lace_steal_random); } return LACE_WORKER_ID + LACE_WORKER_PU + (int)lace_workers(); }
