// lmc: an explicit-state model checker for instrumented C code.
//
// The code under test (Lace plus a harness) is compiled with -fsanitize=thread and linked against this file
// instead of the ThreadSanitizer runtime, so every shared memory access, atomic and fence calls in here. Threads
// are fibers in one process; pthread, semaphore, memory and stdio calls are redirected to mc_* functions below.
// The whole state (globals, heap, stacks, registers, thread-local storage, store buffers) lives at fixed
// addresses and is saved, restored, hashed and compared, so the explorer enumerates the reachable states of the
// real compiled code.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <csignal>
#include <cerrno>
#include <ctime>
#include <link.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;
typedef unsigned __int128 u128;
#define EXP extern "C" __attribute__((noinline, used))
// the calling instruction; as a side effect the stack pointer of the program is noted: everything below it is dead
#define PC (T[CT].ssp = (u64)__builtin_frame_address(0) + 16, (u64)__builtin_return_address(0))

extern "C" {
extern char __start_sut_data[] __attribute__((weak));
extern char __stop_sut_data[] __attribute__((weak));
extern char __start_sut_bss[] __attribute__((weak));
extern char __stop_sut_bss[] __attribute__((weak));
void mc_main(void);
void mc_switch(void **save, void *to);
}
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

// ------------------------------------------------------------------ constants
static const int MAXT = 96;
static const int MAXLOG = 96;
static const int MAXBUF = 12;
static const int MAXBLK = 640;
static const u64 STK_BASE = 0x100000000000ULL, STK_SIZE = 0x40000;
static const u64 HEAP_BASE = 0x110000000000ULL, ARENA = 0x5000000ULL, HEAP_SIZE = MAXT * ARENA; // one arena per thread: addresses do not depend on who allocates first
static const int REDZONE = 256;

enum Kind : u8 { K_NONE, K_START, K_READ, K_WRITE, K_LOAD, K_STORE, K_RMW, K_CAS, K_FENCE, K_LOCK, K_TRYLOCK, K_UNLOCK,
  K_CWAIT, K_CREACQ, K_SIGNAL, K_BCAST, K_SEMWAIT, K_SEMTRY, K_SEMPOST, K_CREATE, K_JOIN, K_CHOOSE, K_YIELD, K_MEM,
  K_QUIESCE, K_EXIT, K_MARK };
static const char *kname[] = {"none","start","read","write","load","store","rmw","cas","fence","lock","trylock","unlock",
  "cond-wait","cond-reacquire","signal","broadcast","sem-wait","sem-trywait","sem-post","create","join","choose","yield","memop",
  "quiesce","exit","mark"};
enum RmwOp : u8 { R_XCHG, R_ADD, R_SUB, R_AND, R_OR, R_XOR, R_NAND };
enum { SEM_MAGIC = 0x5e3a5e3a, SEM_DEAD = 0x0dead5e3 };

struct Op { Kind kind; u8 sub, weak, mo; u32 size; u64 addr, v1, v2, pc, key, res; }; // key: pc and call stack
struct LogE { u64 pc, addr; u32 size, count; u64 arg; };
struct BufE { u64 addr; u32 size; u32 rel; u64 val[2]; };
enum TStat : u8 { T_UNUSED, T_READY, T_FINISHED };
struct Thread {           // fixed part, serialised as is
  void *sp; u64 ssp; Op op; void *(*fn)(void *); void *arg; void *ret;
  u8 stat, asleep, detached, joined, signalled, spur, pad[2];
  int bound; int nlog; int nbuf; u32 quantum; int cd, pad2;
  u64 tls[16];
};
static const int MAXCALL = 96;
struct ThreadVar { LogE log[MAXLOG]; BufE buf[MAXBUF]; u64 call[MAXCALL], fsp[MAXCALL]; }; // call: a hash of each prefix of the call stack; fsp: where the frame ends
struct Block { u64 addr, size; u32 live; u32 kind; };
struct Global {            // hashed scalar state
  int nthreads, explore, expect_exit, delays, faults, created;
  u64 obs; u32 heap_top[MAXT]; int nblocks, nsems; int allocs, fail_alloc, thr_seen, fail_thr; u64 stderr_bytes; u64 capbuf, capsize, caplen;
  u64 stacksize; u64 rngctr; u64 fakefile; int priv, just_off; u64 clock, clock_step, rlim; int priv_by, pad;
};
static Global G;
static Thread T[MAXT];
static ThreadVar TV[MAXT];
static Block BL[MAXBLK];
static int cur = 0;        // last scheduled thread
static int devs = 0;       // deviations spent on the current path
static u64 depth = 0;

// ------------------------------------------------------------------ options
static int opt_bound = -1;          // final preemption bound, -1: unbounded
static int opt_first = 0;           // first bound of the iteration
static int opt_tso = 0;             // number of delayed stores allowed
static int opt_pso = 0;             // a delayed store may be overtaken by later relaxed and plain stores (and relaxed RMWs) to other words
static int opt_faults = 0, opt_feintr = 0, opt_fspur = 0, opt_fcas = 0, opt_fcasb = 0;
static int opt_burst = 0;
static int opt_k = 1;               // fruitless iterations before a spinner is put to sleep
static int opt_trace = 0;
static u64 opt_maxstates = 4000000;
static double opt_time = 600;
static int opt_rng = 1;
static int opt_sleep = 1;
static int opt_live = 1;
static int opt_validate = 5;
static std::string opt_out = "", opt_replay = "", opt_ceout = "";
static std::map<std::string,int> params;

static void *engine_sp; static int CT = -1;   // CT: running fiber or -1
static bool viol = false; static std::string viol_msg;
static bool ended = false;                     // terminal reached
static int ended_how = 0;
static bool changed_flag = false;
static u64 cb_since_yield = 0;
static bool tracing = false;
static u64 tls_base = 0, tls_size = 0; static u8 tls_init[128];
static u64 n_steps = 0;
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static double t_start;

[[noreturn]] static void die(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); fprintf(stderr, "lmc: internal error: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap); _exit(3);
}

// ------------------------------------------------------------------ learned sharing
// One entry per 8-byte granule: which thread touched it first, whether a second one did, whether it was written.
struct Gran { u8 first, flags; };
static Gran *sh_stack, *sh_heap, *sh_glob; static u64 glob_lo, glob_hi;
static bool learn_dirty = false; static u64 n_shared = 0;
static inline Gran *gran(u64 a) {
  if (a >= HEAP_BASE && a < HEAP_BASE + HEAP_SIZE) return &sh_heap[(a - HEAP_BASE) >> 3];
  if (a >= STK_BASE && a < STK_BASE + MAXT * STK_SIZE) return &sh_stack[(a - STK_BASE) >> 3];
  if (a >= glob_lo && a < glob_hi) return &sh_glob[(a - glob_lo) >> 3];
  return nullptr;
}
static int n_alive = 0;
static inline bool note(u64 a, u32 size, bool wr, int cls = 4) {
  if (__builtin_expect(G.priv && G.priv_by == CT && (G.priv & cls), 0)) return false;
  if (n_alive <= 1) { Gran *g = gran(a); return g && (g->flags & 4); }
  bool sh = false;
  for (u64 p = a & ~7ULL; p < a + size; p += 8) {
    Gran *g = gran(p); if (!g) return false;
    if (!g->first) g->first = CT + 1; else if (g->first != CT + 1) g->flags |= 1;
    if (wr) g->flags |= 2;
    if ((g->flags & 7) == 3) { g->flags |= 4; learn_dirty = true; n_shared++; }
    if (g->flags & 4) sh = true;
  }
  return sh;
}
// a spin loop over words not known to be shared yet: make what it reads a scheduling point, not what it counts in
static inline void force_shared(u64 a, bool wr = false) { if (G.priv == 7 && G.priv_by == CT) return; Gran *g = gran(a); if (g && !(g->flags & (wr ? 4 : 6))) { g->flags |= 7; learn_dirty = true; n_shared++; } }

// ------------------------------------------------------------------ violations and switching
static void to_engine() { int me = CT; mc_switch(&T[me].sp, engine_sp); }
static void fiber_fail(const std::string &m) { if (!viol) { viol = true; viol_msg = m; } if (CT >= 0) { void *dummy; mc_switch(&dummy, engine_sp); } }
static std::string sym(u64 a);
static std::string where(u64 a);

static int last_blk = 0;
static void check_addr(u64 a, u32 size, u64 pc, bool wr) {
  if (a >= HEAP_BASE && a < HEAP_BASE + HEAP_SIZE) {
    if (last_blk < G.nblocks) { Block &b = BL[last_blk]; if (b.live && a >= b.addr && a + size <= b.addr + b.size) return; }
    for (int i = 0; i < G.nblocks; i++) { Block &b = BL[i];
      if (a >= b.addr && a < b.addr + b.size) {
        if (b.live && a + size <= b.addr + b.size) { last_blk = i; return; }
        fiber_fail(std::string(b.live ? "access straddles the end of" : "use of released") + " memory block at " + where(pc)); }
    }
    char m[200]; snprintf(m, sizeof m, "%s of %u bytes outside any allocated block (%s)", wr ? "write" : "read", size, where(a).c_str());
    fiber_fail(std::string(m) + " at " + where(pc));
  } else if (a >= STK_BASE && a < STK_BASE + MAXT * STK_SIZE) {
    int o = (a - STK_BASE) / STK_SIZE;
    if (o == CT) return;
    if (o >= G.nthreads || T[o].stat != T_READY) fiber_fail("access to the stack of a finished thread at " + where(pc));
    else if (a < T[o].ssp) fiber_fail(std::string(wr ? "write" : "read") + " to a dead stack frame of thread " + std::to_string(o) + " at " + where(pc));
  } else if (a < 4096) fiber_fail("null pointer access at " + where(pc));
  else if (wr && !(a >= glob_lo && a < glob_hi) && !(a >= tls_base && a < tls_base + tls_size)) fiber_fail("write outside the memory of the program at " + where(pc));
}

static void block_if_bounded(u64 pc) {
  if (T[CT].bound > 0) fiber_fail("operation with a fixed step bound blocks at " + where(pc));
}
static inline void count_bound(u64 pc) {
  if (__builtin_expect(T[CT].bound > 0, 0)) { if (--T[CT].bound == 0) { fiber_fail("operation exceeded its bound of own steps at " + where(pc)); } }
}

static inline Op &mkop(Kind k, u64 addr, u32 size, u64 pc) {
  Op &o = T[CT].op; memset(&o, 0, sizeof o); o.kind = k; o.addr = addr; o.size = size; o.pc = pc; int d = T[CT].cd; o.key = pc + (d > 0 ? TV[CT].call[std::min(d, MAXCALL) - 1] : 0); return o;
}
static u64 yield_op() { cb_since_yield = 0; to_engine(); return T[CT].op.res; }

// plain accesses
static inline void plain(u64 a, u32 size, bool wr, u64 pc) {
  if (CT < 0) return;
  count_bound(pc);
  check_addr(a, size, pc, wr);
  bool sh = note(a, size, wr, wr ? 2 : 1);
  if (!sh) { if (++cb_since_yield > 20000) { force_shared(a, cb_since_yield > 1000000); if (cb_since_yield > 40000000) fiber_fail("endless loop at " + where(pc)); } return; }
  mkop(wr ? K_WRITE : K_READ, a, size, pc); yield_op();
}
#define PLAIN(n) \
 EXP void __tsan_read##n(void *p) { plain((u64)p, n, false, PC); } \
 EXP void __tsan_write##n(void *p) { plain((u64)p, n, true, PC); } \
 EXP void __tsan_unaligned_read##n(void *p) { plain((u64)p, n, false, PC); } \
 EXP void __tsan_unaligned_write##n(void *p) { plain((u64)p, n, true, PC); } \
 EXP void __tsan_volatile_read##n(void *p) { plain((u64)p, n, false, PC); } \
 EXP void __tsan_volatile_write##n(void *p) { plain((u64)p, n, true, PC); } \
 EXP void __tsan_unaligned_volatile_read##n(void *p) { plain((u64)p, n, false, PC); } \
 EXP void __tsan_unaligned_volatile_write##n(void *p) { plain((u64)p, n, true, PC); } \
 EXP void __tsan_read_write##n(void *p) { plain((u64)p, n, true, PC); } \
 EXP void __tsan_unaligned_read_write##n(void *p) { plain((u64)p, n, true, PC); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
EXP void __tsan_read_range(void *p, size_t n) { if (n) plain((u64)p, n, false, PC); }
EXP void __tsan_write_range(void *p, size_t n) { if (n) plain((u64)p, n, true, PC); }
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void *pc) { if (CT < 0) return; int d = T[CT].cd++; if (d < MAXCALL) TV[CT].call[d] = ((d ? TV[CT].call[d - 1] : 0) ^ (u64)pc) * 0x9E3779B97F4A7C15ULL, TV[CT].fsp[d] = (u64)__builtin_frame_address(0) + 16; }
static void frame_exit();
static u64 pend_a; static u32 pend_n; static u8 pend_old[16]; // the delayed plain store that the running fiber performs
EXP void __tsan_func_exit() { if (CT >= 0 && T[CT].cd > 0) { T[CT].cd--; if (T[CT].nbuf || pend_n) frame_exit(); } }
EXP void __tsan_vptr_update(void **p, void *) { plain((u64)p, 8, true, PC); }
EXP void __tsan_vptr_read(void **p) { plain((u64)p, 8, false, PC); }

static u64 rd(u64 a, u32 s) { switch (s) { case 1: return *(u8 *)a; case 2: return *(u16 *)a; case 4: return *(u32 *)a; default: return *(u64 *)a; } }
static void wr(u64 a, u32 s, u64 v) { switch (s) { case 1: *(u8 *)a = v; break; case 2: *(u16 *)a = v; break; case 4: *(u32 *)a = v; break; default: *(u64 *)a = v; } }
static u64 msk(u64 v, u32 s) { return s >= 8 ? v : v & ((1ULL << (8 * s)) - 1); }
static u64 rmwval(u8 op, u64 o, u64 v) { switch (op) { case R_XCHG: return v; case R_ADD: return o + v; case R_SUB: return o - v; case R_AND: return o & v; case R_OR: return o | v; case R_XOR: return o ^ v; default: return ~(o & v); } }

static u64 at_load(u64 a, u32 s, int mo, u64 pc) {
  if (CT < 0) return rd(a, s);
  count_bound(pc); check_addr(a, s, pc, false);
  if (!note(a, s, false)) { if (++cb_since_yield > 20000) force_shared(a, true); if (cb_since_yield > 40000000) fiber_fail("endless loop at " + where(pc)); return rd(a, s); }
  Op &o = mkop(K_LOAD, a, s, pc); o.mo = mo; return yield_op();
}
static void at_store(u64 a, u32 s, u64 v, int mo, u64 pc) {
  if (CT < 0) { wr(a, s, v); return; }
  count_bound(pc); check_addr(a, s, pc, true);
  if (!note(a, s, true) && !T[CT].nbuf) { wr(a, s, v); return; }
  Op &o = mkop(K_STORE, a, s, pc); o.mo = mo; o.v1 = msk(v, s); yield_op();
}
static u64 at_rmw(u64 a, u32 s, u8 op, u64 v, int mo, u64 pc) {
  if (CT < 0) { u64 x = rd(a, s); wr(a, s, rmwval(op, x, v)); return x; }
  count_bound(pc); check_addr(a, s, pc, true);
  if (!note(a, s, true) && !T[CT].nbuf) { u64 x = rd(a, s); wr(a, s, rmwval(op, x, v)); return x; }
  Op &o = mkop(K_RMW, a, s, pc); o.mo = mo; o.sub = op; o.v1 = msk(v, s); return yield_op();
}
static u64 at_cas(u64 a, u32 s, u64 exp, u64 v, int weak, int mo, u64 pc) { // returns old value; success iff == exp (and not spuriously failed: res2)
  if (CT < 0) { u64 x = rd(a, s); if (x == msk(exp, s)) wr(a, s, v); return x; }
  count_bound(pc); check_addr(a, s, pc, true);
  bool sh = note(a, s, true);
  if (!sh && !T[CT].nbuf) { if (++cb_since_yield > 20000) force_shared(a, true); u64 x = rd(a, s); T[CT].spur = 0; if (x == msk(exp, s)) wr(a, s, v); return x; }
  Op &o = mkop(K_CAS, a, s, pc); o.mo = mo; o.weak = weak; o.v1 = msk(exp, s); o.v2 = msk(v, s); return yield_op();
}
#define ATOM(bits, ty) \
 EXP ty __tsan_atomic##bits##_load(const volatile ty *p, int mo) { return (ty)at_load((u64)p, bits/8, mo, PC); } \
 EXP void __tsan_atomic##bits##_store(volatile ty *p, ty v, int mo) { at_store((u64)p, bits/8, (u64)v, mo, PC); } \
 EXP ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int mo) { return (ty)at_rmw((u64)p, bits/8, R_XCHG, (u64)v, mo, PC); } \
 EXP ty __tsan_atomic##bits##_fetch_add(volatile ty *p, ty v, int mo) { return (ty)at_rmw((u64)p, bits/8, R_ADD, (u64)v, mo, PC); } \
 EXP ty __tsan_atomic##bits##_fetch_sub(volatile ty *p, ty v, int mo) { return (ty)at_rmw((u64)p, bits/8, R_SUB, (u64)v, mo, PC); } \
 EXP ty __tsan_atomic##bits##_fetch_and(volatile ty *p, ty v, int mo) { return (ty)at_rmw((u64)p, bits/8, R_AND, (u64)v, mo, PC); } \
 EXP ty __tsan_atomic##bits##_fetch_or(volatile ty *p, ty v, int mo) { return (ty)at_rmw((u64)p, bits/8, R_OR, (u64)v, mo, PC); } \
 EXP ty __tsan_atomic##bits##_fetch_xor(volatile ty *p, ty v, int mo) { return (ty)at_rmw((u64)p, bits/8, R_XOR, (u64)v, mo, PC); } \
 EXP ty __tsan_atomic##bits##_fetch_nand(volatile ty *p, ty v, int mo) { return (ty)at_rmw((u64)p, bits/8, R_NAND, (u64)v, mo, PC); } \
 EXP int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *c, ty v, int mo, int) { \
   ty e = *c; ty x = (ty)at_cas((u64)p, bits/8, (u64)e, (u64)v, 0, mo, PC); if (x == e) return 1; *c = x; return 0; } \
 EXP int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *c, ty v, int mo, int) { \
   ty e = *c; ty x = (ty)at_cas((u64)p, bits/8, (u64)e, (u64)v, 1, mo, PC); if (CT >= 0 && T[CT].spur) { T[CT].spur = 0; return 0; } if (x == e) return 1; *c = x; return 0; } \
 EXP ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty c, ty v, int mo, int) { return (ty)at_cas((u64)p, bits/8, (u64)c, (u64)v, 0, mo, PC); }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)
EXP void __tsan_atomic_thread_fence(int mo) {
  if (CT < 0) return; count_bound(PC);
  if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL) for (int i = 0; i < T[CT].nbuf; i++) TV[CT].buf[i].rel = 1; // later stores may not overtake these
  if (mo == __ATOMIC_SEQ_CST && T[CT].nbuf) { Op &o = mkop(K_FENCE, 0, 0, PC); o.mo = mo; yield_op(); }
}
EXP void __tsan_atomic_signal_fence(int) {}

// memory functions called by the code under test
static void memop(u64 d, u64 s, u32 n, u64 pc) { // one visible step covering both ranges, if either is shared
  if (CT < 0 || !n) return;
  count_bound(pc);
  bool sh = false;
  if (d) { check_addr(d, n, pc, true); sh |= note(d, n, true, 2); }
  if (s) { check_addr(s, n, pc, false); sh |= note(s, n, false, 1); }
  if (sh || T[CT].nbuf) { Op &o = mkop(K_MEM, d ? d : s, n, pc); o.v1 = d; o.v2 = s; yield_op(); }
}
EXP void *mc_memcpy(void *d, const void *s, size_t n) { memop((u64)d, (u64)s, n, PC); return memcpy(d, s, n); }
EXP void *mc_memmove(void *d, const void *s, size_t n) { memop((u64)d, (u64)s, n, PC); return memmove(d, s, n); }
EXP void *mc_memset(void *d, int c, size_t n) { memop((u64)d, 0, n, PC); return memset(d, c, n); }
EXP void *mc___tsan_memcpy(void *d, const void *s, size_t n) { memop((u64)d, (u64)s, n, PC); return memcpy(d, s, n); }
EXP void *mc___tsan_memmove(void *d, const void *s, size_t n) { memop((u64)d, (u64)s, n, PC); return memmove(d, s, n); }
EXP void *mc___tsan_memset(void *d, int c, size_t n) { memop((u64)d, 0, n, PC); return memset(d, c, n); }

static u32 max_top[MAXT];
static u64 blk_alloc(u64 size, u64 align, u32 kind) {
  if (G.fail_alloc >= 0 && G.allocs == G.fail_alloc) { G.allocs++; errno = ENOMEM; return 0; }
  G.allocs++;
  if (size > ARENA / 2) { errno = ENOMEM; return 0; }   // nothing else asks for this much: like a system that does not have it
  if (align < 16) align = 16;
  u32 &top = G.heap_top[CT < 0 ? 0 : CT]; u64 base = HEAP_BASE + (CT < 0 ? 0 : CT) * ARENA;
  u64 a = (base + top + REDZONE + align - 1) & ~(align - 1);
  if (size > ARENA || a + size > base + ARENA || G.nblocks >= MAXBLK) die("heap exhausted (%lu bytes)", size);
  int i = G.nblocks++; while (i > 0 && BL[i - 1].addr > a) { BL[i] = BL[i - 1]; i--; }
  BL[i] = Block{a, size, 1, kind};
  top = ((a + size + 7) & ~7ULL) - base; max_top[CT < 0 ? 0 : CT] = std::max(max_top[CT < 0 ? 0 : CT], top);
  return a;
}
static Block *blk_find(u64 a) { for (int i = 0; i < G.nblocks; i++) if (BL[i].addr == a && BL[i].live) return &BL[i]; return nullptr; }
static void *m_alloc(size_t n, size_t al, int fill) { u64 a = blk_alloc(n ? n : 1, al, 0); if (a) memset((void *)a, fill, n); return (void *)a; }
EXP void *mc_malloc(size_t n) { return m_alloc(n, 16, 0xcd); }
EXP void *mc_calloc(size_t n, size_t m) { return m_alloc(n * m, 16, 0); }
EXP void *mc_aligned_alloc(size_t al, size_t n) { return m_alloc(n, al, 0xcd); }
EXP void *mc_memalign(size_t al, size_t n) { return m_alloc(n, al, 0xcd); }
EXP int mc_posix_memalign(void **p, size_t al, size_t n) { void *r = m_alloc(n, al, 0xcd); if (!r) return ENOMEM; *p = r; return 0; }
EXP void mc_free(void *p) { if (!p) return; Block *b = blk_find((u64)p); if (!b || b->kind) { fiber_fail("invalid free at " + where(PC)); return; } b->live = 0; }
EXP void *mc_realloc(void *p, size_t n) { if (!p) return mc_malloc(n); Block *b = blk_find((u64)p); if (!b) { fiber_fail("invalid realloc"); return 0; }
  void *r = mc_malloc(n); if (!r) return r; memcpy(r, p, std::min<u64>(n, b->size)); b = blk_find((u64)p); b->live = 0; return r; }
EXP void *mc_mmap(void *, size_t n, int, int, int, long) { u64 a = blk_alloc((n + 4095) & ~4095ULL, 4096, 1); if (!a) return MAP_FAILED; memset((void *)a, 0, n); return (void *)a; }
EXP void *mc_mmap64(void *, size_t n, int, int, int, long) { return mc_mmap(0, n, 0, 0, 0, 0); }
EXP int mc_munmap(void *p, size_t n) { Block *b = blk_find((u64)p); if (!b || b->kind != 1) { fiber_fail("munmap of something not mapped at " + where(PC)); return -1; }
  if (((n + 4095) & ~4095ULL) != b->size) { fiber_fail("munmap with a size different from the mapping at " + where(PC)); return -1; } b->live = 0; return 0; }
EXP int mc_mprotect(void *, size_t, int) { return 0; }
EXP int mc_madvise(void *, size_t, int) { return 0; }

// stdio
static void out_text(void *f, const char *s, size_t n) {
  if (f == (void *)stderr) G.stderr_bytes += n;
  if (G.fakefile && f == (void *)G.fakefile && G.capbuf) { u64 k = std::min<u64>(n, G.capsize - 1 - G.caplen); memcpy((char *)G.capbuf + G.caplen, s, k); G.caplen += k; ((char *)G.capbuf)[G.caplen] = 0; }
  if (tracing && opt_trace > 1) { fprintf(stderr, "        output: %.*s", (int)n, s); if (!n || s[n-1] != '\n') fprintf(stderr, "\n"); }
}
static int out_fmt(void *f, const char *fmt, va_list ap) { static char b[4096]; int n = vsnprintf(b, sizeof b, fmt, ap); out_text(f, b, std::min<int>(n, sizeof b - 1)); return n; }
EXP int mc_fprintf(void *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = out_fmt(f, fmt, ap); va_end(ap); return n; }
EXP int mc___fprintf_chk(void *f, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = out_fmt(f, fmt, ap); va_end(ap); return n; }
EXP int mc_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = out_fmt(stdout, fmt, ap); va_end(ap); return n; }
EXP int mc___printf_chk(int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = out_fmt(stdout, fmt, ap); va_end(ap); return n; }
EXP int mc_vfprintf(void *f, const char *fmt, va_list ap) { return out_fmt(f, fmt, ap); }
EXP int mc_puts(const char *s) { out_text(stdout, s, strlen(s)); return 1; }
EXP int mc_fputs(const char *s, void *f) { out_text(f, s, strlen(s)); return 1; }
EXP int mc_putchar(int c) { char b = c; out_text(stdout, &b, 1); return c; }
EXP int mc_fputc(int c, void *f) { char b = c; out_text(f, &b, 1); return c; }
EXP int mc_putc(int c, void *f) { char b = c; out_text(f, &b, 1); return c; }
EXP size_t mc_fwrite(const void *p, size_t s, size_t n, void *f) { out_text(f, (const char *)p, s * n); return n; }
EXP int mc_fflush(void *) { return 0; }
EXP void mc_perror(const char *s) { out_text(stderr, s, strlen(s) + 1); }

static void do_exit(int st, const char *how, u64 pc) {
  if (G.expect_exit) {
    if (st == 0) fiber_fail(std::string("program ended with status 0 where a failure must be reported, at ") + where(pc));
    if (!G.stderr_bytes) fiber_fail(std::string("program ended without a diagnostic at ") + where(pc));
    ended = true; ended_how = 1; void *d; mc_switch(&d, engine_sp);
  }
  fiber_fail(std::string(how) + "(" + std::to_string(st) + ") called by the code under test at " + where(pc));
}
EXP void mc_exit(int st) { do_exit(st & 0xff, "exit", PC); abort(); }
EXP void mc__exit(int st) { do_exit(st & 0xff, "_exit", PC); abort(); }
EXP void mc__Exit(int st) { do_exit(st & 0xff, "_Exit", PC); abort(); }
EXP void mc_quick_exit(int st) { do_exit(st & 0xff, "quick_exit", PC); abort(); }
EXP void mc_abort(void) { do_exit(134, "abort", PC); abort(); }
EXP void mc___assert_fail(const char *e, const char *f, unsigned l, const char *) { G.stderr_bytes++; do_exit(134, (std::string("assertion ") + e + " failed in " + f + ":" + std::to_string(l) + ": abort").c_str(), PC); abort(); }
EXP void mc___assert(const char *e, const char *f, int l) { mc___assert_fail(e, f, l, ""); }

// misc libc
EXP int mc_rand(void) { return 0; }
EXP void mc_srand(unsigned) {}
EXP long mc_random(void) { return 0; }
EXP long mc_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return params.count("pus") ? params["pus"] : 2; return sysconf(n); }
EXP int mc_get_nprocs(void) { return params.count("pus") ? params["pus"] : 2; }
EXP int mc_sched_getaffinity(int, size_t n, void *m) { memset(m, 0, n); int k = params.count("pus") ? params["pus"] : 2; for (int i = 0; i < k; i++) ((u8 *)m)[i / 8] |= 1 << (i % 8); return 0; }
EXP void mc_rlimit_stack(size_t n) { G.rlim = n; }
EXP int mc_getrlimit(int, struct rlimit *l) { l->rlim_cur = G.rlim ? G.rlim : 8 << 20; l->rlim_max = RLIM_INFINITY; return 0; }
EXP int mc_clock_gettime(int, struct timespec *ts) { ts->tv_sec = 1000 + G.clock / 1000000; ts->tv_nsec = G.clock % 1000000 * 1000; G.clock += G.clock_step; return 0; }
EXP int mc_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = 1000 + G.clock / 1000000; tv->tv_usec = G.clock % 1000000; G.clock += G.clock_step; return 0; }
EXP long mc_time(long *t) { if (t) *t = 1000; return 1000; }
static int y_op(u64 pc) { if (CT >= 0) { count_bound(pc); mkop(K_YIELD, 0, 0, pc); yield_op(); } return 0; }
EXP int mc_sched_yield(void) { return y_op(PC); }
EXP int mc_usleep(unsigned) { return y_op(PC); }
EXP unsigned mc_sleep(unsigned) { return y_op(PC); }
EXP int mc_nanosleep(const void *, void *) { return y_op(PC); }
EXP int mc_clock_nanosleep(int, int, const void *, void *) { return y_op(PC); }
EXP int mc_pthread_yield(void) { return y_op(PC); }
// hook for the pseudo random victim selection (LACE_VERIFY)
// Where nothing is explored, random choices follow a fixed sequence without short periods (a plain counter can resonate with the scheduler).
static u32 fair_choice() { u64 x = G.rngctr++; x = (x + 1) * 0x9E3779B97F4A7C15ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; return (u32)(x >> 33); }
EXP uint32_t lace_verify_rng(uint32_t *seed, int max) {
  if (!opt_rng) { uint32_t n = *seed; n *= 1103515245; n += 12345; *seed = n; return n % max; }
  if (max <= 1) return 0;
  if (max >= 40) { auto it = params.find("scan"); return it == params.end() ? 0 : it->second; }
  if (!G.explore) return fair_choice() % max;
  mkop(K_CHOOSE, 1, max, PC); return yield_op();
}
EXP uint64_t lace_verify_time(void) { return G.clock * 1000; }

// threads
EXP int mc_pthread_attr_init(void *a) { memset(a, 0, 56); return 0; }
EXP int mc_pthread_attr_destroy(void *) { return 0; }
EXP int mc_pthread_attr_setstacksize(void *a, size_t s) { if (s < 16384) return EINVAL; ((u64 *)a)[0] = s; return 0; }
EXP int mc_pthread_attr_getstacksize(void *a, size_t *s) { *s = ((u64 *)a)[0]; return 0; }
EXP int mc_pthread_attr_setdetachstate(void *a, int s) { ((u64 *)a)[1] = s; return 0; }
EXP int mc_pthread_attr_setaffinity_np(void *, size_t, const void *) { return 0; }
EXP int mc_pthread_setaffinity_np(u64, size_t, const void *) { return 0; }
EXP int mc_pthread_setname_np(u64, const char *) { return 0; }
EXP int mc_pthread_create(u64 *t, const void *attr, void *(*fn)(void *), void *arg) {
  if (G.fail_thr >= 0 && G.thr_seen == G.fail_thr) { G.thr_seen++; return EAGAIN; }
  G.thr_seen++; G.stacksize = attr ? ((u64 *)attr)[0] : 0;
  Op &o = mkop(K_CREATE, 0, 0, PC); o.v1 = (u64)fn; o.v2 = (u64)arg; o.sub = attr && ((u64 *)attr)[1] == 1;
  u64 id = yield_op(); if (t) *t = id + 1; return 0;
}
EXP int mc_pthread_join(u64 t, void **r) {
  int k = (int)t - 1; if (k < 0 || k >= G.nthreads || T[k].detached || T[k].joined) { fiber_fail("pthread_join of a thread that cannot be joined"); return EINVAL; }
  block_if_bounded(PC); Op &o = mkop(K_JOIN, 0, 0, PC); o.v1 = k; yield_op(); if (r) *r = T[k].ret; return 0; }
EXP int mc_pthread_detach(u64 t) { int k = (int)t - 1; if (k < 0 || k >= G.nthreads || T[k].detached || T[k].joined) { fiber_fail("pthread_detach of a thread that is not joinable"); return EINVAL; } T[k].detached = 1; return 0; }
EXP u64 mc_pthread_self(void) { return CT + 1; }
EXP int mc_pthread_equal(u64 a, u64 b) { return a == b; }
EXP void mc_pthread_exit(void *r) { T[CT].ret = r; u64 pc = PC; T[CT].ssp = STK_BASE + (u64)(CT + 1) * STK_SIZE; mkop(K_EXIT, 0, 0, pc); yield_op(); abort(); }
EXP int mc_pthread_mutex_init(u32 *m, const void *) { *m = 0; return 0; }
EXP int mc_pthread_mutex_destroy(u32 *m) { if (*m) fiber_fail("destroying a locked mutex"); return 0; }
EXP int mc_pthread_mutex_lock(u32 *m) { check_addr((u64)m, 4, PC, true); note((u64)m, 4, true); block_if_bounded(PC); mkop(K_LOCK, (u64)m, 4, PC); yield_op(); return 0; }
EXP int mc_pthread_mutex_trylock(u32 *m) { check_addr((u64)m, 4, PC, true); count_bound(PC); mkop(K_TRYLOCK, (u64)m, 4, PC); return yield_op() ? 0 : EBUSY; }
EXP int mc_pthread_mutex_unlock(u32 *m) { check_addr((u64)m, 4, PC, true); count_bound(PC); mkop(K_UNLOCK, (u64)m, 4, PC); yield_op(); return 0; }
EXP int mc_pthread_spin_init(u32 *m, int) { *m = 0; return 0; }
EXP int mc_pthread_spin_destroy(u32 *) { return 0; }
EXP int mc_pthread_spin_lock(u32 *m) { return mc_pthread_mutex_lock(m); }
EXP int mc_pthread_spin_trylock(u32 *m) { return mc_pthread_mutex_trylock(m); }
EXP int mc_pthread_spin_unlock(u32 *m) { return mc_pthread_mutex_unlock(m); }
EXP int mc_pthread_cond_init(void *, const void *) { return 0; }
EXP int mc_pthread_cond_destroy(void *) { return 0; }
EXP int mc_pthread_cond_wait(void *c, u32 *m) { check_addr((u64)c, 4, PC, true); check_addr((u64)m, 4, PC, true); block_if_bounded(PC); Op &o = mkop(K_CWAIT, (u64)c, 4, PC); o.v1 = (u64)m; yield_op(); return 0; }
EXP int mc_pthread_cond_timedwait(void *c, u32 *m, const void *) { return mc_pthread_cond_wait(c, m); }
EXP int mc_pthread_cond_signal(void *c) { check_addr((u64)c, 4, PC, true); count_bound(PC); mkop(K_SIGNAL, (u64)c, 4, PC); yield_op(); return 0; }
EXP int mc_pthread_cond_broadcast(void *c) { check_addr((u64)c, 4, PC, true); count_bound(PC); mkop(K_BCAST, (u64)c, 4, PC); yield_op(); return 0; }
EXP int mc_pthread_once(u32 *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
// thread-specific data: kept in the last words of the fiber's TLS copy
EXP int mc_pthread_key_create(u32 *k, void (*)(void *)) { *k = (u32)(G.rngctr >> 32) & 3; return 0; }
EXP int mc_pthread_key_delete(u32) { return 0; }
EXP void *mc_pthread_getspecific(u32 k) { return CT < 0 ? 0 : (void *)T[CT].tls[12 + (k & 3)]; }
EXP int mc_pthread_setspecific(u32 k, const void *v) { T[CT].tls[12 + (k & 3)] = (u64)v; return 0; }
struct Sem { u32 magic; int value; };
static void sem_check(Sem *s, u64 pc) { check_addr((u64)s, 8, pc, true); if (s->magic != SEM_MAGIC) fiber_fail("use of a semaphore that is not initialised or was destroyed, at " + where(pc)); }
EXP int mc_sem_init(Sem *s, int, unsigned v) { check_addr((u64)s, 8, PC, true); if (s->magic != SEM_MAGIC) G.nsems++; s->magic = SEM_MAGIC; s->value = v; return 0; }
EXP int mc_sem_destroy(Sem *s) { sem_check(s, PC);
  for (int i = 0; i < G.nthreads; i++) if (i != CT && T[i].stat == T_READY && T[i].op.kind == K_SEMWAIT && T[i].op.addr == (u64)s) fiber_fail("semaphore destroyed while a thread waits on it, at " + where(PC));
  s->magic = SEM_DEAD; G.nsems--; return 0; }
static int sem_w(Sem *s, u64 pc) { sem_check(s, pc); block_if_bounded(pc); mkop(K_SEMWAIT, (u64)s, 8, pc); if (yield_op()) { errno = EINTR; return -1; } return 0; }
EXP int mc_sem_wait(Sem *s) { return sem_w(s, PC); }
EXP int mc_sem_timedwait(Sem *s, const void *) { return sem_w(s, PC); }
EXP int mc_sem_clockwait(Sem *s, int, const void *) { return sem_w(s, PC); }
EXP int mc_sem_trywait(Sem *s) { sem_check(s, PC); count_bound(PC); mkop(K_SEMTRY, (u64)s, 8, PC); if (!yield_op()) { errno = EAGAIN; return -1; } return 0; }
EXP int mc_sem_post(Sem *s) { sem_check(s, PC); count_bound(PC); mkop(K_SEMPOST, (u64)s, 8, PC); yield_op(); return 0; }
EXP int mc_sem_getvalue(Sem *s, int *v) { sem_check(s, PC); *v = s->value; return 0; }

// harness interface
EXP void mc_assert_(int c, const char *msg, const char *file, int line) {
  if (c) return; const char *b = strrchr(file, '/'); fiber_fail(std::string(msg) + " (" + (b ? b + 1 : file) + ":" + std::to_string(line) + ")"); }
EXP int mc_choose(int n) { if (n <= 1) return 0; mkop(K_CHOOSE, 0, n, PC); return (int)yield_op(); }
EXP void mc_obs(u64 v) { G.obs = (G.obs ^ v) * 0x9E3779B97F4A7C15ULL; G.obs ^= G.obs >> 29; }
EXP void mc_explore(int on) { mkop(K_MARK, on, 0, PC); yield_op(); }
EXP void mc_quiesce(void) { mkop(K_QUIESCE, 0, 0, PC); yield_op(); }
static bool op_enabled(int t);
EXP int mc_others_running(void) { int n = 0; for (int i = 0; i < G.nthreads; i++) if (i != CT && T[i].stat == T_READY) {
  Kind k = T[i].op.kind; bool blk = (k == K_SEMWAIT || k == K_LOCK || k == K_CREACQ || k == K_JOIN) && !op_enabled(i); if (!blk) n++; } return n; }
EXP int mc_others_live(void) { int n = 0; for (int i = 0; i < G.nthreads; i++) if (i != CT && T[i].stat == T_READY) n++; return n; }
EXP int mc_threads_unreclaimed(void) { int n = 0; for (int i = 1; i < G.nthreads; i++) if (i != CT && T[i].stat != T_UNUSED && !T[i].detached && !T[i].joined) n++; return n; }
EXP int mc_live_blocks(void) { int n = 0; for (int i = 0; i < G.nblocks; i++) n += BL[i].live; return n + G.nsems; }
EXP void mc_private(int cls) { G.priv = cls; G.priv_by = CT; }
EXP void mc_clock_step(int usec) { G.clock_step = usec; }
EXP void mc_clock_add(int usec) { G.clock += usec; }
EXP int mc_stderr_bytes(void) { return (int)G.stderr_bytes; }
EXP void mc_capture_stdout(char *b, size_t n) { G.fakefile = (u64)stdout; G.capbuf = (u64)b; G.capsize = n; G.caplen = 0; b[0] = 0; }
EXP int mc_blocks(void) { return G.nblocks; }
EXP size_t mc_block_size(int i) { return i >= 0 && i < G.nblocks ? BL[i].size : 0; }
EXP int mc_threads_created(void) { return G.created; }
EXP void mc_expect_exit(int on) { G.expect_exit = on; }
EXP int mc_tid(void) { return CT; }
EXP void mc_bounded(int n) { T[CT].bound = n; }
EXP void *mc_file(void) { static int fake; G.fakefile = (u64)&fake; return &fake; }
EXP void mc_capture(char *b, size_t n) { G.capbuf = (u64)b; G.capsize = n; G.caplen = 0; b[0] = 0; }
EXP void mc_fail_alloc(int k) { G.allocs = 0; G.fail_alloc = k; }
EXP void mc_fail_thread(int k) { G.thr_seen = 0; G.fail_thr = k; }
EXP int mc_allocs_seen(void) { return G.allocs; }
EXP int mc_threads_seen(void) { return G.thr_seen; }
EXP size_t mc_last_stacksize(void) { return G.stacksize; }
EXP int mc_param(const char *n, int d) { auto it = params.find(n); return it == params.end() ? d : it->second; }

// ------------------------------------------------------------------ symbols for traces
struct Sym { u64 a; std::string n; };
static std::vector<Sym> syms;
static void load_syms() {
  FILE *p = popen((std::string("nm -n --defined-only /proc/") + std::to_string(getpid()) + "/exe 2>/dev/null").c_str(), "r"); if (!p) return;
  char l[1024]; while (fgets(l, sizeof l, p)) { u64 a; char t; char n[512]; if (sscanf(l, "%lx %c %511s", &a, &t, n) == 3) syms.push_back({a, n}); } pclose(p);
}
static std::string sym(u64 a) {
  if (syms.empty()) load_syms();
  auto it = std::upper_bound(syms.begin(), syms.end(), a, [](u64 x, const Sym &s) { return x < s.a; });
  char b[64]; if (it == syms.begin()) { snprintf(b, sizeof b, "0x%lx", a); return b; }
  --it; if (a - it->a > 0x100000) { snprintf(b, sizeof b, "0x%lx", a); return b; }
  snprintf(b, sizeof b, "+0x%lx", a - it->a); return it->n + b;
}
static std::string where(u64 a) {
  char b[96];
  if (a >= HEAP_BASE && a < HEAP_BASE + HEAP_SIZE) { for (int i = 0; i < G.nblocks; i++) if (a >= BL[i].addr && a < BL[i].addr + BL[i].size + REDZONE) { snprintf(b, sizeof b, "block%d+%ld(of %ld)", i, (long)(a - BL[i].addr), (long)BL[i].size); return b; } }
  if (a >= STK_BASE && a < STK_BASE + MAXT * STK_SIZE) { snprintf(b, sizeof b, "stack of thread %d, %ld below top", (int)((a - STK_BASE) / STK_SIZE), (long)(STK_SIZE - (a - STK_BASE) % STK_SIZE)); return b; }
  return sym(a);
}

// ------------------------------------------------------------------ fibers
static u64 stk_top(int t) { return STK_BASE + (u64)(t + 1) * STK_SIZE; }
static void fiber_main() {
  int me = CT; void *r;
  if (T[me].fn) r = T[me].fn(T[me].arg); else { mc_main(); r = 0; }
  T[CT].ret = r; T[CT].ssp = stk_top(CT); mkop(K_EXIT, 0, 0, 0); yield_op(); abort();
}
static void mk_fiber(int t, void *(*fn)(void *), void *arg) {
  memset(&T[t], 0, sizeof T[t]); memset(&TV[t], 0, sizeof TV[t]);
  u64 top = stk_top(t); memset((void *)(top - 4096), 0, 4096);
  u64 *sp = (u64 *)(top - 64);
  *--sp = 0;                 // alignment: entry rsp % 16 == 8
  *--sp = (u64)fiber_main; for (int i = 0; i < 6; i++) *--sp = 0;
  T[t].sp = sp; T[t].ssp = top; T[t].fn = fn; T[t].arg = arg; T[t].stat = T_READY; T[t].op.kind = K_START; T[t].bound = 0;
  memcpy(T[t].tls, tls_init, std::min<u64>(tls_size, 96));
}
static int alloc_thread() { for (int i = 1; i < G.nthreads; i++) if (T[i].stat == T_FINISHED && (T[i].detached || T[i].joined)) return i; if (G.nthreads >= MAXT) die("too many threads"); return G.nthreads++; }

static void recount_alive() { n_alive = 0; for (int i = 0; i < G.nthreads; i++) n_alive += T[i].stat == T_READY; }

// ------------------------------------------------------------------ enabledness
static bool op_enabled(int t) {
  Op &o = T[t].op;
  switch (o.kind) {
    case K_LOCK: return *(u32 *)o.addr == 0;
    case K_CREACQ: return T[t].signalled && *(u32 *)o.v1 == 0;
    case K_SEMWAIT: return ((Sem *)o.addr)->value > 0;
    case K_JOIN: return T[o.v1].stat == T_FINISHED;
    case K_QUIESCE: return false;
    default: return true;
  }
}
static inline bool enabled(int t) { return T[t].stat == T_READY && !T[t].asleep && op_enabled(t); }

// ------------------------------------------------------------------ executing one step
static void wake(u64 a, u32 size, int by, bool local = false) {
  if (!local) changed_flag = true;
  for (int u = 0; u < G.nthreads; u++) if (u != by && T[u].stat == T_READY && T[u].nlog) {
    for (int i = 0; i < T[u].nlog; i++) { LogE &e = TV[u].log[i]; if (e.addr < a + size && a < e.addr + e.size) { T[u].nlog = 0; T[u].asleep = 0; memset(TV[u].log, 0, sizeof TV[u].log); break; } }
  }
}
// Locals that share their stack slots with data other threads see are written on every round of a spin loop.
static inline bool own_stack(u64 a, int t) { u64 b = STK_BASE + (u64)t * STK_SIZE; return a >= b && a < b + STK_SIZE; }
static void progress(int t) { T[t].nlog = 0; T[t].asleep = 0; }
static inline u64 op_arg(const Op &o) { return o.kind == K_CAS ? o.v1 * 0x9E3779B97F4A7C15ULL + o.v2 : o.kind == K_RMW ? o.v1 : 0; }
static void log_read(int t, const Op &o) {
  for (int i = 0; i < T[t].nlog; i++) { LogE &e = TV[t].log[i]; if (e.pc == o.key && e.addr == o.addr && e.arg == op_arg(o)) { e.count++; return; } }
  if (T[t].nlog >= MAXLOG) { T[t].nlog = 0; }
  TV[t].log[T[t].nlog++] = LogE{o.key, o.addr, o.size ? o.size : 1, 1, op_arg(o)};
}
// An environment choice inside a spin loop (which victim to try) is logged under a small pseudo address, so that a
// spinner goes around once per alternative before it is put to sleep, trying every alternative in every order.
static u32 choice_width(int t) { u32 w = 1; for (int i = 0; i < T[t].nlog; i++) if (TV[t].log[i].addr < 4096 && TV[t].log[i].addr) w = std::max(w, TV[t].log[i].size); return w; }
static bool choice_tried(int t, u64 pc, u32 alt) { for (int i = 0; i < T[t].nlog; i++) { LogE &e = TV[t].log[i]; if (e.pc == pc && e.addr == alt + 1 && (int)e.count >= opt_k) return true; } return false; }
static void check_spin(int t) { // called when an op becomes pending
  Op &o = T[t].op; if (!opt_sleep || T[t].bound > 0) return;
  if (o.kind == K_CHOOSE && o.addr == 1) { for (u32 i = 0; i < o.size; i++) if (!choice_tried(t, o.key, i)) return; T[t].asleep = 1; return; }
  u32 width = 0;
  switch (o.kind) { case K_READ: case K_LOAD: case K_CAS: case K_RMW: case K_YIELD: case K_TRYLOCK: case K_SEMTRY: break; default: return; }
  for (int i = 0; i < T[t].nlog; i++) { LogE &e = TV[t].log[i]; if (e.pc == o.key && e.addr == o.addr && e.arg == op_arg(o) && (int)e.count >= opt_k) { if (!width) width = choice_width(t); if (e.count >= opt_k * width) { T[t].asleep = 1; return; } } }
}
static void log_choice(int t, u64 pc, u32 alt, u32 n) {
  for (int i = 0; i < T[t].nlog; i++) { LogE &e = TV[t].log[i]; if (e.pc == pc && e.addr == alt + 1) { e.count++; return; } }
  if (T[t].nlog >= MAXLOG) T[t].nlog = 0;
  TV[t].log[T[t].nlog++] = LogE{pc, alt + 1, n, 1, 0};
}
static void flush_one(int t) {
  BufE b = TV[t].buf[0]; T[t].nbuf--; for (int i = 0; i < T[t].nbuf; i++) TV[t].buf[i] = TV[t].buf[i + 1];
  if (memcmp((void *)b.addr, b.val, b.size)) { memcpy((void *)b.addr, b.val, b.size); wake(b.addr, b.size, t); }
}
static void drain(int t) { while (T[t].nbuf) flush_one(t); }
static bool delayable(int t) { Op &o = T[t].op;
  if (o.kind == K_WRITE) return o.size <= 16; if (o.kind == K_STORE) return o.mo != __ATOMIC_SEQ_CST; return false; }
// May this operation take effect before the delayed stores of its thread (C11: relaxed and plain accesses to other words)?
static bool overtakes(int t) { Op &o = T[t].op; bool rel = o.mo == __ATOMIC_RELEASE || o.mo == __ATOMIC_ACQ_REL || o.mo == __ATOMIC_SEQ_CST;
  if (o.kind == K_WRITE ? o.size > 16 : (o.kind == K_STORE || o.kind == K_RMW || o.kind == K_CAS) ? rel : true) return false;
  for (int i = 0; i < T[t].nbuf; i++) if (TV[t].buf[i].rel || o.addr < TV[t].buf[i].addr + TV[t].buf[i].size && TV[t].buf[i].addr < o.addr + o.size) return false;
  return true; }
static void push_buf(int t, u64 a, u32 s, const void *v) {
  if (T[t].nbuf >= MAXBUF) die("store buffer overflow"); BufE &b = TV[t].buf[T[t].nbuf++]; memset(&b, 0, sizeof b); b.addr = a; b.size = s; memcpy(b.val, v, s); }

static u8 ov_save[MAXBUF + 1][16];
static void overlay(int t) { for (int i = 0; i < T[t].nbuf; i++) { BufE &b = TV[t].buf[i]; memcpy(ov_save[i], (void *)b.addr, b.size); memcpy((void *)b.addr, b.val, b.size); } }
static void unoverlay(int t) { for (int i = T[t].nbuf; i-- > 0;) { BufE &b = TV[t].buf[i]; memcpy((void *)b.addr, ov_save[i], b.size); } }
// A function of the running fiber returns: delayed stores to its frame become visible now (its memory is about to be reused).
static void frame_exit() {
  int t = CT; Thread &th = T[t]; u64 lim = th.cd > 0 && th.cd <= MAXCALL ? TV[t].fsp[th.cd - 1] : stk_top(t); bool hit = pend_n && own_stack(pend_a, t) && pend_a < lim;
  for (int i = 0; i < th.nbuf && !hit; i++) hit = own_stack(TV[t].buf[i].addr, t) && TV[t].buf[i].addr < lim;
  if (!hit) return;
  for (int i = 0; i < th.nbuf; i++) wake(TV[t].buf[i].addr, TV[t].buf[i].size, t); // memory already holds what was stored
  if (pend_n) wake(pend_a, pend_n, t);
  th.nbuf = 0; pend_n = 0;
}

static void resume_fiber(int t) {
  Thread &th = T[t];
  memcpy((void *)tls_base, th.tls, std::min<u64>(tls_size, 96));
  CT = t; mc_switch(&engine_sp, th.sp); CT = -1;
  memcpy(th.tls, (void *)tls_base, std::min<u64>(tls_size, 96));
  // keep dead stack memory canonical
  if (!viol && !ended && th.stat == T_READY) { u64 sp = (u64)th.sp, lo = sp - 3072, base = stk_top(t) - STK_SIZE + 4096; if (lo < base) lo = base; memset((void *)lo, 0, sp - lo); }
}
static void finish(int t) { T[t].stat = T_FINISHED; T[t].asleep = 0; T[t].nlog = 0; changed_flag = true; recount_alive(); memset(&T[t].op, 0, sizeof(Op)); memset(T[t].tls, 0, sizeof T[t].tls); T[t].sp = 0; T[t].cd = 0; if (t == 0) { ended = true; ended_how = 0; } }

enum Mode { M_STEP, M_DELAY, M_FLUSH, M_FORCE, M_BURST, M_FAULT };
static const char *mname[] = {"step", "delay", "flush", "force", "burst", "fault"};

static void step(int t, Mode mode, int alt) {
  Thread &th = T[t]; Op &o = th.op; n_steps++; depth++; G.just_off = 0; pend_n = 0;
  if (mode == M_FLUSH) { flush_one(t); return; }
  bool run = true, q = false;
  if (mode == M_DELAY) { G.delays++; q = true; }
  bool ot = opt_pso && th.nbuf && overtakes(t);
  if (th.nbuf && delayable(t) && !ot) q = true;
  if (q && th.nbuf >= MAXBUF) flush_one(t);
  // operations with fence semantics
  switch (o.kind) {
    case K_STORE: if (o.mo == __ATOMIC_SEQ_CST) drain(t); break;
    case K_WRITE: if (o.size > 16) drain(t); break;
    case K_READ: case K_LOAD: case K_YIELD: case K_CHOOSE: case K_START: break;
    default: if (!ot) drain(t);
  }
  if (mode == M_FAULT) {
    G.faults++;
    if (o.kind == K_SEMWAIT) { o.res = 1; }
    else if (o.kind == K_CREACQ) { *(u32 *)o.v1 = t + 1; th.signalled = 0; }
    else if (o.kind == K_CAS) { th.spur = 1; o.res = rd(o.addr, o.size); }
    progress(t); changed_flag = true;
    goto go;
  }
  switch (o.kind) {
    case K_READ: log_read(t, o); break;
    case K_WRITE: {
      u8 old[256]; u32 n = std::min<u32>(o.size, 256); u64 a = o.addr;
      if (q) {
        overlay(t); memcpy(pend_old, (void *)a, n); pend_a = a; pend_n = n;
        resume_fiber(t); if (viol || ended) return;
        if (pend_n) { u8 nv[16]; memcpy(nv, (void *)a, n); memcpy((void *)a, pend_old, n); unoverlay(t); push_buf(t, a, n, nv); }
        pend_n = 0; progress(t); changed_flag = true; run = false;
      } else {
        overlay(t); memcpy(old, (void *)a, n); resume_fiber(t); if (viol || ended) return;
        bool ch = memcmp(old, (void *)a, n) != 0; u8 nv[256]; memcpy(nv, (void *)a, n); unoverlay(t); memcpy((void *)a, nv, n);
        if (ch) { LogE keep; (void)keep; Op no = th.op; bool as = th.asleep; (void)as; bool own = own_stack(a, t); wake(a, n, t, own); if (!own) progress(t); th.op = no; } run = false;
      }
      if (th.stat == T_READY) check_spin(t);
      if (th.stat == T_READY && th.op.kind == K_EXIT) { }
      return;
    }
    case K_LOAD: overlay(t); o.res = rd(o.addr, o.size); unoverlay(t); log_read(t, o); break;
    case K_STORE:
      if (q) { push_buf(t, o.addr, o.size, &o.v1); progress(t); changed_flag = true; }
      else { u64 x = rd(o.addr, o.size); if (x != o.v1) { wr(o.addr, o.size, o.v1); wake(o.addr, o.size, t); progress(t); } }
      break;
    case K_RMW: { u64 x = rd(o.addr, o.size), y = msk(rmwval(o.sub, x, o.v1), o.size); o.res = x; if (x != y) { wr(o.addr, o.size, y); wake(o.addr, o.size, t); progress(t); } else log_read(t, o); break; }
    case K_CAS: { u64 x = rd(o.addr, o.size); o.res = x; th.spur = 0; if (x == o.v1) { if (o.v2 != x) { wr(o.addr, o.size, o.v2); wake(o.addr, o.size, t); } progress(t); } else log_read(t, o); break; }
    case K_FENCE: break;
    case K_YIELD: log_read(t, o); break;
    case K_START: changed_flag = true; break;
    case K_LOCK: *(u32 *)o.addr = t + 1; progress(t); wake(o.addr, 4, t); break;
    case K_TRYLOCK: if (*(u32 *)o.addr == 0) { *(u32 *)o.addr = t + 1; o.res = 1; progress(t); wake(o.addr, 4, t); } else { o.res = 0; log_read(t, o); } break;
    case K_UNLOCK: if (*(u32 *)o.addr != (u32)t + 1) { viol = true; viol_msg = "unlock of a mutex not held, at " + where(o.pc); return; } *(u32 *)o.addr = 0; progress(t); wake(o.addr, 4, t); break;
    case K_CWAIT: { u64 m = o.v1; if (*(u32 *)m != (u32)t + 1) { viol = true; viol_msg = "condition wait without holding the mutex, at " + where(o.pc); return; }
      *(u32 *)m = 0; wake(m, 4, t); progress(t); o.kind = K_CREACQ; th.signalled = 0; run = false; break; }
    case K_CREACQ: *(u32 *)o.v1 = t + 1; th.signalled = 0; progress(t); wake(o.v1, 4, t); break;
    case K_BCAST: for (int u = 0; u < G.nthreads; u++) if (T[u].stat == T_READY && T[u].op.kind == K_CREACQ && T[u].op.addr == o.addr && !T[u].signalled) { T[u].signalled = 1; changed_flag = true; } progress(t); break;
    case K_SIGNAL: { int k = 0; for (int u = 0; u < G.nthreads; u++) if (T[u].stat == T_READY && T[u].op.kind == K_CREACQ && T[u].op.addr == o.addr && !T[u].signalled) { if (k++ == alt) { T[u].signalled = 1; changed_flag = true; } } progress(t); break; }
    case K_SEMWAIT: ((Sem *)o.addr)->value--; o.res = 0; progress(t); changed_flag = true; break;
    case K_SEMTRY: if (((Sem *)o.addr)->value > 0) { ((Sem *)o.addr)->value--; o.res = 1; progress(t); changed_flag = true; } else { o.res = 0; log_read(t, o); } break;
    case K_SEMPOST: ((Sem *)o.addr)->value++; progress(t); wake(o.addr, 8, t); break;
    case K_CREATE: { int k = alloc_thread(); mk_fiber(k, (void *(*)(void *))o.v1, (void *)o.v2); T[k].detached = o.sub; G.created++; o.res = k; progress(t); changed_flag = true; recount_alive(); break; }
    case K_JOIN: T[o.v1].joined = 1; progress(t); changed_flag = true; break;
    case K_CHOOSE: o.res = alt; if (o.addr == 0) { progress(t); changed_flag = true; } else log_choice(t, o.key, alt, o.size); break;
    case K_MEM: { overlay(t);
      if (o.v1) { u64 d = o.v1; u32 n = o.size; std::vector<u8> old((u8 *)d, (u8 *)d + n); resume_fiber(t); if (viol || ended) return; if (memcmp(old.data(), (void *)d, n)) { wake(d, n, t); progress(t); } if (th.stat == T_READY) check_spin(t); return; }
      break; }
    case K_QUIESCE: progress(t); changed_flag = true; break;
    case K_MARK: G.just_off = G.explore && !o.addr; G.explore = (int)o.addr; progress(t); changed_flag = true; break;
    case K_EXIT: finish(t); return;
    default: die("bad op %d", o.kind);
  }
go:
  if (viol) return;
  if (run) { overlay(t); resume_fiber(t); if (viol || ended) return; unoverlay(t); if (th.stat == T_READY) check_spin(t); }
}

// ------------------------------------------------------------------ state serialisation
typedef std::vector<u8> Buf;
static Buf sbuf; static size_t sbuf_hash_off;
static inline void put(Buf &b, const void *p, size_t n) { size_t o = b.size(); b.resize(o + n); memcpy(&b[o], p, n); }
static void serialise(Buf &b) {
  b.clear();
  int hdr[2] = {cur, devs}; put(b, hdr, sizeof hdr); put(b, &depth, 8); sbuf_hash_off = b.size();
  put(b, &G, sizeof G); put(b, BL, sizeof(Block) * G.nblocks);
  for (int t = 0; t < G.nthreads; t++) {
    put(b, &T[t], sizeof T[t]);
    if (T[t].nlog) put(b, TV[t].log, sizeof(LogE) * T[t].nlog);
    if (T[t].nbuf) put(b, TV[t].buf, sizeof(BufE) * T[t].nbuf);
    if (T[t].cd) { put(b, TV[t].call, 8 * std::min(T[t].cd, MAXCALL)); if (opt_tso) put(b, TV[t].fsp, 8 * std::min(T[t].cd, MAXCALL)); }
    if (T[t].stat == T_READY) put(b, T[t].sp, stk_top(t) - (u64)T[t].sp);
  }
  put(b, __start_sut_data, __stop_sut_data - __start_sut_data);
  put(b, __start_sut_bss, __stop_sut_bss - __start_sut_bss);
  for (int i = 0; i < G.nblocks; i++) if (BL[i].live) put(b, (void *)BL[i].addr, BL[i].size);
}
static void restore(const Buf &b) {
  size_t o = 0; auto get = [&](void *p, size_t n) { memcpy(p, &b[o], n); o += n; };
  int hdr[2]; get(hdr, sizeof hdr); cur = hdr[0]; devs = hdr[1]; get(&depth, 8);
  int oldn = G.nthreads;
  get(&G, sizeof G); get(BL, sizeof(Block) * G.nblocks);
  for (int t = 0; t < G.nthreads; t++) {
    get(&T[t], sizeof T[t]);
    if (T[t].nlog) get(TV[t].log, sizeof(LogE) * T[t].nlog);
    if (T[t].nbuf) get(TV[t].buf, sizeof(BufE) * T[t].nbuf);
    if (T[t].cd) { get(TV[t].call, 8 * std::min(T[t].cd, MAXCALL)); if (opt_tso) get(TV[t].fsp, 8 * std::min(T[t].cd, MAXCALL)); }
    if (T[t].stat == T_READY) { get(T[t].sp, stk_top(t) - (u64)T[t].sp); u64 sp = (u64)T[t].sp, lo = sp - 6144, base = stk_top(t) - STK_SIZE + 4096; if (lo < base) lo = base; memset((void *)lo, 0, sp - lo); }
  }
  for (int t = G.nthreads; t < oldn; t++) T[t].stat = T_UNUSED;
  get(__start_sut_data, __stop_sut_data - __start_sut_data);
  get(__start_sut_bss, __stop_sut_bss - __start_sut_bss);
  for (int i = 0; i < G.nblocks; i++) if (BL[i].live) get((void *)BL[i].addr, BL[i].size);
  if (o != b.size()) die("snapshot size mismatch");
  viol = false; ended = false; recount_alive();
}
static inline u64 mum(u64 a, u64 b) { u128 r = (u128)a * b; return (u64)r ^ (u64)(r >> 64); }
static u64 hash_bytes(const u8 *p, size_t n) {
  u64 s0 = 0x9E3779B97F4A7C15ULL ^ n, s1 = 0xD6E8FEB86659FD93ULL, s2 = 0xA0761D6478BD642FULL, s3 = 0xE7037ED1A0B428DBULL;
  while (n >= 64) { u64 w[8]; memcpy(w, p, 64);
    s0 = mum(w[0] ^ s0, w[1] ^ 0x8EBC6AF09C88C6E3ULL); s1 = mum(w[2] ^ s1, w[3] ^ 0x589965CC75374CC3ULL);
    s2 = mum(w[4] ^ s2, w[5] ^ 0x1D8E4E27C47D124FULL); s3 = mum(w[6] ^ s3, w[7] ^ 0xEB44ACCAB455D165ULL); p += 64; n -= 64; }
  u64 h = s0 ^ (s1 << 1) ^ (s1 >> 63) ^ (s2 << 2) ^ (s2 >> 62) ^ (s3 << 3) ^ (s3 >> 61);
  while (n >= 8) { u64 w; memcpy(&w, p, 8); h = mum(h ^ w, 0x9E3779B97F4A7C15ULL) + 0x632BE59BD9B4E019ULL; p += 8; n -= 8; }
  u64 w = 0; memcpy(&w, p, n); h = mum(h ^ w, 0xC2B2AE3D27D4EB4FULL); return mum(h ^ 0x2545F4914F6CDD1DULL, 0x9E3779B97F4A7C15ULL) ^ h; }

// ------------------------------------------------------------------ search
struct Alt { u8 mode; u8 tid; u16 alt; u8 cost; };
struct Choice { u8 mode, tid; u16 alt; };
static int BOUND; // current bound, -1 unbounded

static bool fault_ok(int t) {
  if (G.faults >= opt_faults || !G.explore) return false; Op &o = T[t].op; if (T[t].stat != T_READY) return false;
  if (o.kind == K_SEMWAIT) return opt_feintr; if (o.kind == K_CREACQ) return opt_fspur && *(u32 *)o.v1 == 0; if (o.kind == K_CAS) return (opt_fcas || (opt_fcasb && T[t].bound)) && o.weak && !T[t].asleep; return false; }

static void add_step(std::vector<Alt> &v, int t, int cost) {
  Op &o = T[t].op;
  if (o.kind == K_CHOOSE) {
    bool all = o.addr == 0 || !opt_sleep; u32 tried = 0; if (!all) for (u32 i = 0; i < o.size; i++) tried += choice_tried(t, o.key, i);
    // A fruitless attempt changes nothing, so whatever follows it can also follow its omission: once one alternative
    // was tried in vain, the others are tried in a fixed order (only to find out when to stop spinning).
    for (u32 i = 0; i < o.size; i++) if (all || !choice_tried(t, o.key, i)) { v.push_back({M_STEP, (u8)t, (u16)i, (u8)cost}); if (tried) break; }
    return;
  }
  if (o.kind == K_SIGNAL) { int k = 0; for (int u = 0; u < G.nthreads; u++) if (T[u].stat == T_READY && T[u].op.kind == K_CREACQ && T[u].op.addr == o.addr && !T[u].signalled) k++; for (int i = 0; i < std::max(1, k); i++) v.push_back({M_STEP, (u8)t, (u16)i, (u8)cost}); return; }
  v.push_back({M_STEP, (u8)t, 0, (u8)cost});
  if (opt_tso && G.explore && !T[t].nbuf && G.delays < opt_tso && delayable(t)) v.push_back({M_DELAY, (u8)t, 0, (u8)cost});
}
// Alternatives of the current state; false if nobody can move.
static bool alternatives(std::vector<Alt> &v) {
  v.clear();
  bool ce = cur < G.nthreads && enabled(cur);
  if (!G.explore) {
    for (int u = 0; u < G.nthreads; u++) if (T[u].stat == T_READY && T[u].nbuf) { v.push_back({M_FLUSH, (u8)u, 0, 0}); return true; }
    int t = -1;
    if (ce && T[cur].quantum < 4000) t = cur;
    else { for (int i = 1; i <= G.nthreads; i++) { int u = (cur + i) % G.nthreads; if (enabled(u)) { t = u; break; } } }
    if (t < 0) return false;
    if (t != cur) T[t].quantum = 0; T[t].quantum++;
    add_step(v, t, 0); return true;
  }
  if (ce) add_step(v, cur, 0);
  for (int u = 0; u < G.nthreads; u++) if (u != cur && enabled(u)) add_step(v, u, ce ? 1 : 0);
  bool any = !v.empty();
  for (int u = 0; u < G.nthreads; u++) if (T[u].stat == T_READY && T[u].nbuf) { v.push_back({M_FLUSH, (u8)u, 0, 0}); any = true; }
  if (!any) return false;
  for (int u = 0; u < G.nthreads; u++) if (fault_ok(u)) v.push_back({M_FAULT, (u8)u, 0, 0});
  if (opt_burst) for (int u = 0; u < G.nthreads; u++) if (T[u].stat == T_READY && T[u].asleep) v.push_back({M_BURST, (u8)u, 0, 1});
  return true;
}
static void clear_log(int t) { T[t].nlog = 0; T[t].asleep = 0; }
// Let spinning thread t go around `iters` more times, or until something changes.
static bool spin_more(int t, int iters) {
  changed_flag = false;
  for (int r = 0; r < iters; r++) {
    clear_log(t); int g = 0;
    do {
      if (!(T[t].stat == T_READY && op_enabled(t))) return changed_flag || r + g > 0;   // left its loop and waits for something else now
      int alt = 0; if (T[t].op.kind == K_CHOOSE) { if (T[t].op.addr == 0) return true; alt = fair_choice() % T[t].op.size; }
      step(t, M_STEP, alt); if (viol || ended || changed_flag) return true;
    } while (!T[t].asleep && ++g < 2000);
    if (!T[t].asleep) return true; // a long computation, not a spin
  }
  return changed_flag;
}
static const int FORCE_ROUNDS = 120;
// No thread is enabled: give spinning threads a chance. Returns true if something changed.
static bool force_run(Buf &saved) {
  bool any = false; for (int t = 0; t < G.nthreads; t++) any |= T[t].stat == T_READY && T[t].asleep;
  if (!any) return false;
  serialise(saved);
  for (int r = 0; r < FORCE_ROUNDS; r++) for (int t = 0; t < G.nthreads; t++) if (T[t].stat == T_READY && T[t].asleep) {
    changed_flag = false; if (spin_more(t, 1)) { cur = t; return true; } }
  restore(saved); return false;
}
static int quiescer() { for (int t = 0; t < G.nthreads; t++) if (T[t].stat == T_READY && T[t].op.kind == K_QUIESCE) return t; return -1; }

static void apply(const Choice &c) {
  if (tracing) {
    Op &o = T[c.tid].op; 
    fprintf(stderr, "%6lu T%-2d %-5s %-9s %s", (unsigned long)depth, c.tid, mname[c.mode], c.mode == M_FLUSH ? "" : kname[o.kind], c.mode == M_FLUSH ? where(TV[c.tid].buf[0].addr).c_str() : o.addr > 4096 ? where(o.addr).c_str() : "");
    if (c.alt) fprintf(stderr, " alt=%d", c.alt);
    fprintf(stderr, "  @ %s\n", sym(o.pc).c_str());
  }
  if (c.mode == M_FORCE) { Buf b; if (!force_run(b)) { if (!viol) die("replay: force-run made no progress"); } return; }
  if (c.mode == M_BURST) { spin_more(c.tid, 40); if (!viol && !ended) cur = c.tid; return; }
  int t = c.tid; Mode m = (Mode)c.mode; if (m != M_FLUSH) cur = t;
  step(t, m, c.alt);
}

// visited states
struct VEnt { u64 key; u32 node; u8 devs; };
static std::vector<VEnt> vt; static u64 vt_n = 0;
static void vt_init(size_t n) { vt.assign(n, VEnt{0, 0, 0}); vt_n = 0; }
static VEnt *vt_find(u64 k) { size_t m = vt.size() - 1, i = k & m; while (vt[i].key && vt[i].key != k) i = (i + 1) & m; return &vt[i]; }
static void vt_grow() { std::vector<VEnt> old; old.swap(vt); vt.assign(old.size() * 2, VEnt{0, 0, 0}); for (auto &e : old) if (e.key) *vt_find(e.key) = e; }

struct Node { u32 parent; Choice c; u8 flag; }; // flag: 1 terminal/unknown(reaches)
static std::vector<Node> nodes; static std::vector<std::pair<u32,u32>> edges; static bool edges_full = false;

struct Frame { Buf snap; std::vector<Alt> alts; size_t next; u32 node; size_t pathlen; };
static std::vector<Choice> path;
static std::vector<Choice> ce_path; static bool have_ce = false; static std::string ce_msg;
static u64 c_transitions, c_terminals, c_truncated, c_maxdepth, c_forced, c_validated, c_choose; static std::unordered_set<u64> outcomes; static bool capped; static std::string cap_why;
static std::vector<std::vector<Choice>> sample_paths; static std::vector<u64> sample_obs;
static u64 best_states, best_trans, best_terms, best_depth, best_outcomes, best_shared; static int best_bound = -2; static bool exhausted = false;
static Buf S0;
static u64 opt_maxdepth = 60000; static u64 c_fair = 0; static u64 live_checked, live_confirmed_ok;
static bool fair_run(const std::vector<Choice> &p);

static u64 state_key() {
  serialise(sbuf); u64 h = hash_bytes(&sbuf[sbuf_hash_off], sbuf.size() - sbuf_hash_off);
  if (BOUND >= 0) { int c = (cur < G.nthreads && enabled(cur)) ? cur + 1 : 0; h = mum(h ^ (u64)c * 0x9E3779B97F4A7C15ULL, 0xA0761D6478BD642FULL); }
  return h ? h : 1;
}
static void record_ce(const std::string &m) { if (!have_ce) { have_ce = true; ce_path = path; ce_msg = m; } }
static int newnode(u32 parent, const Choice &c) { nodes.push_back({parent, c, 0}); return nodes.size() - 1; }

// One depth-first exploration at bound BOUND. Returns when done, capped, or a violation is found.
static void dfs() {
  vt_init(1 << 16); nodes.clear(); edges.clear(); edges_full = false; path.clear(); outcomes.clear(); sample_paths.clear(); sample_obs.clear();
  c_transitions = c_terminals = c_truncated = c_maxdepth = c_forced = 0; capped = false; learn_dirty = false;
  restore(S0); std::vector<Frame> st; std::vector<Alt> alts; u64 lin = 0; Buf tmp;
  u32 pnode = newnode(0, Choice{0, 0, 0}); Choice lastc{0, 0, 0};
  u64 tick = 0;
  for (;;) {
    bool back, deterministic, have_alts; back = deterministic = have_alts = false;
    if (viol) { record_ce(viol_msg); return; }
    if ((++tick & 1023) == 0 && now() - t_start > opt_time) { capped = true; cap_why = "time"; return; }
    if (ended) {
      c_terminals++; nodes[pnode].flag = 1; u64 ob = G.obs * 2 + ended_how; outcomes.insert(ob);
      if (sample_paths.size() < (size_t)opt_validate || (outcomes.size() > sample_paths.size() && sample_paths.size() < 3 * (size_t)opt_validate)) { sample_paths.push_back(path); sample_obs.push_back(ob); }
      back = true;
    } else if (depth > opt_maxdepth) { c_truncated++; nodes[pnode].flag = 1; back = true; if (!G.explore) { record_ce("no termination within " + std::to_string(opt_maxdepth) + " steps of the default schedule"); return; } }
    else {
      have_alts = alternatives(alts);
      if (!have_alts) {
        if (force_run(tmp)) { c_forced++; path.push_back({M_FORCE, 0, 0}); c_transitions++; if (viol) { record_ce(viol_msg); return; } if (c_forced > 50000000) { capped = true; return; } continue; }
        if (viol) { record_ce(viol_msg); return; }
        int q = quiescer();
        if (q < 0) {
          std::string m = "deadlock:"; for (int t = 0; t < G.nthreads; t++) if (T[t].stat == T_READY) m += " T" + std::to_string(t) + (T[t].asleep ? " spins at " : " blocked in ") + (T[t].asleep ? "" : std::string(kname[T[t].op.kind]) + " at ") + sym(T[t].op.pc) + ";";
          bool spins = false; for (int t = 0; t < G.nthreads; t++) spins |= T[t].stat == T_READY && T[t].asleep;
          if (spins && !learn_dirty && c_fair < 200) { // a spinner may only need longer than the forced rounds: let a fair schedule decide
            c_fair++; std::vector<Choice> p = path; std::vector<Choice> keep = path; bool fr = fair_run(p);
            viol = ended = false; path = keep;
            if (fr) { live_confirmed_ok++; nodes[pnode].flag = 1; goto backtrack; }
          }
          record_ce(m); return;
        }
        alts.push_back({M_STEP, (u8)q, 0, 0});
      }
      // linear segments with a single alternative and exploration off need no state storage
      if (!G.explore && !G.just_off && alts.size() == 1) { deterministic = true; }
    }
    if (deterministic) {
      if (++lin > 400000000) { capped = true; cap_why = "steps"; return; }
      apply({alts[0].mode, alts[0].tid, alts[0].alt}); c_transitions++; if (depth > c_maxdepth) c_maxdepth = depth; continue;
    }
    if (!back) {
      u64 k = state_key(); VEnt *e = vt_find(k); u32 node;
      if (e->key && e->devs <= devs) { if (!edges_full) edges.push_back({pnode, e->node}); back = true; }
      else {
        if (e->key) { node = e->node; e->devs = devs; }
        else { node = newnode(pnode, lastc); *e = VEnt{k, node, (u8)std::min(devs, 255)}; if (++vt_n * 2 > vt.size()) vt_grow(); }
        if (!edges_full) edges.push_back({pnode, node});
        if (edges.size() > 120000000) { edges_full = true; edges.clear(); edges.shrink_to_fit(); }
        if (vt_n > opt_maxstates) { capped = true; cap_why = "states"; return; }
        // budget filter
        if (BOUND >= 0) { size_t w = 0; for (auto &a : alts) if (devs + a.cost <= BOUND) alts[w++] = a; alts.resize(w); }
        if (alts.size() == 1) { Alt a = alts[0]; lastc = {a.mode, a.tid, a.alt}; path.push_back({a.mode, a.tid, a.alt}); devs += a.cost; pnode = node; apply({a.mode, a.tid, a.alt}); c_transitions++; if (depth > c_maxdepth) c_maxdepth = depth; continue; }
        if (alts.empty()) { back = true; }
        else {
          st.emplace_back(); Frame &f = st.back(); f.snap = sbuf; f.alts = alts; f.next = 1; f.node = node; f.pathlen = path.size();
          Alt a = alts[0]; lastc = {a.mode, a.tid, a.alt}; path.push_back({a.mode, a.tid, a.alt}); devs += a.cost; pnode = node; apply({a.mode, a.tid, a.alt}); c_transitions++; if (depth > c_maxdepth) c_maxdepth = depth; continue;
        }
      }
    }
    backtrack:
    while (!st.empty() && st.back().next >= st.back().alts.size()) st.pop_back();
    if (st.empty()) return;
    Frame &f = st.back(); restore(f.snap); path.resize(f.pathlen); Alt a = f.alts[f.next++]; lastc = {a.mode, a.tid, a.alt}; path.push_back({a.mode, a.tid, a.alt}); pnode = f.node; devs += a.cost;
    apply({a.mode, a.tid, a.alt}); c_transitions++;
  }
}

// ---- replay of a recorded path from the initial state
static bool replay_path(const std::vector<Choice> &p, u64 *obs, std::string *msg) {
  restore(S0); size_t i = 0; std::vector<Alt> alts; u64 guard = 0; Buf tmp;
  for (;;) {
    if (viol) { if (msg) *msg = viol_msg; return true; }
    if (ended) { if (obs) *obs = G.obs * 2 + ended_how; if (msg) msg->clear(); return i >= p.size(); }
    if (depth > opt_maxdepth + 1000) { if (msg) *msg = "no termination within " + std::to_string(opt_maxdepth) + " steps of the default schedule"; return true; }
    bool ok = alternatives(alts);
    if (!ok) {
      if (force_run(tmp)) { if (i >= p.size() || p[i].mode != M_FORCE) die("replay diverged (force)"); i++; continue; }
      if (viol) continue;
      int q = quiescer(); if (q < 0) { if (msg) *msg = "deadlock"; return true; } alts.push_back({M_STEP, (u8)q, 0, 0});
    }
    if (!G.explore && !G.just_off && alts.size() == 1) { if (++guard > 400000000) return false; apply({alts[0].mode, alts[0].tid, alts[0].alt}); continue; }
    if (i >= p.size()) { if (msg) *msg = "(end of recorded path)"; return true; }
    Choice c = p[i++]; bool found = false; for (auto &a : alts) if (a.mode == c.mode && a.tid == c.tid && a.alt == c.alt) found = true;
    if (!found) die("replay diverged at choice %zu", i - 1);
    apply(c);
  }
}
// ---- from the state reached by path p, does a fair schedule end the program? Quanta vary; no spin reduction.
static bool fair_run(const std::vector<Choice> &p) {
  std::string m; static const int quanta[] = {3, 17, 101, 1009, 20011};
  int sv = opt_sleep, svt = opt_tso;
  for (int qi = 0; qi < 5; qi++) {
    if (!replay_path(p, nullptr, &m)) return true;
    if (ended) return true; if (viol) return true;
    opt_sleep = 0; opt_tso = 0; for (int t = 0; t < G.nthreads; t++) clear_log(t);
    G.explore = 0; u64 total = 0, changed_at = 0; int t = 0, idle = 0; bool done = false;
    while (total < 3000000) {
      // mc_quiesce returns once nothing has changed for long
      if (total - changed_at > 30000 + 40 * (u64)quanta[qi]) { int q = quiescer(); if (q >= 0) { cur = q; step(q, M_STEP, 0); changed_at = total; if (ended || viol) { done = true; break; } } }
      t = (t + 1) % G.nthreads; if (T[t].stat == T_READY) drain(t);
      if (!(T[t].stat == T_READY && op_enabled(t))) { if (++idle > 2 * G.nthreads) { int q = quiescer(); if (q >= 0) { cur = q; step(q, M_STEP, 0); idle = 0; if (ended || viol) { done = true; break; } continue; } break; } continue; }
      idle = 0;
      for (int k = 0; k < quanta[qi] && T[t].stat == T_READY && op_enabled(t); k++) {
        int alt = 0; if (T[t].op.kind == K_CHOOSE) alt = T[t].op.addr ? fair_choice() % T[t].op.size : 0;
        changed_flag = false; step(t, M_STEP, alt); total++; if (changed_flag) changed_at = total; if (G.explore) G.explore = 0; if (ended || viol) { done = true; break; }
      }
      if (done) break;
    }
    opt_sleep = sv; opt_tso = svt;
    if (done) return true;
  }
  return false;
}

// paths to nodes are rebuilt from full recorded paths, so store for each node the whole choice list lazily
static std::vector<std::vector<Choice>> dummy;

// ------------------------------------------------------------------ liveness: every state can reach the end
static std::vector<u32> rev_head, rev_next;
static bool liveness() {
  if (edges_full) return true;
  size_t n = nodes.size(); rev_head.assign(n, ~0u); rev_next.assign(edges.size(), ~0u);
  for (size_t i = 0; i < edges.size(); i++) { rev_next[i] = rev_head[edges[i].second]; rev_head[edges[i].second] = i; }
  std::vector<u32> q; for (u32 i = 0; i < n; i++) if (nodes[i].flag) q.push_back(i);
  auto spread = [&]() { while (!q.empty()) { u32 x = q.back(); q.pop_back(); for (u32 e = rev_head[x]; e != ~0u; e = rev_next[e]) { u32 y = edges[e].first; if (!nodes[y].flag) { nodes[y].flag = 2; q.push_back(y); } } } };
  spread(); live_checked = n; int tries = 0;
  for (u32 i = 1; i < n; i++) if (!nodes[i].flag) {
    if (++tries > 300 || now() - t_start > opt_time + 60) { cap_why += " liveness-unconfirmed"; return true; }
    // DFS parents are discovered before children; find the recorded path
    std::vector<Choice> p; u32 x = i; std::vector<Choice> rev; 
    extern std::vector<Choice> node_path(u32);
    p = node_path(x);
    if (fair_run(p)) { live_confirmed_ok++; nodes[i].flag = 2; q.push_back(i); spread(); }
    else { have_ce = true; ce_path = p; ce_msg = "the end of the program is unreachable from here (no schedule, and no fair schedule of 3000000 steps, ends it)"; return false; }
  }
  return true;
}
// The path to a node: choices recorded per node may skip forced steps, so search again for it depth-first along parents.
std::vector<Choice> node_path(u32 n) {
  std::vector<u32> chain; while (n) { chain.push_back(n); n = nodes[n].parent; } std::reverse(chain.begin(), chain.end());
  // replay along the chain, inserting forced steps where they occur
  restore(S0); std::vector<Choice> p; std::vector<Alt> alts; Buf tmp; size_t i = 0;
  for (;;) {
    if (viol || ended) return p;
    bool ok = alternatives(alts);
    if (!ok) { if (force_run(tmp)) { p.push_back({M_FORCE, 0, 0}); continue; } int q = quiescer(); if (q < 0) return p; alts.push_back({M_STEP, (u8)q, 0, 0}); }
    if (!G.explore && !G.just_off && alts.size() == 1) { apply({alts[0].mode, alts[0].tid, alts[0].alt}); continue; }
    if (i >= chain.size()) return p;
    // now at the state of chain[i]; the choice leading to chain[i+1] is recorded there
    if (i + 1 >= chain.size()) return p;
    Choice c = nodes[chain[i + 1]].c; i++;
    p.push_back(c); apply(c);
  }
}

static void on_signal(int sig) {
  if (CT < 0) { const char m[] = "lmc: internal error: signal in the explorer\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(3); }
  sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, 0);
  if (!viol) { viol = true; viol_msg = std::string("the code under test crashed: ") + (sig == SIGSEGV ? "invalid memory access" : sig == SIGFPE ? "arithmetic error" : sig == SIGBUS ? "bus error" : "signal ") + (sig == SIGSEGV || sig == SIGFPE || sig == SIGBUS ? "" : std::to_string(sig)); }
  void *d; mc_switch(&d, engine_sp);
}
static u64 alarm_last = ~0ULL; static int alarm_same = 0;
static void on_alarm(int) { // a fiber that makes no instrumented access for a long time
  if (CT < 0) { alarm_same = 0; return; }
  u64 x = n_steps * 1315423911u + cb_since_yield; if (x == alarm_last) alarm_same++; else alarm_same = 0; alarm_last = x;
  if (alarm_same >= 15) { if (!viol) { viol = true; viol_msg = "endless loop without shared accesses"; } sigset_t s; sigemptyset(&s); sigaddset(&s, SIGALRM); sigprocmask(SIG_UNBLOCK, &s, 0); void *d; mc_switch(&d, engine_sp); }
}

static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) r += ' '; else r += c; } return r; }
static std::string path_str(const std::vector<Choice> &p) { std::string r; char b[40]; for (auto &c : p) { snprintf(b, sizeof b, "%c%d%s", "sdfFbx"[c.mode], c.tid, ""); r += b; if (c.alt) { snprintf(b, sizeof b, "/%d", c.alt); r += b; } r += ' '; } return r; }
static std::vector<Choice> parse_path(const std::string &s) { std::vector<Choice> p; size_t i = 0; while (i < s.size()) { while (i < s.size() && isspace(s[i])) i++; if (i >= s.size()) break; const char *m = strchr("sdfFbx", s[i]); if (!m) die("bad path"); int md = m - "sdfFbx"; i++; int t = 0, a = 0; while (i < s.size() && isdigit(s[i])) t = t * 10 + s[i++] - '0'; if (i < s.size() && s[i] == '/') { i++; while (i < s.size() && isdigit(s[i])) a = a * 10 + s[i++] - '0'; } p.push_back({(u8)md, (u8)t, (u16)a}); } return p; }
// compress runs "s1 s1 s1" -> counts for the evidence sample
static std::string path_short(const std::vector<Choice> &p) { std::string r; size_t i = 0; char b[48]; while (i < p.size() && r.size() < 400) { size_t j = i; while (j < p.size() && p[j].mode == p[i].mode && p[j].tid == p[i].tid && p[j].alt == p[i].alt) j++; snprintf(b, sizeof b, "%c%d", "sdfFbx"[p[i].mode], p[i].tid); r += b; if (p[i].alt) r += "/" + std::to_string(p[i].alt); if (j - i > 1) r += "x" + std::to_string(j - i); r += ' '; i = j; } if (i < p.size()) r += "..."; return r; }

int main(int argc, char **argv) {
  setvbuf(stdout, 0, _IOLBF, 0);
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { if (i + 1 >= argc) die("missing argument for %s", a.c_str()); return std::string(argv[++i]); };
    if (a == "-debugsearch") { tracing = true; nx(); } else if (a == "-b") opt_bound = atoi(nx().c_str()); else if (a == "-first") opt_first = atoi(nx().c_str()); else if (a == "-tso") opt_tso = atoi(nx().c_str()); else if (a == "-pso") opt_pso = atoi(nx().c_str());
    else if (a == "-k") opt_k = atoi(nx().c_str()); else if (a == "-faults") { opt_faults = atoi(nx().c_str()); std::string k = nx(); opt_feintr = k.find('i') != std::string::npos; opt_fspur = k.find('s') != std::string::npos; opt_fcas = k.find('c') != std::string::npos; opt_fcasb = k.find('b') != std::string::npos; }
    else if (a == "-burst") opt_burst = 1; else if (a == "-trace") opt_trace = atoi(nx().c_str()); else if (a == "-states") opt_maxstates = atoll(nx().c_str()); else if (a == "-time") opt_time = atof(nx().c_str());
    else if (a == "-norng") opt_rng = 0; else if (a == "-nolive") opt_live = 0; else if (a == "-out") opt_out = nx(); else if (a == "-ce") opt_ceout = nx(); else if (a == "-replay") opt_replay = nx(); else if (a == "-depth") opt_maxdepth = atoll(nx().c_str()); else if (a == "-validate") opt_validate = atoi(nx().c_str());
    else if (a == "-p") { std::string s = nx(); size_t e = s.find('='); params[s.substr(0, e)] = atoi(s.c_str() + e + 1); }
    else die("unknown option %s", a.c_str()); }
  t_start = now();
  auto map = [&](u64 a, u64 n) { void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void *)a) die("mmap"); };
  map(STK_BASE, MAXT * STK_SIZE); map(HEAP_BASE, HEAP_SIZE); for (int i = 0; i < MAXT; i++) mprotect((void *)(STK_BASE + i * STK_SIZE), 4096, PROT_NONE);
  auto anon = [&](u64 n) { void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) die("mmap"); return (Gran *)p; };
  sh_stack = anon(MAXT * STK_SIZE / 8 * 2); sh_heap = anon(HEAP_SIZE / 8 * 2);
  glob_lo = std::min((u64)__start_sut_data ? (u64)__start_sut_data : ~0ULL, (u64)__start_sut_bss ? (u64)__start_sut_bss : ~0ULL) & ~7ULL; glob_hi = std::max((u64)__stop_sut_data, (u64)__stop_sut_bss); glob_hi = (glob_hi + 7) & ~7ULL;
  if (glob_hi - glob_lo > (64 << 20)) die("globals too large"); sh_glob = anon((glob_hi - glob_lo) / 8 * 2 + 64);
  dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) { for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { u64 m = i->dlpi_phdr[k].p_memsz, al = std::max<u64>(1, i->dlpi_phdr[k].p_align); tls_size = (m + al - 1) / al * al; tls_base = (u64)__builtin_thread_pointer() - tls_size; } return 1; }, nullptr);
  if (tls_size > 96) die("thread-local storage too large (%lu)", tls_size);
  if (tls_size) memcpy(tls_init, (void *)tls_base, tls_size);
  static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
  struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGTRAP, &sa, 0);
  sa.sa_handler = on_alarm; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGALRM, &sa, 0); struct itimerval it{{1, 0}, {1, 0}}; setitimer(ITIMER_REAL, &it, 0);
  memset(&G, 0, sizeof G); G.nthreads = 1; G.fail_alloc = G.fail_thr = -1; mk_fiber(0, nullptr, nullptr); recount_alive(); cur = 0; devs = 0; depth = 0; serialise(S0);

  if (!opt_replay.empty()) {
    FILE *f = fopen(opt_replay.c_str(), "r"); if (!f) die("cannot open %s", opt_replay.c_str()); std::string line, p; char b[65536]; int b0 = -1; std::vector<u64> shared;
    std::string all; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) all.append(b, n); fclose(f);
    size_t pos = 0; while (pos < all.size()) { size_t e = all.find('\n', pos); if (e == std::string::npos) e = all.size(); line = all.substr(pos, e - pos); pos = e + 1;
      if (line.compare(0, 6, "path: ") == 0) p = line.substr(6); if (line.compare(0, 7, "bound: ") == 0) b0 = atoi(line.c_str() + 7);
      if (line.compare(0, 8, "shared: ") == 0) { char *q = (char *)line.c_str() + 8; for (;;) { char *e2; u64 v = strtoull(q, &e2, 16); if (e2 == q) break; shared.push_back(v); q = e2; } } }
    BOUND = b0; for (u64 a : shared) { Gran *g = gran(a); if (g) g->flags |= 7; }
    tracing = opt_trace > 0; std::string m; u64 ob = 0; bool r = replay_path(parse_path(p), &ob, &m); 
    if (!m.empty() && m != "(end of recorded path)") { printf("replay: %s\n", m.c_str()); return 1; }
    if (m.empty() && r) { printf("replay: completed, observation %lx\n", ob); return 0; }
    tracing = false; bool fr = fair_run(parse_path(p)); printf("replay: %s\n", fr ? "completed on a fair schedule" : "the end of the program is unreachable"); return fr ? 0 : 1;
  }
  // iterate bounds
  int b = opt_bound < 0 ? -1 : opt_first; int reruns = 0; std::string status = "ok"; std::vector<Choice> sample; u64 sh_at = 0; bool last_capped = false; u64 tot_trans = 0; int attempted = -2;
  for (;;) {
    BOUND = b; attempted = b; dfs(); tot_trans += c_transitions;
    if (have_ce && learn_dirty && reruns < 400) { reruns++; have_ce = false; ce_msg.clear(); continue; } // found with incomplete sharing information: look again
    if (have_ce) break;
    if (capped) { last_capped = true; if (best_bound == -2) { best_states = nodes.size(); best_trans = c_transitions; best_terms = c_terminals; best_depth = c_maxdepth; best_outcomes = outcomes.size(); } break; }
    if (learn_dirty && reruns < 400) { reruns++; continue; }
    if (opt_live && !liveness()) break;
    bool same = best_bound >= 0 && best_states == nodes.size() && best_trans == c_transitions; (void)same;
    best_bound = b; best_states = nodes.size(); best_trans = c_transitions; best_terms = c_terminals; best_depth = c_maxdepth; best_outcomes = outcomes.size(); sh_at = n_shared; sample = sample_paths.empty() ? std::vector<Choice>() : sample_paths.back();
    // validate complete executions by replaying them from the initial state, without state storage
    std::vector<std::vector<Choice>> sp = sample_paths; std::vector<u64> so = sample_obs;
    c_validated = 0; for (size_t i = 0; i < sp.size(); i++) { u64 ob = 0; std::string m; if (!replay_path(sp[i], &ob, &m) || ob != so[i] || !m.empty()) die("a recorded schedule did not replay to the same observation: %s", m.c_str()); c_validated++; }
    if (b < 0 || b >= opt_bound) { exhausted = b < 0; break; }
    b++;
  }
  if (have_ce) { // minimal effort shrink: try lower bounds first is implied by iteration; confirm by replay
    std::string m; u64 ob; BOUND = attempted; bool r = replay_path(ce_path, &ob, &m); status = "violation"; 
    if (!r || (m.empty())) die("violation did not replay: %s", ce_msg.c_str());
    if (!opt_ceout.empty()) { FILE *f = fopen(opt_ceout.c_str(), "w"); if (f) { fprintf(f, "violation: %s\nbound: %d\nargs:", ce_msg.c_str(), attempted); for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-ce" || a == "-out") { i++; continue; } fprintf(f, " %s", argv[i]); } fprintf(f, "\npath: %s\nshared:", path_str(ce_path).c_str());
        auto dump = [&](Gran *g, u64 base, u64 n) { for (u64 i = 0; i < n; i++) if (g[i].flags & 4) fprintf(f, " %lx", base + i * 8); };
        dump(sh_glob, glob_lo, (glob_hi - glob_lo) / 8); for (int t = 0; t < MAXT; t++) dump(sh_heap + t * ARENA / 8, HEAP_BASE + t * ARENA, std::min<u64>(ARENA, max_top[t] + 4096) / 8); dump(sh_stack, STK_BASE, MAXT * STK_SIZE / 8); fprintf(f, "\n"); fclose(f); } }
  }
  char js[4096];
  snprintf(js, sizeof js, "{\"status\":\"%s\",\"message\":\"%s\",\"bound\":%d,\"exhaustive\":%s,\"capped\":%s,\"cap\":\"%s\",\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"outcomes\":%lu,\"max_depth\":%lu,\"truncated\":%lu,\"shared_words\":%lu,\"validated\":%lu,\"live_states\":%lu,\"fair_confirmed\":%lu,\"all_transitions\":%lu,\"wall\":%.2f,\"sample\":\"%s\"}\n",
    status.c_str(), jesc(ce_msg).c_str(), best_bound, exhausted ? "true" : "false", last_capped ? "true" : "false", cap_why.c_str(), best_states, best_trans, best_terms, best_outcomes, best_depth, c_truncated, sh_at, c_validated, live_checked, live_confirmed_ok, tot_trans, now() - t_start, jesc(path_short(have_ce ? ce_path : sample)).c_str());
  if (opt_out.empty()) fputs(js, stdout); else { FILE *f = fopen(opt_out.c_str(), "w"); if (!f) die("cannot write %s", opt_out.c_str()); fputs(js, f); fclose(f); }
  return status == "ok" ? 0 : 1;
}
