// Deterministic-simulation runtime.
//
// Linked into the harness and into the shipped program.  Every crate is compiled with
// LLVM's thread instrumentation but WITHOUT the sanitizer's runtime: this file supplies the
// __tsan_* entry points instead, so every shared-memory access and atomic operation of the
// real code (repository, rayon, crossbeam, inlined std) is a scheduling point.  Real OS
// threads exist, but exactly one holds the baton; who runs next is decided here from one
// PRNG.  Blocking (futex), thread creation/join/exit, yields, sleeps, clocks, file reads,
// stdout writes, allocation and randomness are intercepted at the libc boundary.
//
// While the simulation is off every hook is a no-op that falls through to the real call.
#define _GNU_SOURCE
#include "simrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define unlikely(x) __builtin_expect(!!(x), 0)
#define EXPORT __attribute__((visibility("default")))

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
extern size_t malloc_usable_size(void *);
extern char __executable_start;

// ---------------------------------------------------------------- raw system calls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
static long ret_errno(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ---------------------------------------------------------------- state
enum { T_UNUSED, T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };
typedef struct {
  int st, id, prio, timed, woken, join_target, detached;
  uint32_t baton;
  uint32_t *faddr;
  uint32_t fbits;
  uint64_t wake_at, fseq;
  uint64_t lstep;        // thread-local step counter (while not running)
  uint64_t stall_until;  // in global steps
  uint64_t rcur;         // replay cursor
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
} thr;

static sim_shared *SH;
static int ON;                 // simulation running
static thr T[SIM_MAX_THREADS];
static int NT, CUR;
static uint64_t S_step;        // local step counter of the running thread
static uint64_t S_next = UINT64_MAX;
static uint64_t S_in;          // S_step at the last accounting point
static uint64_t S_run;         // S_step when the running thread was switched in (starvation guard)
static uint64_t G_base;        // global steps before that
static uint64_t R_sched, R_io, R_misc; // PRNG states: scheduling, I/O faults, clock and randomness
static uint64_t FSEQ;
static uint64_t clk_off;
static uint64_t wall0; // where the wall clock starts
static uint64_t pct_pts[16];
static uint32_t pct_i;
static int pct_low;
static pthread_key_t exit_key;
static int exempt_threads;     // threads the harness creates from thread 0 are never failed
static uint32_t *rp_idx[SIM_MAX_THREADS];
static uint32_t rp_n[SIM_MAX_THREADS];
static __thread int my_id = -1;

static inline uint64_t rnd(uint64_t *s) { // splitmix64
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline uint64_t gsteps(void) { return G_base + (S_step - S_in); }
static inline uint64_t sim_now(void) { return 1000000000ull + clk_off + gsteps() * SH->ns_per_step; }

static void stop_run(int verdict, const char *why) __attribute__((noreturn));
static void stop_run(int verdict, const char *why) {
  SH->verdict = verdict;
  strncpy(SH->diag, why, sizeof SH->diag - 1);
  SH->steps = gsteps();
  SH->sim_ns = sim_now();
  raw6(SYS_exit_group, 77, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

static inline void mix(uint64_t *h, uint64_t v) {
  *h ^= v + 0x9E3779B97F4A7C15ull + (*h << 6) + (*h >> 2);
  *h *= 0x100000001B3ull;
}
static void record(int kind, int tid, int to, uint64_t key, uint32_t pc) {
  mix(&SH->ev_hash, ((uint64_t)kind << 56) ^ ((uint64_t)tid << 48) ^ ((uint64_t)to << 40) ^ key);
  if (SH->ntrace < SIM_MAX_TRACE) {
    sim_ev *e = &SH->trace[SH->ntrace++];
    e->kind = (uint8_t)kind; e->tid = (uint8_t)tid; e->to = (uint16_t)to; e->key = key; e->pc = pc;
  } else SH->trace_overflow = 1;
}

// ---------------------------------------------------------------- scheduler
static void set_next(void) { // when is the next point at which slow_point must look?
  uint64_t n = S_run + SH->starve_limit;
  uint64_t cap = SH->max_steps > G_base ? SH->max_steps - G_base + S_in : S_in;
  if (cap < n) n = cap;
  if (SH->policy == POL_REPLAY) {
    thr *t = &T[CUR];
    while (t->rcur < rp_n[CUR] && SH->replay[rp_idx[CUR][t->rcur]].key <= S_step) t->rcur++;
    if (t->rcur < rp_n[CUR]) {
      uint64_t k = SH->replay[rp_idx[CUR][t->rcur]].key;
      if (k < n) n = k;
    }
  } else {
    if (SH->mem_mean) {
      // geometric-like: uniform in [1, 2*mean)
      uint64_t k = S_step + 1 + rnd(&R_sched) % (2ull * SH->mem_mean);
      if (k < n) n = k;
    }
    if (SH->policy == POL_PCT && pct_i < SH->pct_depth) {
      uint64_t g = pct_pts[pct_i] > G_base ? pct_pts[pct_i] - G_base + S_in : S_step + 1;
      if (g < n) n = g;
    }
  }
  S_next = n;
}

static void wait_baton(int me) {
  while (__atomic_load_n(&T[me].baton, __ATOMIC_ACQUIRE) == 0)
    raw6(SYS_futex, (long)&T[me].baton, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&T[me].baton, 0, __ATOMIC_RELAXED);
}
static void give_baton(int to) {
  __atomic_store_n(&T[to].baton, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&T[to].baton, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void account_out(void) { // the running thread stops running
  T[CUR].lstep = S_step;
  G_base = gsteps();
  S_in = S_step;
}
static void switch_in(int to) {
  CUR = to;
  S_step = T[to].lstep;
  S_in = S_step;
  S_run = S_step;
  SH->switches++;
  set_next();
}
static void do_switch(int to) {
  int me = CUR;
  if (to == me) { account_out(); set_next(); return; }
  account_out();
  switch_in(to);
  give_baton(to);
  wait_baton(me);
}

static void promote_sleepers(void) {
  uint64_t now = sim_now();
  for (int i = 0; i < NT; i++)
    if ((T[i].st == T_SLEEP || (T[i].st == T_FUTEX && T[i].timed)) && T[i].wake_at <= now) {
      T[i].woken = T[i].st == T_FUTEX ? 2 : 1;
      T[i].st = T_RUN;
    }
}
// Collect runnable threads; advances the clock when nothing can run.
static int runnable(int *out, int exclude) {
  promote_sleepers();
  int n = 0, ns = 0, st[SIM_MAX_THREADS];
  uint64_t g = gsteps();
  for (int i = 0; i < NT; i++)
    if (T[i].st == T_RUN && i != exclude) {
      if (T[i].stall_until > g) st[ns++] = i; else out[n++] = i;
    }
  if (n == 0 && ns) { memcpy(out, st, sizeof(int) * ns); n = ns; for (int i = 0; i < ns; i++) T[st[i]].stall_until = 0; }
  return n;
}
static int runnable_or_advance(int *out, int exclude) {
  int n = runnable(out, exclude);
  if (n == 0 && (exclude < 0 || T[exclude].st != T_RUN)) {
    uint64_t best = UINT64_MAX;
    for (int i = 0; i < NT; i++)
      if ((T[i].st == T_SLEEP || (T[i].st == T_FUTEX && T[i].timed)) && T[i].wake_at < best) best = T[i].wake_at;
    if (best == UINT64_MAX) return 0;
    uint64_t now = sim_now();
    if (best > now) clk_off += best - now;
    n = runnable(out, exclude);
  }
  return n;
}

// Choose who runs next. forced: the current thread cannot (or asked not to) continue.
static int choose(int kind, int forced) {
  int c[SIM_MAX_THREADS];
  int n = runnable_or_advance(c, forced ? CUR : -1);
  if (n == 0) return -1;
  switch (SH->policy) {
  case POL_RANDOM:
    return c[rnd(&R_sched) % n];
  case POL_PCT: {
    int b = c[0];
    for (int i = 1; i < n; i++) if (T[c[i]].prio > T[b].prio) b = c[i];
    return b;
  }
  default: { // sequential: keep going, otherwise the next id in circular order
    if (!forced) for (int i = 0; i < n; i++) if (c[i] == CUR) return CUR;
    int b = -1, bd = INT_MAX;
    for (int i = 0; i < n; i++) {
      int d = (c[i] - CUR + NT) % NT;
      if (d == 0) d = NT;
      if (d < bd) { bd = d; b = c[i]; }
    }
    (void)kind;
    return b;
  }
  }
}

// Look up a recorded decision for (CUR, S_step); returns target or -1
static int replay_lookup(int kind, int *spur) {
  thr *t = &T[CUR];
  int res = -1;
  (void)kind;
  while (t->rcur < rp_n[CUR]) {
    sim_ev *e = &SH->replay[rp_idx[CUR][t->rcur]];
    if (e->key < S_step) { t->rcur++; continue; }
    if (e->key > S_step) break;
    t->rcur++;
    if (e->kind == K_SPUR) { if (spur) *spur = e->to; continue; }
    if (e->to < NT && (T[e->to].st == T_RUN || 1)) res = e->to;
  }
  return res;
}

static void wake_spurious(int w, uint32_t pc) {
  if (w >= 0 && w < NT && T[w].st == T_FUTEX) {
    T[w].st = T_RUN; T[w].woken = 1; SH->spurious++;
    record(K_SPUR, CUR, w, S_step, pc);
  }
}

static void maybe_disturb(uint32_t pc) { // generated (not replayed) spurious wakeups and stalls
  if (SH->spur_den && rnd(&R_sched) % SH->spur_den == 0) {
    int c[SIM_MAX_THREADS], n = 0;
    for (int i = 0; i < NT; i++) if (T[i].st == T_FUTEX) c[n++] = i;
    if (n) wake_spurious(c[rnd(&R_sched) % n], pc);
  }
  if (SH->stall_den && rnd(&R_sched) % SH->stall_den == 0) {
    int v = (int)(rnd(&R_sched) % NT);
    if (T[v].st != T_DONE) { T[v].stall_until = gsteps() + 1 + rnd(&R_sched) % SH->stall_len; SH->stalls++; }
  }
}

// A point at which the running thread may be preempted.
static void preempt_point(uint32_t pc, int want) {
  int to;
  if (gsteps() >= SH->max_steps) stop_run(V_STEPS, "step budget exhausted");
  if (SH->policy == POL_REPLAY) {
    int spur = -1;
    to = replay_lookup(K_PREEMPT, &spur);
    if (spur >= 0) wake_spurious(spur, pc);
    if (to < 0 && S_step >= S_run + SH->starve_limit) to = choose(K_PREEMPT, 1);
    promote_sleepers();
    if (to < 0 || to >= NT || T[to].st != T_RUN || to == CUR) {
      if (S_step >= S_run + SH->starve_limit) S_run = S_step;
      set_next();
      return;
    }
  } else {
    int starved = S_step >= S_run + SH->starve_limit;
    maybe_disturb(pc);
    if (SH->policy == POL_PCT && pct_i < SH->pct_depth && gsteps() >= pct_pts[pct_i]) {
      T[CUR].prio = --pct_low;
      pct_i++;
    }
    if (SH->policy == POL_PCT && starved) T[CUR].prio = --pct_low;
    if (SH->policy == POL_SEQ && !starved) { set_next(); return; }
    (void)want;
    to = choose(K_PREEMPT, starved);
    if (to < 0 || to == CUR) { if (starved) S_run = S_step; do_switch(CUR); return; }
  }
  SH->preempts++;
  mix(&SH->sched_hash, ((uint64_t)CUR << 40) ^ ((uint64_t)to << 32) ^ pc);
  record(K_PREEMPT, CUR, to, S_step, pc);
  do_switch(to);
}

#define SIM_YIELD_WINDOW 2000000
static uint64_t Y_seen, Y_from, Y_step;
// The running thread has changed its own state (blocked / yielded / finished): hand over.
static void hand_over(int kind, uint32_t pc) {
  int to = -1, forced = 1;
  S_step++;
  if (gsteps() >= SH->max_steps) stop_run(V_STEPS, "step budget exhausted");
  // threads that wait for each other by yielding take very long to use up the step budget
  if (kind == K_EXIT || SH->wakes + (uint64_t)NT != Y_seen) {
    Y_seen = SH->wakes + (uint64_t)NT;
    Y_from = SH->yields;
    Y_step = gsteps();
  } else if (SH->yields - Y_from > SIM_YIELD_WINDOW) {
    int timed = gsteps() - Y_step >= 32 * (SH->yields - Y_from); // somebody else is busy
    for (int i = 0; i < NT; i++) timed |= T[i].st == T_SLEEP || (T[i].st == T_FUTEX && T[i].timed);
    if (!timed) stop_run(V_STEPS, "livelock");
    Y_from = SH->yields;
    Y_step = gsteps();
  }
  if (SH->policy == POL_REPLAY) {
    int spur = -1;
    to = replay_lookup(kind, &spur);
    if (spur >= 0) wake_spurious(spur, pc);
    int tmp[SIM_MAX_THREADS];
    runnable_or_advance(tmp, -1);
    if (to >= 0 && (to >= NT || T[to].st != T_RUN)) to = -1;
    if (to < 0) {
      if (kind == K_YIELD) { to = choose(kind, 1); if (to < 0) to = CUR; }
      else to = choose(kind, 0);
    }
  } else {
    maybe_disturb(pc);
    if (kind == K_YIELD) {
      if (SH->policy == POL_PCT) T[CUR].prio = --pct_low;
      // a yielding thread may legally be rescheduled at once, but usually is not
      if (SH->policy == POL_RANDOM && rnd(&R_sched) % 8 == 0) forced = 0;
      to = choose(kind, forced);
      if (to < 0) to = CUR;
    } else to = choose(kind, 0); // not runnable itself, unless its own timeout is the next event
  }
  if (to < 0) {
    char b[200];
    int n = snprintf(b, sizeof b, "no thread can run:");
    for (int i = 0; i < NT && n < 180; i++)
      if (T[i].st != T_DONE) n += snprintf(b + n, sizeof b - n, " t%d=%s", i,
                   T[i].st == T_FUTEX ? "blocked" : T[i].st == T_JOIN ? "joining" : "?");
    stop_run(V_DEADLOCK, b);
  }
  if (kind == K_YIELD) SH->yields++; else SH->blocks++;
  mix(&SH->sched_hash, ((uint64_t)kind << 48) ^ ((uint64_t)CUR << 40) ^ ((uint64_t)to << 32) ^ pc);
  record(kind, CUR, to, S_step, pc);
  if (to == CUR) S_run = S_step;
  if (kind == K_EXIT) { account_out(); switch_in(to); give_baton(to); return; }
  do_switch(to);
}

static uint32_t pc_of(void *ra) { return (uint32_t)((char *)ra - &__executable_start); }
#define PC pc_of(__builtin_return_address(0))

static void __attribute__((noinline, cold)) slow_mem(void *ra) {
  if (!ON) return;
  preempt_point(pc_of(ra), 0);
}
static inline __attribute__((always_inline)) void mem_point(void) {
  if (unlikely(++S_step >= S_next)) slow_mem(__builtin_return_address(0));
}
static inline __attribute__((always_inline)) void sync_point(void) {
  if (unlikely(ON)) {
    S_step++;
    if (S_step >= S_next || (SH->sync_den && SH->policy != POL_REPLAY && rnd(&R_sched) % SH->sync_den == 0))
      preempt_point(pc_of(__builtin_return_address(0)), 1);
  }
}

// ---------------------------------------------------------------- instrumentation entry points
#define E1(name) EXPORT void name(void *p) { (void)p; mem_point(); }
E1(__tsan_read1) E1(__tsan_read2) E1(__tsan_read4) E1(__tsan_read8) E1(__tsan_read16)
E1(__tsan_write1) E1(__tsan_write2) E1(__tsan_write4) E1(__tsan_write8) E1(__tsan_write16)
E1(__tsan_unaligned_read1) E1(__tsan_unaligned_read2) E1(__tsan_unaligned_read4) E1(__tsan_unaligned_read8) E1(__tsan_unaligned_read16)
E1(__tsan_unaligned_write1) E1(__tsan_unaligned_write2) E1(__tsan_unaligned_write4) E1(__tsan_unaligned_write8) E1(__tsan_unaligned_write16)
E1(__tsan_read_write1) E1(__tsan_read_write2) E1(__tsan_read_write4) E1(__tsan_read_write8) E1(__tsan_read_write16)
E1(__tsan_unaligned_read_write2) E1(__tsan_unaligned_read_write4) E1(__tsan_unaligned_read_write8) E1(__tsan_unaligned_read_write16)
E1(__tsan_volatile_read1) E1(__tsan_volatile_read2) E1(__tsan_volatile_read4) E1(__tsan_volatile_read8) E1(__tsan_volatile_read16)
E1(__tsan_volatile_write1) E1(__tsan_volatile_write2) E1(__tsan_volatile_write4) E1(__tsan_volatile_write8) E1(__tsan_volatile_write16)
E1(__tsan_unaligned_volatile_read2) E1(__tsan_unaligned_volatile_read4) E1(__tsan_unaligned_volatile_read8) E1(__tsan_unaligned_volatile_read16)
E1(__tsan_unaligned_volatile_write2) E1(__tsan_unaligned_volatile_write4) E1(__tsan_unaligned_volatile_write8) E1(__tsan_unaligned_volatile_write16)
EXPORT void __tsan_read_range(void *p, unsigned long n) { (void)p; (void)n; mem_point(); }
EXPORT void __tsan_write_range(void *p, unsigned long n) { (void)p; (void)n; mem_point(); }
EXPORT void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; mem_point(); }
EXPORT void __tsan_vptr_read(void **a) { (void)a; mem_point(); }
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *pc) { (void)pc; }
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_ignore_thread_begin(void) {}
EXPORT void __tsan_ignore_thread_end(void) {}
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n) { mem_point(); return memcpy(d, s, n); }
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n) { mem_point(); return memmove(d, s, n); }
EXPORT void *__tsan_memset(void *d, int c, size_t n) { mem_point(); return memset(d, c, n); }

#define ATOM(B, TY)                                                                                       \
  EXPORT TY __tsan_atomic##B##_load(const volatile TY *p, int mo) { (void)mo; sync_point();               \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST); }                                                        \
  EXPORT void __tsan_atomic##B##_store(volatile TY *p, TY v, int mo) { (void)mo; sync_point();            \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }                                                           \
  EXPORT TY __tsan_atomic##B##_exchange(volatile TY *p, TY v, int mo) { (void)mo; sync_point();           \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }                                                 \
  EXPORT TY __tsan_atomic##B##_fetch_add(volatile TY *p, TY v, int mo) { (void)mo; sync_point();          \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }                                                  \
  EXPORT TY __tsan_atomic##B##_fetch_sub(volatile TY *p, TY v, int mo) { (void)mo; sync_point();          \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }                                                  \
  EXPORT TY __tsan_atomic##B##_fetch_and(volatile TY *p, TY v, int mo) { (void)mo; sync_point();          \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }                                                  \
  EXPORT TY __tsan_atomic##B##_fetch_or(volatile TY *p, TY v, int mo) { (void)mo; sync_point();           \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }                                                   \
  EXPORT TY __tsan_atomic##B##_fetch_xor(volatile TY *p, TY v, int mo) { (void)mo; sync_point();          \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }                                                  \
  EXPORT TY __tsan_atomic##B##_fetch_nand(volatile TY *p, TY v, int mo) { (void)mo; sync_point();         \
    return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }                                                 \
  EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int mo, int fmo) {   \
    (void)mo; (void)fmo; sync_point();                                                                    \
    return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }                 \
  EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int mo, int fmo) {     \
    (void)mo; (void)fmo; sync_point();                                                                    \
    return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }                 \
  EXPORT TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p, TY e, TY v, int mo, int fmo) {        \
    (void)mo; (void)fmo; sync_point();                                                                    \
    __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
typedef unsigned __int128 u128;
// 128-bit atomics: only one thread runs at a time, plain accesses suffice.
EXPORT u128 __tsan_atomic128_load(const volatile u128 *p, int mo) { (void)mo; sync_point(); return *p; }
EXPORT void __tsan_atomic128_store(volatile u128 *p, u128 v, int mo) { (void)mo; sync_point(); *p = v; }
EXPORT u128 __tsan_atomic128_compare_exchange_val(volatile u128 *p, u128 e, u128 v, int mo, int f) {
  (void)mo; (void)f; sync_point(); u128 o = *p; if (o == e) *p = v; return o; }
EXPORT void __tsan_atomic_thread_fence(int mo) { (void)mo; sync_point(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
EXPORT void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ---------------------------------------------------------------- futex
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t bits, uint32_t pc) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    S_step++;
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    thr *t = &T[CUR];
    t->st = T_FUTEX; t->faddr = addr; t->fbits = cmd == FUTEX_WAIT ? ~0u : bits; t->fseq = FSEQ++;
    t->timed = 0; t->woken = 0;
    if (to) {
      t->timed = 1;
      uint64_t ns = (uint64_t)to->tv_sec * 1000000000ull + (uint64_t)to->tv_nsec;
      t->wake_at = cmd == FUTEX_WAIT ? sim_now() + ns : ns;
    }
    hand_over(K_BLOCK, pc);
    t->faddr = 0;
    if (t->woken == 2) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int n = 0;
    uint32_t wb = cmd == FUTEX_WAKE ? ~0u : bits;
    S_step++;
    while ((uint32_t)n < val) {
      int b = -1;
      for (int i = 0; i < NT; i++)
        if (T[i].st == T_FUTEX && T[i].faddr == addr && (T[i].fbits & wb) && (b < 0 || T[i].fseq < T[b].fseq)) b = i;
      if (b < 0) break;
      T[b].st = T_RUN; T[b].woken = 1; n++;
    }
    SH->wakes += (uint64_t)n;
    if (n) { // a good place to switch
      S_step++;
      if (SH->policy == POL_REPLAY ? S_step >= S_next
                                   : (SH->policy == POL_PCT || (SH->sync_den && rnd(&R_sched) % 4 == 0)))
        preempt_point(pc, 1);
    }
    return n;
  }
  stop_run(V_INTERNAL, "unsupported futex operation");
}

EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (ON) {
    if (n == SYS_futex) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f, PC);
    if (n == SYS_getrandom) { for (long i = 0; i < b; i++) ((unsigned char *)a)[i] = (unsigned char)rnd(&R_misc); return b; }
    if (n == SYS_gettid) return 100000 + CUR;
  }
  return ret_errno(raw6(n, a, b, c, d, e, f));
}
EXPORT ssize_t getrandom(void *p, size_t n, unsigned fl) {
  if (ON) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)rnd(&R_misc); return (ssize_t)n; }
  return ret_errno(raw6(SYS_getrandom, (long)p, (long)n, fl, 0, 0, 0));
}

// ---------------------------------------------------------------- threads
static void thread_end(void *v) {
  long it = (long)v;
  if (!ON) return;
  if (it < 3) { // run after the other key destructors
    pthread_setspecific(exit_key, (void *)(it + 1));
    return;
  }
  thr *t = &T[my_id];
  t->st = T_DONE;
  for (int i = 0; i < NT; i++) if (T[i].st == T_JOIN && T[i].join_target == my_id) T[i].st = T_RUN;
  hand_over(K_EXIT, 0);
}
static void *thread_main(void *p) {
  thr *t = p;
  my_id = t->id;
  wait_baton(t->id);
  pthread_setspecific(exit_key, (void *)1L);
  return t->fn(t->arg);
}
typedef int (*pc_fn)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  static pc_fn real;
  if (!real) real = (pc_fn)dlsym(RTLD_NEXT, "pthread_create");
  if (!ON) return real(out, at, fn, arg);
  int counted = !(exempt_threads && CUR == 0);
  SH->spawns += (uint64_t)counted;
  if (counted && SH->thread_fail_at && SH->spawns == SH->thread_fail_at) {
    SH->thread_fired++;
    record(K_THREADFAIL, CUR, 0, SH->spawns, PC);
    return EAGAIN;
  }
  int slot = NT;
  if (NT >= 100) // many threads come and go: take over the number of one that has ended
    for (int i = 1; i < NT; i++) if (T[i].st == T_DONE) { slot = i; break; }
  if (slot >= SIM_MAX_THREADS) stop_run(V_INTERNAL, "too many threads");
  thr *t = &T[slot];
  uint64_t steps0 = slot < NT ? t->lstep : 0, cur0 = slot < NT ? t->rcur : 0;
  memset(t, 0, sizeof *t);
  t->lstep = steps0; t->rcur = cur0; // step numbers stay unique per slot: replay files refer to them
  t->id = slot; t->fn = fn; t->arg = arg; t->st = T_RUN;
  t->prio = 1000 + (int)(rnd(&R_sched) % 1000000);
  pthread_t made;
  int r = real(&made, at, thread_main, t);
  t->pt = made;
  if (r) { t->st = slot < NT ? T_DONE : T_UNUSED; t->pt = 0; return r; }
  for (int i = 1; i < NT; i++) if (i != slot && T[i].st == T_DONE && T[i].pt == t->pt) T[i].pt = 0;
  if (slot == NT) NT++;
  SH->nthreads = (uint32_t)NT;
  *out = t->pt;
  S_step++;
  if (SH->policy == POL_REPLAY ? S_step >= S_next : (SH->policy != POL_SEQ && rnd(&R_sched) % 4 == 0)) preempt_point(PC, 1);
  return 0;
}
typedef int (*pj_fn)(pthread_t, void **);
EXPORT int pthread_join(pthread_t pt, void **res) {
  static pj_fn real;
  if (!real) real = (pj_fn)dlsym(RTLD_NEXT, "pthread_join");
  if (ON) {
    for (int i = NT - 1; i > 0; i--) // newest first: handles of finished detached threads are reused
      if (T[i].pt == pt) {
        if (T[i].st != T_DONE) { T[CUR].st = T_JOIN; T[CUR].join_target = i; hand_over(K_BLOCK, PC); }
        break;
      }
  }
  return real(pt, res);
}
EXPORT int sched_yield(void) {
  if (ON) { hand_over(K_YIELD, PC); return 0; }
  return (int)ret_errno(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
}
static int sim_sleep(uint64_t until, uint32_t pc) {
  thr *t = &T[CUR];
  t->st = T_SLEEP; t->wake_at = until;
  hand_over(K_BLOCK, pc);
  return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rm) {
  if (ON) {
    uint64_t ns = (uint64_t)rq->tv_sec * 1000000000ull + (uint64_t)rq->tv_nsec;
    return sim_sleep((fl & TIMER_ABSTIME) ? ns : sim_now() + ns, PC);
  }
  return (int)-raw6(SYS_clock_nanosleep, c, fl, (long)rq, (long)rm, 0, 0);
}
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (ON) return sim_sleep(sim_now() + (uint64_t)rq->tv_sec * 1000000000ull + (uint64_t)rq->tv_nsec, PC);
  return (int)ret_errno(raw6(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0));
}
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
  if (ON) {
    S_step++;
    if (SH->clock_jump && rnd(&R_misc) % SH->clock_jump == 0) { // forward jump, up to an hour
      clk_off += rnd(&R_misc) % 3600000000000ull;
      SH->clock_jumps++;
    }
    uint64_t n = sim_now();
    if (c == CLOCK_REALTIME) {
      n += 1700000000000000000ull + wall0;
      if (SH->clock_jump && rnd(&R_misc) % 2 == 0) n -= rnd(&R_misc) % 7200000000000ull; // wall clock may go back
    }
    ts->tv_sec = (time_t)(n / 1000000000ull);
    ts->tv_nsec = (long)(n % 1000000000ull);
    return 0;
  }
  return (int)ret_errno(raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0));
}
static pid_t sim_pid;
EXPORT pid_t getpid(void) { return ON ? sim_pid : (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); }
EXPORT int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (ON || (SH && SH->ncpu)) {
    memset(set, 0, sz);
    for (uint32_t i = 0; i < SH->ncpu && i < 8 * sz; i++) CPU_SET_S(i, sz, set);
    return 0;
  }
  long r = raw6(SYS_sched_getaffinity, pid, (long)sz, (long)set, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  memset((char *)set + r, 0, sz - (size_t)r);
  return 0;
}
typedef long (*sc_fn)(int);
EXPORT long sysconf(int name) {
  static sc_fn real;
  if (!real) real = (sc_fn)dlsym(RTLD_NEXT, "sysconf");
  if (ON && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return (long)SH->ncpu;
  return real(name);
}

// ---------------------------------------------------------------- allocation
static __attribute__((noinline)) int alloc_slow(void) {
  SH->allocs++;
  if (SH->alloc_fail_at && SH->allocs >= SH->alloc_fail_at && SH->allocs < SH->alloc_fail_at + (SH->alloc_fail_n ? SH->alloc_fail_n : 1)) {
    SH->alloc_fired++;
    record(K_ALLOC, CUR, 0, SH->allocs, 0);
    return 1;
  }
  return 0;
}
#define ALLOC_FAILS() (unlikely(ON) && alloc_slow())
static int64_t live;           // heap bytes allocated minus freed since the start
static inline void *got(void *p) { if (unlikely(ON) && p) live += (int64_t)malloc_usable_size(p); return p; }
EXPORT void *malloc(size_t n) { if (ALLOC_FAILS()) { errno = ENOMEM; return 0; } return got(__libc_malloc(n)); }
EXPORT void *calloc(size_t a, size_t b) { if (ALLOC_FAILS()) { errno = ENOMEM; return 0; } return got(__libc_calloc(a, b)); }
EXPORT void *realloc(void *p, size_t n) {
  if (ALLOC_FAILS()) { errno = ENOMEM; return 0; }
  int64_t old = unlikely(ON) && p ? (int64_t)malloc_usable_size(p) : 0;
  void *q = __libc_realloc(p, n);
  if (unlikely(ON) && (q || !n)) { live -= old; got(q); }
  return q;
}
EXPORT int posix_memalign(void **o, size_t al, size_t n) {
  if (ALLOC_FAILS()) return ENOMEM;
  void *p = got(__libc_memalign(al, n));
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
EXPORT void free(void *p) {
  if (unlikely(ON) && p) live -= (int64_t)malloc_usable_size(p);
  __libc_free(p);
}
EXPORT int64_t sim_live_bytes(void) { return live; }
EXPORT int sim_live_threads(void) {
  int n = 0;
  for (int i = 0; i < NT; i++) n += T[i].st != T_UNUSED && T[i].st != T_DONE;
  return n;
}
EXPORT int sim_open_files(void) {
  int n = 0;
  for (int i = 0; i < 400; i++) n += raw6(SYS_fcntl, i, F_GETFD, 0, 0, 0, 0) >= 0;
  return n;
}

// ---------------------------------------------------------------- files
#define MAXFD 1024
static int16_t fd_path[MAXFD]; // path id + 1, 0: not simulated
static int hit(uint32_t per10k) { return per10k && rnd(&R_io) % 10000 < per10k; }

// Decide the fault for the next I/O operation; in replay mode it comes from the file.
static int io_fault(int cls, uint32_t *arg) { // cls 0 read, 1 open, 2 stdout write
  uint64_t ord = ++SH->io_ops;
  *arg = 0;
  int f = F_NONE;
  if (SH->policy == POL_REPLAY) {
    for (uint32_t i = 0; i < SH->n_replay; i++)
      if (SH->replay[i].kind == K_IOFAULT && SH->replay[i].key == ord) { f = SH->replay[i].to; *arg = SH->replay[i].pc; break; }
    int k = f >= F_WEINTR ? 2 : f == F_OPEN ? 1 : 0;
    if (f && k != cls) f = F_NONE;
  } else {
    uint64_t r = rnd(&R_io);
    if (cls == 0) f = hit(SH->io_eintr) ? F_EINTR : hit(SH->io_eio) ? F_EIO : hit(SH->io_trunc) ? F_TRUNC : hit(SH->io_short) ? F_SHORT : F_NONE;
    else if (cls == 1) f = hit(SH->io_open) ? F_OPEN : F_NONE;
    else f = hit(SH->w_eintr) ? F_WEINTR : hit(SH->w_err) ? F_WERR : hit(SH->w_short) ? F_WSHORT : F_NONE;
    *arg = (uint32_t)(r >> 33);
  }
  if (f) {
    SH->fired[f]++;
    mix(&SH->ev_hash, ord * 31 + (uint64_t)f);
    if (SH->ntrace < SIM_MAX_TRACE) {
      sim_ev *e = &SH->trace[SH->ntrace++];
      e->kind = K_IOFAULT; e->tid = (uint8_t)CUR; e->to = (uint16_t)f; e->key = ord; e->pc = *arg;
    } else SH->trace_overflow = 1;
  }
  return f;
}
static void io_log(int op, int fault, int fd, int path, int64_t ret) {
  if (SH->niolog < SIM_MAX_IOLOG) {
    sim_io *e = &SH->iolog[SH->niolog++];
    e->op = (uint8_t)op; e->fault = (uint8_t)fault; e->fd = (uint16_t)fd; e->path = path; e->ret = ret;
  }
}
// Harness helper: replace a file's content without passing through the fault seam.
EXPORT int sim_raw_write(const char *p, const void *b, size_t n) {
  long fd = raw6(SYS_openat, AT_FDCWD, (long)p, O_WRONLY | O_CREAT | O_TRUNC, 0644, 0, 0);
  if (fd < 0) return -1;
  size_t o = 0;
  while (o < n) { long r = raw6(SYS_write, fd, (long)((const char *)b + o), (long)(n - o), 0, 0, 0); if (r <= 0) break; o += (size_t)r; }
  raw6(SYS_close, fd, 0, 0, 0, 0, 0);
  return o == n ? 0 : -1;
}
static int path_id(const char *abs) {
  for (uint32_t i = 0; i < SH->npaths; i++) if (!strcmp(SH->paths[i], abs)) return (int)i;
  if (SH->npaths >= 32) return 31;
  strncpy(SH->paths[SH->npaths], abs, 159);
  return (int)SH->npaths++;
}
static int in_scratch(const char *p, char *abs, size_t n) {
  if (p[0] == '/') snprintf(abs, n, "%s", p);
  else {
    char cwd[PATH_MAX];
    if (raw6(SYS_getcwd, (long)cwd, sizeof cwd, 0, 0, 0, 0) < 0) return 0;
    while (p[0] == '.' && p[1] == '/') p += 2;
    snprintf(abs, n, "%s/%s", cwd, p);
  }
  size_t l = strlen(SH->scratch);
  return l && !strncmp(abs, SH->scratch, l);
}
static int do_open(int dfd, const char *p, int fl, int mode, uint32_t pc) {
  if (!ON) return (int)ret_errno(raw6(SYS_openat, dfd, (long)p, fl, mode, 0, 0));
  char abs[PATH_MAX + 512];
  (void)pc;
  sync_point();
  if (!strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5)) { errno = ENOENT; return -1; }
  if (in_scratch(p, abs, sizeof abs)) {
    int id = path_id(abs + strlen(SH->scratch));
    uint32_t arg;
    int f = io_fault(1, &arg);
    if (f == F_OPEN) {
      static const int errs[] = {ENOENT, EACCES, EMFILE, EIO, ENOMEM};
      io_log(1, f, 0, id, -1);
      errno = errs[arg % 5];
      return -1;
    }
    int fd = (int)ret_errno(raw6(SYS_openat, dfd, (long)p, fl, mode, 0, 0));
    if (fd >= 0 && fd < MAXFD) fd_path[fd] = (int16_t)(id + 1);
    io_log(1, 0, fd, id, fd);
    return fd;
  }
  if ((fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT)) { errno = EROFS; return -1; } // containment
  return (int)ret_errno(raw6(SYS_openat, dfd, (long)p, fl, mode, 0, 0));
}
EXPORT int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(AT_FDCWD, p, fl, m, PC); }
EXPORT int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(AT_FDCWD, p, fl, m, PC); }
EXPORT int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(d, p, fl, m, PC); }
EXPORT int openat64(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(d, p, fl, m, PC); }
EXPORT int close(int fd) {
  if (ON && fd >= 0 && fd < MAXFD && fd_path[fd]) { sync_point(); fd_path[fd] = 0; }
  return (int)ret_errno(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
}
static ssize_t do_read(int fd, void *b, size_t n, off_t off, int positional) {
  if (ON && fd >= 0 && fd < MAXFD && fd_path[fd]) {
    int id = fd_path[fd] - 1;
    uint32_t arg;
    sync_point();
    int f = n ? io_fault(0, &arg) : F_NONE;
    if (f == F_EINTR) { io_log(2, f, fd, id, -1); errno = EINTR; return -1; }
    if (f == F_EIO) { io_log(2, f, fd, id, -1); errno = EIO; return -1; }
    if (f == F_SHORT && n > 1) n = 1 + arg % (n < 64 ? n - 1 : (arg & 1 ? 16 : n - 1));
    if (f == F_TRUNC) { // the file loses its tail while it is being read
      off_t cur = positional ? off : (off_t)raw6(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0);
      off_t end = (off_t)raw6(SYS_lseek, fd, 0, SEEK_END, 0, 0, 0);
      raw6(SYS_lseek, fd, cur, SEEK_SET, 0, 0, 0);
      if (end > cur) raw6(SYS_truncate, (long)(({ static char q[512]; snprintf(q, sizeof q, "%s%s", SH->scratch, SH->paths[id]); q; })), cur + (off_t)(arg % (uint64_t)(end - cur + 1)), 0, 0, 0, 0);
    }
    ssize_t r = positional ? ret_errno(raw6(SYS_pread64, fd, (long)b, (long)n, off, 0, 0))
                           : ret_errno(raw6(SYS_read, fd, (long)b, (long)n, 0, 0, 0));
    io_log(2, f, fd, id, r);
    return r;
  }
  return positional ? ret_errno(raw6(SYS_pread64, fd, (long)b, (long)n, off, 0, 0))
                    : ret_errno(raw6(SYS_read, fd, (long)b, (long)n, 0, 0, 0));
}
EXPORT ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  if (ON && fd >= 0 && fd < MAXFD && fd_path[fd]) {
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
  }
  return ret_errno(raw6(SYS_readv, fd, (long)v, c, 0, 0, 0));
}
static ssize_t sim_write(const void *b, size_t n) {
  uint32_t arg;
  sync_point();
  int f = n ? io_fault(2, &arg) : F_NONE;
  if (f == F_WEINTR) { errno = EINTR; return -1; }
  if (f == F_WERR) { static const int errs[] = {EIO, ENOSPC, EPIPE}; errno = errs[arg % 3]; return -1; }
  if (f == F_WSHORT && n > 1) n = 1 + arg % (n - 1);
  if (SH->outlen + n > SIM_OUT_CAP) stop_run(V_INTERNAL, "stdout capture full");
  memcpy(SH->out + SH->outlen, b, n);
  SH->outlen += n;
  return (ssize_t)n;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  if (ON && fd == 1 && SH->capture_stdout) return sim_write(b, n);
  return ret_errno(raw6(SYS_write, fd, (long)b, (long)n, 0, 0, 0));
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (ON && fd == 1 && SH->capture_stdout) {
    for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_write(v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return ret_errno(raw6(SYS_writev, fd, (long)v, c, 0, 0, 0));
}

// ---------------------------------------------------------------- control
EXPORT void sim_start(sim_shared *s) {
  SH = s;
  memset(T, 0, sizeof T);
  memset(fd_path, 0, sizeof fd_path);
  NT = 1; CUR = 0; my_id = 0;
  T[0].st = T_RUN; T[0].pt = pthread_self();
  pthread_key_create(&exit_key, thread_end);
  R_sched = s->seed * 0x9E3779B97F4A7C15ull + 1;
  R_io = s->seed ^ 0xD1B54A32D192ED03ull;
  R_misc = s->seed * 0xD6E8FEB86659FD93ull + 7;
  rnd(&R_sched); rnd(&R_io); rnd(&R_misc);
  wall0 = rnd(&R_misc) % 31536000000000000ull;
  sim_pid = 2 + (pid_t)(rnd(&R_misc) % 4000000);
  S_step = 0; S_run = 0; live = 0; S_in = 0; G_base = 0; clk_off = 0; FSEQ = 0; pct_i = 0; pct_low = 0;
  if (!s->starve_limit) s->starve_limit = 100000;
  if (!s->ns_per_step) s->ns_per_step = 10;
  T[0].prio = 1000 + (int)(rnd(&R_sched) % 1000000);
  if (s->pct_depth > 16) s->pct_depth = 16;
  for (uint32_t i = 0; i < s->pct_depth; i++) pct_pts[i] = rnd(&R_sched) % (s->pct_len ? s->pct_len : 1);
  for (uint32_t i = 0; i < s->pct_depth; i++)
    for (uint32_t j = i + 1; j < s->pct_depth; j++)
      if (pct_pts[j] < pct_pts[i]) { uint64_t x = pct_pts[i]; pct_pts[i] = pct_pts[j]; pct_pts[j] = x; }
  if (s->policy == POL_REPLAY) {
    static uint32_t cnt[SIM_MAX_THREADS];
    memset(cnt, 0, sizeof cnt);
    for (uint32_t i = 0; i < s->n_replay; i++) if (s->replay[i].kind <= K_SPUR && s->replay[i].tid < SIM_MAX_THREADS) cnt[s->replay[i].tid]++;
    for (int t = 0; t < SIM_MAX_THREADS; t++) { rp_n[t] = 0; rp_idx[t] = cnt[t] ? __libc_malloc(sizeof(uint32_t) * cnt[t]) : 0; }
    for (uint32_t i = 0; i < s->n_replay; i++)
      if (s->replay[i].kind <= K_SPUR && s->replay[i].tid < SIM_MAX_THREADS) { int t = s->replay[i].tid; rp_idx[t][rp_n[t]++] = i; }
  }
  ON = 1;
  set_next();
}
EXPORT void sim_stop(void) {
  if (!ON) return;
  SH->steps = gsteps();
  SH->sim_ns = sim_now();
  ON = 0;
  S_next = UINT64_MAX;
}
EXPORT uint64_t sim_seq(void) { return ON ? gsteps() : 0; }
EXPORT int sim_tid(void) { return ON ? CUR : -1; }
EXPORT void sim_exempt(int on) { exempt_threads = on; }
EXPORT void sim_point(void) { sync_point(); }

static void at_end(void) { sim_stop(); }
__attribute__((constructor)) static void from_env(void) {
  const char *e = getenv("SIMRT_FD");
  if (!e) return;
  int fd = atoi(e);
  void *m = mmap(0, sizeof(sim_shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (m == MAP_FAILED) _exit(78);
  close(fd);
  unsetenv("SIMRT_FD");
  atexit(at_end);
  sim_start(m);
}
EXPORT uint64_t sim_sizeof(void) { return sizeof(sim_shared); }
