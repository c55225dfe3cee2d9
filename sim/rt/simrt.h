// Shared-memory layout between the harness (Rust, see harness/src/rt.rs) and the
// simulator runtime (simrt.c).  Keep both in step.
#pragma once
#include <stdint.h>

#define SIM_MAX_TRACE (1u << 19)
#define SIM_MAX_REPLAY (1u << 19)
#define SIM_MAX_IOLOG 4096
#define SIM_OUT_CAP (1u << 21)
#define SIM_MAX_THREADS 250 // trace entries hold thread numbers in one byte

enum { POL_SEQ = 0, POL_RANDOM = 1, POL_PCT = 2, POL_REPLAY = 3 };
enum { // trace entry kinds
  K_PREEMPT = 1, K_YIELD = 2, K_BLOCK = 3, K_EXIT = 4, K_WAKE = 5, K_SPUR = 6,
  K_IOFAULT = 7, K_ALLOC = 8, K_THREADFAIL = 9, K_CLOCK = 10
};
enum { // io fault codes
  F_NONE = 0, F_EINTR = 1, F_SHORT = 2, F_EIO = 3, F_TRUNC = 4, F_OPEN = 5,
  F_WEINTR = 6, F_WSHORT = 7, F_WERR = 8
};
enum { V_NONE = 0, V_DEADLOCK = 1, V_STEPS = 2, V_INTERNAL = 3 };

typedef struct { uint8_t kind; uint8_t tid; uint16_t to; uint32_t pc; uint64_t key; } sim_ev;
typedef struct { uint8_t op; uint8_t fault; uint16_t fd; int32_t path; int64_t ret; } sim_io;

typedef struct {
  // ---- configuration (written by the harness before the run)
  uint64_t seed;
  uint32_t policy, ncpu;
  uint32_t sync_den;     // switch with probability 1/sync_den at a sync operation (0: never)
  uint32_t mem_mean;     // mean number of plain accesses between switches (0: never)
  uint32_t pct_depth, spur_den, stall_den, stall_len;
  uint64_t pct_len, max_steps, starve_limit;
  uint32_t io_eintr, io_short, io_eio, io_trunc, io_open; // probabilities, parts per 10000
  uint32_t w_eintr, w_short, w_err;
  uint64_t alloc_fail_at;   // n-th allocation after start fails (0: none)
  uint64_t thread_fail_at;  // n-th thread creation fails (0: none)
  uint32_t clock_jump, capture_stdout;
  uint64_t ns_per_step;
  char scratch[256];
  uint32_t n_replay;
  uint32_t alloc_fail_n;    // how many allocations in a row fail (0 counts as 1)
  // ---- results (written by the runtime)
  uint32_t verdict, ntrace, trace_overflow, nthreads;
  uint64_t steps, switches, preempts, yields, blocks, wakes, spurious, stalls, allocs, spawns;
  uint64_t io_ops, clock_jumps, sim_ns, sched_hash, ev_hash;
  uint64_t fired[16];      // by io fault code
  uint64_t alloc_fired, thread_fired;
  uint32_t niolog, npaths;
  char paths[32][160];
  uint64_t outlen;
  char diag[256];
  sim_io iolog[SIM_MAX_IOLOG];
  sim_ev trace[SIM_MAX_TRACE];
  sim_ev replay[SIM_MAX_REPLAY];
  unsigned char out[SIM_OUT_CAP];
} sim_shared;
