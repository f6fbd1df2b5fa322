/* Deterministic simulation runtime: public structures shared with the harness. */
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>
#include <stddef.h>

#define RT_MAXT 128
#define RT_TRACE_CAP (1u << 20)
#define RT_MSG 4096
#define RT_RACES 32
#define RT_PROBES 64

/* Every deviation from the default, non-preemptive, fault-free execution is
 * one trace entry, keyed by (step, kind). */
enum {
  TK_SWITCH = 1,   /* preempt here, run thread val                      */
  TK_NEXT = 2,     /* current thread blocked/finished/yielded: run val  */
  TK_WAKE = 3,     /* futex wake: wake waiter number val                */
  TK_SPAWN = 4,    /* fault: thread creation refused (EAGAIN)           */
  TK_SPURIOUS = 5, /* fault: futex wait returns without a wake          */
  TK_CLOCK = 6,    /* fault: clock jumps forward val milliseconds       */
  TK_MAX = 8
};

enum { POL_DEFAULT = 0, POL_RANDOM = 1, POL_PCT = 2, POL_RR = 3 };

enum {
  RC_NONE = 0,
  RC_DEADLOCK = 1,
  RC_NOPROGRESS = 2,
  RC_BADACCESS = 3,
  RC_BADFREE = 4,
  RC_HARNESS = 5, /* the simulator itself gave up (its own limits) */
  RC_USER = 6,    /* reported by the harness through rt_fail       */
  RC_SIGNAL = 7,
  RC_STACK = 8
};

typedef struct {
  uint64_t step;
  uint32_t kind;
  uint32_t val;
} rt_ent;

typedef struct {
  uint64_t seed;
  uint32_t policy;
  uint32_t gap_sync;   /* mean number of sync events between decisions, 0 = none */
  uint32_t gap_mem;    /* mean number of plain accesses between decisions, 0 = none */
  uint32_t pct_depth;
  uint64_t pct_len;
  uint32_t quantum;    /* POL_RR: events per slice */
  uint32_t stall_ppm;  /* chance per decision that some thread is stalled */
  uint32_t stall_len;
  uint32_t spurious_ppm;
  uint32_t clock_ppm;
  uint32_t spawn_ppm;  /* chance that a thread creation is refused */
  uint32_t spawn_from; /* creations before this one (1-based) are never refused */
  uint32_t spawn_max;  /* at most this many refusals */
  uint32_t poison;     /* 0: fill fresh memory with 0xA5, 1: 0xFF, 2: 0x00, 3: PRNG bytes */
  uint32_t race, memcheck;
  uint64_t max_steps;
  uint32_t ncpu;       /* 0 = the processor count cannot be read */
  uint32_t replay;     /* 1: follow trace, ignore the PRNG for scheduling and faults */
  uint32_t ntrace;
  uint64_t alloc_at;   /* refuse the n-th allocation after rt_begin (0 = never) */
  uint32_t leak;       /* remember where every block was allocated */
  uint32_t reuse;      /* 1: a freed block is handed out again at once, as real allocators do */
  const rt_ent *trace;
} rt_cfg;

typedef struct {
  uint64_t pc_a, pc_b;
  uint64_t addr;
  uint32_t tid_a, tid_b;
  uint32_t kind_a, kind_b; /* bit0 write, bit1 atomic */
  uint32_t size, pad;
  uint64_t stk[12];        /* shadow call stack of the second access */
} rt_race;

#define RT_LEAKS 512
typedef struct { uint64_t pc[8]; uint64_t bytes, count; } rt_leak;

typedef struct {
  volatile uint32_t done;
  uint32_t rc;
  uint64_t rc_pc, rc_addr;
  uint64_t rc_stk[24];
  uint32_t rc_tid, sig;
  char msg[RT_MSG];
  uint64_t steps, sync_events, mem_events, allocs, frees, switches, preempts;
  uint64_t threads, futex_waits, futex_wakes, yields, vtime_ns;
  uint64_t faults[TK_MAX];
  uint64_t stalls, alloc_refused, nproc_refused, fresh_bytes, reused;
  uint64_t ev_hash, sched_hash;
  uint64_t live_bytes, live_blocks, peak_bytes;
  uint64_t arena_used;
  uint64_t max_stack;
  uint32_t nrace, max_runnable, race_lost, pad1;
  rt_race races[RT_RACES];
  uint64_t probes[RT_PROBES];
  uint32_t nleak, pad2;
  rt_leak leaks[RT_LEAKS];
  uint32_t ntrace, trace_overflow;
  uint64_t exe_base;
  rt_ent trace[RT_TRACE_CAP];
} rt_out;

/* harness API */
void rt_process_init(void);                 /* once, single-threaded, before any run */
void rt_begin(const rt_cfg *cfg, rt_out *out);
void rt_end(void);                          /* simulation off; other threads stay parked */
void rt_quiesce(void);                      /* wait until every other thread finished or sleeps */
void rt_fail(const char *msg) __attribute__((noreturn));
void rt_nofault(uint32_t on);
void rt_probe(uint32_t id);
uint64_t rt_steps(void);
uint64_t rt_live_bytes(void);
uint64_t rt_live_blocks(void);
uint64_t rt_tid(void);
uint64_t rt_spawn_refused(void);
void *rt_alloc(size_t size, size_t align);
void rt_free(void *p, size_t size, size_t align);
void *rt_realloc(void *p, size_t old, size_t align, size_t size);
#endif
