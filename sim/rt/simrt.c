/* Deterministic simulation runtime.
 *
 * The program under test (library, thread pool, std, harness) is compiled with
 * the ThreadSanitizer instrumentation pass but linked with this runtime instead
 * of the sanitizer's own: every memory access, atomic operation, fence, thread
 * operation, futex call, clock read and allocation arrives here.  Threads are
 * real, exactly one runs at a time, and this file decides which one, so one
 * seed is one execution.
 */
#define _GNU_SOURCE
#include "simrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define INLINE static inline __attribute__((always_inline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define PC() ((uint64_t)__builtin_return_address(0))

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef unsigned __int128 u128;

/* ---------------------------------------------------------------- raw syscalls */
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
static void die(int code) __attribute__((noreturn));
static void die(int code) {
  for (;;) raw6(SYS_exit_group, code, 0, 0, 0, 0, 0);
}

/* ---------------------------------------------------------------- state */
enum { ST_FREE = 0, ST_RUN = 1, ST_FUTEX = 2, ST_JOIN = 3, ST_DONE = 4, ST_QUIESCE = 5, ST_SLEEP = 6 };

typedef struct { void (*fn)(void *); void *arg; } dtor_t;

#define SSTK 1024
#define MAXKEYS 32
typedef struct {
  u32 tid, state;
  u32 go;          /* token futex word */
  u32 wake_reason; /* 0 woken, 1 timed out, 2 spurious */
  void *futex;
  u32 bitset;
  u64 wait_seq;
  u64 deadline; /* virtual ns, 0 = none */
  u32 join_tid;
  u32 nofault; /* the harness's own thread creations are not refused */
  u32 prio; /* POL_PCT, larger runs first */
  pthread_t pt;
  void *(*start)(void *);
  void *arg;
  u64 stalled_until;
  u64 nsync;
  dtor_t dt[64];
  u32 ndt;
  uintptr_t stk_lo, stk_hi;
  uintptr_t stk_min;
  u32 sp;
  u64 stk[SSTK];
  u32 vc[RT_MAXT];  /* happens-before clock */
  u32 acq[RT_MAXT]; /* clocks seen by relaxed loads, joined by an acquire fence */
  u32 rel[RT_MAXT]; /* clock at the last release fence */
  u32 acq_any, rel_any;
} thr;

static thr T[RT_MAXT];
static u32 nthr;
static volatile u32 sim_on;
static __thread thr *self;
static rt_cfg C;
static rt_out *O;
static u64 steps, next_pt, slice_start;
static u64 vnow; /* virtual ns */
static u64 rng[2], rng2;
static u32 cd_sync, cd_mem; /* countdowns for POL_RANDOM */
static u32 tri;             /* replay cursor */
static u64 wait_seq, pct_pts[64];
static u32 pct_i, pct_low;
static u64 ev_hash, sched_hash;
static u64 n_sync, n_mem, n_spawn, n_spawn_refused;
#define FAIR 20000u

static u64 rnd(void) {
  u64 a = rng[0], b = rng[1], r = a + b;
  b ^= a;
  rng[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
  rng[1] = (b << 37) | (b >> 27);
  return r;
}
static u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static u64 rnd_env(void) { /* environment randomness (getrandom, poison): never from the scheduler's stream */
  rng2 = mix(rng2);
  return rng2;
}
static int chance(u32 ppm) { return ppm && (rnd() % 1000000u) < ppm; }
static u32 gap(u32 mean) { return mean ? 1 + (u32)(rnd() % (2ull * mean - 1 + (mean == 1))) : 0xffffffffu; }

static void fin(void) {
  O->steps = steps;
  O->sync_events = n_sync;
  O->mem_events = n_mem;
  O->ev_hash = ev_hash;
  O->sched_hash = sched_hash;
  O->vtime_ns = vnow;
  O->threads = nthr;
  u64 m = 0;
  for (u32 i = 0; i < nthr; i++)
    if (T[i].stk_min && T[i].stk_hi > T[i].stk_min && T[i].stk_hi - T[i].stk_min > m) m = T[i].stk_hi - T[i].stk_min;
  O->max_stack = m;
}
static void save_stk(thr *t, u64 *to, int n, u64 pc) {
  int k = 0;
  if (pc) to[k++] = pc;
  u32 sp = t->sp < SSTK ? t->sp : SSTK;
  while (k < n && sp > 0) to[k++] = t->stk[--sp];
  while (k < n) to[k++] = 0;
}
static void fail(u32 rc, u64 pc, u64 addr, const char *fmt, ...) __attribute__((noreturn, format(printf, 4, 5)));
static void fail(u32 rc, u64 pc, u64 addr, const char *fmt, ...) {
  sim_on = 0;
  if (O) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(O->msg, RT_MSG, fmt, ap);
    va_end(ap);
    O->rc = rc;
    O->rc_pc = pc;
    O->rc_addr = addr;
    if (self) {
      O->rc_tid = self->tid;
      save_stk(self, O->rc_stk, 24, pc);
    }
    fin();
  }
  die(3);
}

/* ---------------------------------------------------------------- arena */
#define ARENA_BASE 0x100000000000ull
#define ARENA_SIZE (24ull << 30)
#define ASHADOW_BASE 0x110000000000ull
#define HDR 96
#define RZ 32
#define LSTK 8
typedef struct ahdr { u64 magic, size; struct ahdr *prev, *next; u64 pc[LSTK]; } ahdr;
static ahdr live_list = {0, 0, &live_list, &live_list, {0}};
#define AMAGIC 0x51b10c4d51b10c4dull
#define AFREED 0xdeadf4eedeadf4eeull
static u64 a_top, a_used0;
static u64 live_bytes, live_blocks;
#define ASH ((u8 *)ASHADOW_BASE)

void rt_process_init(void) {
  if (mmap((void *)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != (void *)ARENA_BASE ||
      mmap((void *)ASHADOW_BASE, ARENA_SIZE / 8, PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != (void *)ASHADOW_BASE)
    die(97);
  a_top = ARENA_BASE + 4096;
}

static void ashadow_set(u64 p, u64 size) { /* p 8-aligned */
  u8 *s = ASH + ((p - ARENA_BASE) >> 3);
  memset(s, 8, size >> 3);
  if (size & 7) s[size >> 3] = size & 7;
}

static void pre_sync(u32 kind, u64 pc);

/* Blocks freed in this run, by rounded size, most recent first. */
#define NFL 4096
static ahdr *flist[NFL];
#define RSZ(n) (((n) + RZ + 15) & ~15ull)
static void shadow_clear(u64 lo, u64 hi);
static u64 reuse_take(u64 size, u64 align) {
  ahdr **l = &flist[(RSZ(size) >> 4) % NFL], *h = *l;
  u64 p = (u64)h + HDR;
  if (!h || RSZ(h->size) != RSZ(size) || (p & (align - 1))) return 0;
  *l = h->next;
  /* what the earlier owner did there is ordered before: the allocator sees to it */
  shadow_clear(p, p + RSZ(size));
  if (O) O->reused++;
  return p;
}

void *rt_alloc(size_t size, size_t align) {
  if (!a_top) rt_process_init();
  if (sim_on && self) {
    pre_sync(40, PC());
    O->allocs++;
    if (C.alloc_at && O->allocs == C.alloc_at) {
      O->alloc_refused++;
      return NULL;
    }
  }
  if (size > (8ull << 30)) return NULL;
  if (align < 16) align = 16;
  u64 p = 0, end = a_top, a_top0 = a_top;
  if (C.reuse && sim_on) p = reuse_take(size, align);
  if (!p) {
    p = (a_top + HDR + align - 1) & ~(u64)(align - 1);
    end = (p + size + RZ + 15) & ~15ull;
  }
  if (end > ARENA_BASE + ARENA_SIZE) {
    if (sim_on) fail(RC_HARNESS, 0, 0, "arena exhausted");
    return NULL;
  }
  ahdr *h = (ahdr *)(p - HDR);
  h->magic = AMAGIC;
  h->size = size;
  h->prev = &live_list;
  h->next = live_list.next;
  h->next->prev = h;
  live_list.next = h;
  if (sim_on && self && C.leak) save_stk(self, h->pc, LSTK, PC());
  else h->pc[0] = 0;
  a_top = end;
  ashadow_set(p, size);
  live_bytes += size;
  live_blocks++;
  if (sim_on && O) {
    if (live_bytes > O->peak_bytes) O->peak_bytes = live_bytes;
    /* fresh memory holds what a recycled block would: garbage */
    u64 n = size > 65536 ? 65536 : size;
    O->fresh_bytes += n;
    switch (C.poison) {
    case 0: memset((void *)p, 0xA5, n); break;
    case 1: memset((void *)p, 0xFF, n); break;
    case 2: if (C.reuse && end == a_top0) memset((void *)p, 0, n); break;
    default: {
      u64 z = rnd_env();
      for (u64 i = 0; i + 8 <= n; i += 8) { z = z * 6364136223846793005ull + 1442695040888963407ull; *(u64 *)(p + i) = z; }
    }
    }
  }
  return (void *)p;
}

void rt_free(void *vp, size_t size, size_t align) {
  u64 p = (u64)vp;
  if (sim_on && self) {
    pre_sync(41, PC());
    O->frees++;
  }
  ahdr *h = (ahdr *)(p - HDR);
  if (p < ARENA_BASE + HDR || p >= a_top || (p & 15) || (h->magic != AMAGIC && h->magic != AFREED)) {
    if (O) fail(RC_BADFREE, PC(), p, "free of a pointer that is not a heap block");
    die(98);
  }
  if (h->magic == AFREED) {
    if (O) fail(RC_BADFREE, PC(), p, "double free of a %lu-byte block", (unsigned long)h->size);
    die(98);
  }
  if (sim_on && h->size != size) fail(RC_BADFREE, PC(), p, "free with size %zu of a block of %lu bytes", size, (unsigned long)h->size);
  h->magic = AFREED;
  h->prev->next = h->next;
  h->next->prev = h->prev;
  live_bytes -= h->size;
  live_blocks--;
  u64 n = (h->size + 7) >> 3;
  memset(ASH + ((p - ARENA_BASE) >> 3), 0xF0, n);
  if (C.reuse && sim_on) {
    ahdr **l = &flist[(RSZ(h->size) >> 4) % NFL];
    h->next = *l;
    *l = h;
    return;
  }
  if (h->size >= 1 << 20) { /* give large blocks back to the machine; a later access is reported from the shadow */
    u64 lo = (p + 4095) & ~4095ull, hi = (p + h->size) & ~4095ull;
    if (hi > lo) madvise((void *)lo, hi - lo, MADV_DONTNEED);
  }
}

void *rt_realloc(void *vp, size_t old, size_t align, size_t size) {
  void *n = rt_alloc(size, align);
  if (!n) return NULL;
  memcpy(n, vp, old < size ? old : size);
  rt_free(vp, old, align);
  return n;
}

static __attribute__((noinline)) void bad_access(u64 a, u64 n, u32 wr, u64 pc) {
  u8 s = ASH[(a - ARENA_BASE) >> 3];
  /* find the closest block below, for the message */
  fail(RC_BADACCESS, pc, a, "%s of %lu byte(s) %s", wr ? "write" : "read", (unsigned long)n,
       s == 0xF0 ? "in a freed heap block" : "outside any live heap block (buffer overrun)");
}
INLINE void memchk(u64 a, u64 n, u32 wr, u64 pc) {
  if (a - ARENA_BASE >= ARENA_SIZE) return;
  u64 o = a - ARENA_BASE;
  u8 s = ASH[o >> 3];
  u64 off = o & 7;
  if (LIKELY(off + n <= 8)) {
    if (UNLIKELY(s == 0xF0 || off + n > s)) bad_access(a, n, wr, pc);
    return;
  }
  /* crosses granules */
  if (s != 8) bad_access(a, n, wr, pc);
  u64 end = o + n;
  for (u64 g = (o >> 3) + 1; (g << 3) < end; g++) {
    u64 need = end - (g << 3);
    if (need > 8) need = 8;
    if (ASH[g] == 0xF0 || ASH[g] < need) bad_access(ARENA_BASE + (g << 3), need, wr, pc);
  }
}

/* ---------------------------------------------------------------- races */
typedef struct {
  u32 clk;
  u8 tid, kind, mask, used;
  u64 pc;
} cell;
typedef struct { cell c[4]; } gran;
#define L1_SHIFT 26 /* 64 MB of address space per entry */
#define L1_N (1u << 21)
static gran **L1;

static gran *shadow_block(u64 a) {
  u64 i = a >> L1_SHIFT;
  if (i >= L1_N) return NULL;
  if (!L1[i]) {
    size_t sz = ((1ull << L1_SHIFT) / 8) * sizeof(gran);
    void *p = mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) fail(RC_HARNESS, 0, 0, "no address space for race shadow");
    L1[i] = p;
  }
  return L1[i];
}
static void shadow_clear(u64 lo, u64 hi) {
  while (lo < hi) {
    u64 i = lo >> L1_SHIFT, e = (i + 1) << L1_SHIFT;
    if (e > hi) e = hi;
    if (i < L1_N && L1[i]) {
      u64 base = i << L1_SHIFT;
      u64 a = (u64)(L1[i] + ((lo - base) >> 3)), b = (u64)(L1[i] + ((e - base + 7) >> 3));
      u64 pa = (a + 4095) & ~4095ull, pb = b & ~4095ull;
      if (pa < pb) {
        memset((void *)a, 0, pa - a);
        madvise((void *)pa, pb - pa, MADV_DONTNEED);
        memset((void *)pb, 0, b - pb);
      } else
        memset((void *)a, 0, b - a);
    }
    lo = e;
  }
}
static __attribute__((noinline)) void report_race(cell *c, u64 addr, u32 kind, u32 size, u64 pc) {
  for (u32 i = 0; i < O->nrace; i++)
    if ((O->races[i].pc_a == c->pc && O->races[i].pc_b == pc) || (O->races[i].pc_a == pc && O->races[i].pc_b == c->pc)) return;
  if (O->nrace >= RT_RACES) { O->race_lost++; return; }
  rt_race *r = &O->races[O->nrace++];
  r->pc_a = c->pc;
  r->pc_b = pc;
  r->tid_a = c->tid;
  r->tid_b = self->tid;
  r->kind_a = c->kind;
  r->kind_b = kind;
  r->addr = addr;
  r->size = size;
  save_stk(self, r->stk, 12, pc);
}
INLINE void race1(thr *t, u64 a, u32 mask, u32 kind, u64 pc) {
  gran *blk = L1[a >> L1_SHIFT];
  if (UNLIKELY(!blk)) {
    blk = shadow_block(a);
    if (!blk) return;
  }
  gran *g = blk + ((a & ((1ull << L1_SHIFT) - 1)) >> 3);
  cell *slot = NULL, *old = NULL;
  u32 me = t->tid;
  for (int i = 0; i < 4; i++) {
    cell *c = &g->c[i];
    if (!c->used) {
      if (!slot) slot = c;
      break;
    }
    if (c->tid == me) {
      if (c->mask == mask) {
        if (c->kind == kind && c->clk == t->vc[me]) return; /* same epoch, already checked */
        if (!(c->kind & 1) || (kind & 1)) slot = c;
      }
      continue;
    }
    if (c->clk <= t->vc[c->tid]) {
      if ((c->mask & ~mask) == 0 && (!(c->kind & 1) || (kind & 1))) old = c;
      continue;
    }
    if ((c->mask & mask) && ((c->kind | kind) & 1) && !((c->kind & kind) & 2)) report_race(c, a & ~7ull, kind, __builtin_popcount(mask), pc);
  }
  if (!slot) slot = old;
  if (!slot) slot = &g->c[(steps ^ (steps >> 7)) & 3];
  slot->clk = t->vc[me];
  slot->tid = me;
  slot->kind = kind;
  slot->mask = mask;
  slot->used = 1;
  slot->pc = pc;
}
INLINE void racechk(thr *t, u64 a, u64 n, u32 kind, u64 pc) {
  u64 off = a & 7;
  if (LIKELY(off + n <= 8)) {
    race1(t, a, (((1u << n) - 1) << off) & 0xff, kind, pc);
    return;
  }
  u64 end = a + n;
  while (a < end) {
    u64 o = a & 7, k = 8 - o;
    if (k > end - a) k = end - a;
    race1(t, a, (((1u << k) - 1) << o) & 0xff, kind, pc);
    a += k;
  }
}

/* The thread handles of std live in the libc heap, not in the arena: memory that goes back
   to libc and comes out again is new memory to the race detector. */
extern void __libc_free(void *);
extern void *__libc_realloc(void *, size_t);
extern size_t malloc_usable_size(void *);
void free(void *p) {
  if (sim_on && self && p) {
    u64 n = malloc_usable_size(p);
    if (n < (1u << 20)) shadow_clear((u64)p, (u64)p + n);
  }
  __libc_free(p);
}
void *realloc(void *p, size_t n) {
  if (sim_on && self && p) {
    u64 k = malloc_usable_size(p);
    if (k < (1u << 20)) shadow_clear((u64)p, (u64)p + k);
  }
  return __libc_realloc(p, n);
}

/* ---------------------------------------------------------------- sync objects */
typedef struct {
  u64 addr;
  u32 has, owner; /* owner: 1 + the thread that headed the current release sequence */
  u32 vc[RT_MAXT];
} sobj;
#define SO_N (1u << 17)
static sobj *SO;
static u32 so_used;
static sobj *so_get(u64 a, int create) {
  u64 h = mix(a) & (SO_N - 1);
  for (;;) {
    if (SO[h].addr == a) return &SO[h];
    if (!SO[h].addr) {
      if (!create) return NULL;
      if (++so_used > SO_N * 3 / 4) fail(RC_HARNESS, 0, 0, "too many sync objects");
      SO[h].addr = a;
      return &SO[h];
    }
    h = (h + 1) & (SO_N - 1);
  }
}
INLINE void vjoin(u32 *a, const u32 *b) {
  for (u32 i = 0; i < nthr; i++)
    if (b[i] > a[i]) a[i] = b[i];
}
#define MO_ACQ(m) ((m) == 1 || (m) == 2 || (m) == 4 || (m) == 5)
#define MO_REL(m) ((m) == 3 || (m) == 4 || (m) == 5)
static void hb_load(thr *t, u64 a, int mo) {
  sobj *s = so_get(a, 0);
  if (!s || !s->has) return;
  if (MO_ACQ(mo)) vjoin(t->vc, s->vc);
  else { vjoin(t->acq, s->vc); t->acq_any = 1; }
}
static void hb_store(thr *t, u64 a, int mo, int rmw) {
  if (MO_REL(mo)) {
    sobj *s = so_get(a, 1);
    if (!rmw) memcpy(s->vc, t->vc, sizeof(u32) * nthr);
    else vjoin(s->vc, t->vc);
    s->has = 1;
    if (!rmw) s->owner = t->tid + 1;
    t->vc[t->tid]++;
  } else {
    sobj *s = so_get(a, t->rel_any);
    if (!s) return;
    /* a plain store ends another thread's release sequence, but continues this thread's own
       (the C++11 rule; crossbeam-deque relies on it) */
    if (!rmw && s->owner != t->tid + 1) s->has = 0, memset(s->vc, 0, sizeof(u32) * nthr);
    if (!rmw) s->owner = t->tid + 1;
    if (t->rel_any) vjoin(s->vc, t->rel), s->has = 1;
  }
}
static void hb_fence(thr *t, int mo) {
  if (MO_ACQ(mo) && t->acq_any) vjoin(t->vc, t->acq);
  if (MO_REL(mo)) {
    memcpy(t->rel, t->vc, sizeof(u32) * nthr);
    t->rel_any = 1;
    t->vc[t->tid]++;
  }
}

/* ---------------------------------------------------------------- scheduler */
static void park(thr *t) {
  while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) raw6(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void unpark(thr *t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
INLINE void sh(u64 v) { sched_hash = (sched_hash ^ v) * 0x100000001b3ull; }
INLINE void eh(u64 v) { ev_hash = (ev_hash ^ v) * 0x100000001b3ull; }

static void trace_put(u32 kind, u32 val) {
  O->faults[kind < TK_MAX ? kind : 0]++;
  if (O->ntrace < RT_TRACE_CAP) {
    O->trace[O->ntrace].step = steps;
    O->trace[O->ntrace].kind = kind;
    O->trace[O->ntrace].val = val;
    O->ntrace++;
  } else
    O->trace_overflow = 1;
}
/* replay: is there an entry of this kind at this step? */
static int trace_get(u32 kind, u32 *val) {
  while (tri < C.ntrace && C.trace[tri].step < steps) tri++;
  for (u32 i = tri; i < C.ntrace && C.trace[i].step == steps; i++)
    if (C.trace[i].kind == kind) {
      *val = C.trace[i].val;
      tri = i + 1;
      return 1;
    }
  return 0;
}
static void set_next_pt(void) {
  u64 n = slice_start + FAIR;
  if (C.replay) {
    while (tri < C.ntrace && C.trace[tri].step <= steps) tri++;
    for (u32 i = tri; i < C.ntrace; i++)
      if (C.trace[i].kind == TK_SWITCH) {
        if (C.trace[i].step < n) n = C.trace[i].step;
        break;
      }
  }
  if (n <= steps) n = steps + 1;
  if (C.policy == POL_RR && !C.replay) {
    u64 q = slice_start + C.quantum;
    if (q < n) n = q > steps ? q : steps + 1;
  }
  next_pt = n;
}
static u32 runnable_count(void) {
  u32 n = 0;
  for (u32 i = 0; i < nthr; i++) n += T[i].state == ST_RUN;
  return n;
}
/* default choice: the next runnable thread after `from` in creation order */
static thr *rr_next(u32 from) {
  for (u32 k = 1; k <= nthr; k++) {
    thr *t = &T[(from + k) % nthr];
    if (t->state == ST_RUN) return t;
  }
  return NULL;
}
static thr *nth_runnable(u32 k, u32 skip, int stall) {
  for (u32 i = 0; i < nthr; i++)
    if (T[i].state == ST_RUN && i != skip && (!stall || T[i].stalled_until <= steps)) {
      if (!k) return &T[i];
      k--;
    }
  return NULL;
}
static u32 count_eligible(u32 skip) {
  u32 n = 0;
  for (u32 i = 0; i < nthr; i++) n += T[i].state == ST_RUN && i != skip && T[i].stalled_until <= steps;
  return n;
}
static void maybe_stall(void) {
  if (C.stall_ppm && chance(C.stall_ppm)) {
    u32 n = runnable_count();
    if (n > 1) {
      thr *v = nth_runnable((u32)(rnd() % n), 0xffffffffu, 0);
      v->stalled_until = steps + 1 + rnd() % (C.stall_len ? C.stall_len : 20000);
      O->stalls++;
    }
  }
}
static thr *pct_best(void) {
  thr *b = NULL;
  for (u32 i = 0; i < nthr; i++)
    if (T[i].state == ST_RUN && T[i].stalled_until <= steps && (!b || T[i].prio > b->prio)) b = &T[i];
  if (!b)
    for (u32 i = 0; i < nthr; i++)
      if (T[i].state == ST_RUN && (!b || T[i].prio > b->prio)) b = &T[i];
  return b;
}
static void switch_to(thr *from, thr *to, int wait) {
  O->switches++;
  sh(((u64)to->tid << 48) ^ (from->nsync << 8) ^ from->tid);
  eh(0x5357ull ^ ((u64)to->tid << 32) ^ steps);
  slice_start = steps;
  set_next_pt();
  unpark(to);
  if (wait) park(from);
}
/* somebody else must run: `from` is blocked, finished or yields */
static thr *choose(thr *from) {
  u32 rc = runnable_count();
  if (rc > O->max_runnable) O->max_runnable = rc;
  thr *def = rr_next(from->tid);
  if (!def) return NULL;
  thr *ch = def;
  if (C.replay) {
    u32 v;
    if (trace_get(TK_NEXT, &v) && v < nthr && T[v].state == ST_RUN) ch = &T[v];
  } else if (C.policy == POL_RANDOM) {
    maybe_stall();
    u32 n = count_eligible(0xffffffffu);
    if (n) ch = nth_runnable((u32)(rnd() % n), 0xffffffffu, 1);
    cd_sync = gap(C.gap_sync);
  } else if (C.policy == POL_PCT) {
    maybe_stall();
    ch = pct_best();
  }
  if (ch != def) trace_put(TK_NEXT, ch->tid);
  return ch;
}
/* no thread is runnable: advance the virtual clock or report a deadlock */
static int unblock_timeout(void) {
  thr *b = NULL;
  for (u32 i = 0; i < nthr; i++)
    if ((T[i].state == ST_FUTEX || T[i].state == ST_SLEEP) && T[i].deadline && (!b || T[i].deadline < b->deadline)) b = &T[i];
  if (!b) return 0;
  if (b->deadline > vnow) vnow = b->deadline;
  b->wake_reason = 1;
  b->state = ST_RUN;
  b->deadline = 0;
  return 1;
}
static void deadlock(void) __attribute__((noreturn));
static void deadlock(void) {
  static char buf[RT_MSG];
  u32 n = 0;
  n += snprintf(buf + n, sizeof buf - n, "no thread can run:");
  for (u32 i = 0; i < nthr && n < sizeof buf - 80; i++)
    if (T[i].state != ST_DONE && T[i].state != ST_FREE)
      n += snprintf(buf + n, sizeof buf - n, " t%u=%s", i, T[i].state == ST_FUTEX ? "waiting" : T[i].state == ST_JOIN ? "joining" : T[i].state == ST_SLEEP ? "sleeping" : "?");
  fail(RC_DEADLOCK, 0, 0, "%s", buf);
}
static void block(thr *me) { /* me->state was set to a blocked state */
  for (;;) {
    thr *n = choose(me);
    if (n) {
      if (n != me) switch_to(me, n, 1);
      return;
    }
    int q = 0;
    for (u32 i = 0; i < nthr; i++)
      if (T[i].state == ST_QUIESCE) { T[i].state = ST_RUN; q = 1; break; }
    if (q) continue;
    if (!unblock_timeout()) deadlock();
  }
}
static void preempt_to(thr *me, thr *to) {
  O->preempts++;
  trace_put(TK_SWITCH, to->tid);
  switch_to(me, to, 1);
}
/* slow path of a scheduling point; is_sync: the event is a synchronisation operation */
static __attribute__((noinline)) void point(thr *me, int is_sync, u64 pc) {
  if (UNLIKELY(steps >= C.max_steps)) fail(RC_NOPROGRESS, pc, 0, "no end of the scenario after %lu steps", (unsigned long)steps);
  if (C.replay) {
    u32 v;
    if (trace_get(TK_SWITCH, &v)) {
      if (v < nthr && T[v].state == ST_RUN && v != me->tid) {
        preempt_to(me, &T[v]);
        return;
      }
      set_next_pt();
    }
  } else if (C.policy == POL_RANDOM) {
    if (!cd_sync || !cd_mem) {
      if (!cd_sync) cd_sync = gap(C.gap_sync);
      if (!cd_mem) cd_mem = gap(C.gap_mem);
      maybe_stall();
      u32 n = count_eligible(me->tid);
      if (n) {
        thr *t = nth_runnable((u32)(rnd() % n), me->tid, 1);
        preempt_to(me, t);
        return;
      }
    }
  } else if (C.policy == POL_PCT) {
    if (is_sync) {
      if (pct_i < C.pct_depth && n_sync >= pct_pts[pct_i]) {
        while (pct_i < C.pct_depth && n_sync >= pct_pts[pct_i]) pct_i++;
        me->prio = --pct_low;
      }
      thr *b = pct_best();
      if (b && b != me && b->prio > me->prio) {
        preempt_to(me, b);
        return;
      }
    }
  } else if (C.policy == POL_RR) {
    if (steps - slice_start >= C.quantum) {
      thr *t = rr_next(me->tid);
      if (t && t != me) {
        preempt_to(me, t);
        return;
      }
      slice_start = steps;
    }
  }
  if (steps - slice_start >= FAIR) {
    /* fairness: nobody runs for ever while somebody else could */
    slice_start = steps;
    if (C.policy == POL_PCT && !C.replay) me->prio = --pct_low;
    thr *n = choose(me);
    if (n && n != me) {
      switch_to(me, n, 1);
      return;
    }
  }
  set_next_pt();
}
static void pre_sync(u32 kind, u64 pc) {
  thr *t = self;
  steps++;
  n_sync++;
  t->nsync++;
  uintptr_t f = (uintptr_t)__builtin_frame_address(0);
  if (f < t->stk_min) t->stk_min = f;
  eh(((u64)kind << 40) ^ ((u64)t->tid << 32) ^ (u32)steps);
  if (kind < 40) { /* allocator calls are not preemption candidates for the sync countdown */
    if (cd_sync != 0xffffffffu && cd_sync) cd_sync--;
    if (!cd_sync || steps >= next_pt || (C.policy == POL_PCT && !C.replay)) point(t, 1, pc);
  } else if (steps >= next_pt)
    point(t, 0, pc);
}
INLINE void ev_mem(u64 a, u64 n, u32 wr, u64 pc) {
  if (LIKELY(!sim_on)) return;
  thr *t = self;
  if (UNLIKELY(!t)) return;
  steps++;
  n_mem++;
  if (UNLIKELY(--cd_mem == 0) || UNLIKELY(steps >= next_pt)) point(t, 0, pc);
  if (C.memcheck) memchk(a, n, wr, pc);
  if (C.race) racechk(t, a, n, wr, pc);
}

/* ---------------------------------------------------------------- threads */
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_key_create)(pthread_key_t *, void (*)(void *));
static struct { pthread_key_t k; void (*d)(void *); } keys[MAXKEYS];
static u32 nkeys;

static void get_stack(thr *t) {
  pthread_attr_t at;
  void *lo = NULL;
  size_t sz = 0;
  if (!pthread_getattr_np(pthread_self(), &at)) {
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
  }
  t->stk_lo = (uintptr_t)lo;
  t->stk_hi = (uintptr_t)lo + sz;
  t->stk_min = (uintptr_t)__builtin_frame_address(0);
}
static void run_dtors(thr *t) {
  for (int round = 0; round < 8; round++) {
    int any = 0;
    while (t->ndt) {
      dtor_t d = t->dt[--t->ndt];
      d.fn(d.arg);
      any = 1;
    }
    for (u32 i = 0; i < nkeys; i++) {
      void *v = pthread_getspecific(keys[i].k);
      if (v && keys[i].d) {
        pthread_setspecific(keys[i].k, NULL);
        keys[i].d(v);
        any = 1;
      }
    }
    if (!any) break;
  }
}
static void install_altstack(void);
static void *thread_main(void *vp) {
  thr *t = vp;
  self = t;
  park(t);
  get_stack(t);
  shadow_clear(t->stk_lo, t->stk_hi);
  install_altstack();
  void *r = t->start(t->arg);
  run_dtors(t);
  pre_sync(3, 0);
  t->vc[t->tid]++;
  t->state = ST_DONE;
  for (u32 i = 0; i < nthr; i++)
    if (T[i].state == ST_JOIN && T[i].join_tid == t->tid) T[i].state = ST_RUN;
  for (;;) {
    thr *n = choose(t);
    if (n) {
      switch_to(t, n, 0);
      break;
    }
    int q = 0;
    for (u32 i = 0; i < nthr; i++)
      if (T[i].state == ST_QUIESCE) { T[i].state = ST_RUN; q = 1; break; }
    if (q) continue;
    if (!unblock_timeout()) deadlock();
  }
  return r;
}
/* std insists on knowing the guard page of a thread's stack */
int pthread_attr_getguardsize(const pthread_attr_t *at, size_t *sz) {
  static int (*real)(const pthread_attr_t *, size_t *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_attr_getguardsize");
  int r = real(at, sz);
  if (!r && sim_on && self && self->tid && !*sz) *sz = 4096;
  return r;
}
static u64 stk_next = 0x5f0000000000ull;
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!sim_on || !self) return real_create(pt, at, fn, arg);
  pre_sync(1, PC());
  n_spawn++;
  u32 v;
  int refuse = 0;
  if (self->nofault) ;
  else if (C.replay) refuse = trace_get(TK_SPAWN, &v);
  else if (C.spawn_ppm && n_spawn >= C.spawn_from && n_spawn_refused < C.spawn_max) refuse = chance(C.spawn_ppm);
  if (refuse) {
    n_spawn_refused++;
    trace_put(TK_SPAWN, 0);
    return EAGAIN;
  }
  if (nthr >= RT_MAXT) fail(RC_HARNESS, 0, 0, "more than %d threads in one run", RT_MAXT);
  u32 id = nthr;
  thr *t = &T[id];
  memset(t, 0, offsetof(thr, stk));
  memset(t->vc, 0, sizeof t->vc);
  memset(t->acq, 0, sizeof t->acq);
  memset(t->rel, 0, sizeof t->rel);
  t->acq_any = t->rel_any = 0;
  t->tid = id;
  t->start = fn;
  t->arg = arg;
  t->nofault = self->nofault > 1 ? self->nofault : 0; /* 2: also for every thread started below */
  nthr++;
  vjoin(t->vc, self->vc);
  t->vc[id] = 1;
  self->vc[self->tid]++;
  t->prio = C.policy == POL_PCT && !C.replay ? 0x40000000u + (u32)(rnd() % 0x3fffffff) : 0;
  /* stacks at addresses that are the same in every execution of a seed, with a guard below */
  size_t sz = 8u << 20;
  int det = PTHREAD_CREATE_JOINABLE;
  if (at) {
    pthread_attr_getstacksize(at, &sz);
    pthread_attr_getdetachstate(at, &det);
  }
  sz = (sz + 0xffff) & ~(size_t)0xffff;
  u64 lo = stk_next;
  stk_next = lo + 0x10000 + sz;
  if (mmap((void *)(lo + 0x10000), sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)(lo + 0x10000))
    fail(RC_HARNESS, 0, 0, "no room for a stack");
  pthread_attr_t my;
  pthread_attr_init(&my);
  pthread_attr_setstack(&my, (void *)(lo + 0x10000), sz);
  pthread_attr_setdetachstate(&my, det);
  int r = real_create(pt, &my, thread_main, t);
  pthread_attr_destroy(&my);
  if (r) fail(RC_HARNESS, 0, 0, "the machine refused a real thread (%d)", r);
  t->pt = *pt;
  t->state = ST_RUN;
  if (C.policy == POL_PCT) next_pt = 0;
  return 0;
}
int pthread_join(pthread_t pt, void **ret) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (!sim_on || !self) return real_join(pt, ret);
  pre_sync(2, PC());
  thr *t = NULL;
  for (u32 i = nthr; i-- > 0;)
    if (T[i].state != ST_FREE && T[i].pt == pt && T[i].start) { t = &T[i]; break; }
  if (!t) return real_join(pt, ret);
  if (t->state != ST_DONE) {
    self->state = ST_JOIN;
    self->join_tid = t->tid;
    block(self);
  }
  vjoin(self->vc, t->vc);
  t->pt = 0;
  t->start = NULL;
  return real_join(pt, ret);
}
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
  if (!real_key_create) real_key_create = dlsym(RTLD_NEXT, "pthread_key_create");
  int r = real_key_create(k, NULL);
  if (!r && d && nkeys < MAXKEYS) {
    keys[nkeys].k = *k;
    keys[nkeys].d = d;
    nkeys++;
  }
  return r;
}
int __cxa_thread_atexit_impl(void (*fn)(void *), void *arg, void *dso) {
  (void)dso;
  thr *t = self;
  if (!t) return 0; /* the harness process exits without thread-local destructors */
  if (t->ndt >= 64) fail(RC_HARNESS, 0, 0, "too many thread-local destructors");
  t->dt[t->ndt].fn = fn;
  t->dt[t->ndt].arg = arg;
  t->ndt++;
  return 0;
}

/* ---------------------------------------------------------------- futex, time, environment */
static u64 ts_ns(const struct timespec *ts) { return (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; }
static void clock_event(void) {
  u32 v;
  if (C.replay) {
    if (trace_get(TK_CLOCK, &v)) { vnow += (u64)v * 1000000ull; trace_put(TK_CLOCK, v); }
  } else if (chance(C.clock_ppm)) {
    v = 1 + (u32)(rnd() % 3600000);
    vnow += (u64)v * 1000000ull;
    trace_put(TK_CLOCK, v);
  }
}
static long sim_futex(u32 *addr, int op, u32 val, u64 timeout, u32 *addr2, u32 val3, u64 pc) {
  int cmd = op & FUTEX_CMD_MASK;
  thr *me = self;
  pre_sync(cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET ? 4 : 5, pc);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    O->futex_waits++;
    u32 v;
    int spur = C.replay ? trace_get(TK_SPURIOUS, &v) : chance(C.spurious_ppm);
    if (spur) {
      trace_put(TK_SPURIOUS, 0);
      return 0;
    }
    me->deadline = 0;
    if (timeout) {
      u64 d = ts_ns((const struct timespec *)timeout);
      me->deadline = cmd == FUTEX_WAIT ? vnow + d : d;
      if (!me->deadline) me->deadline = 1;
    }
    me->futex = addr;
    me->bitset = cmd == FUTEX_WAIT ? 0xffffffffu : val3;
    me->wait_seq = ++wait_seq;
    me->wake_reason = 0;
    me->state = ST_FUTEX;
    block(me);
    me->futex = NULL;
    if (me->wake_reason == 1) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    u32 bs = cmd == FUTEX_WAKE ? 0xffffffffu : val3;
    long n = 0;
    O->futex_wakes++;
    while (n < (long)val) {
      thr *w[RT_MAXT];
      u32 k = 0;
      for (u32 i = 0; i < nthr; i++)
        if (T[i].state == ST_FUTEX && T[i].futex == addr && (T[i].bitset & bs)) w[k++] = &T[i];
      if (!k) break;
      /* arrival order is the default */
      for (u32 i = 1; i < k; i++) {
        thr *x = w[i];
        u32 j = i;
        while (j && w[j - 1]->wait_seq > x->wait_seq) { w[j] = w[j - 1]; j--; }
        w[j] = x;
      }
      u32 c = 0, v;
      if (k > 1) {
        if (C.replay) { if (trace_get(TK_WAKE, &v) && v < k) c = v; }
        else if (C.policy == POL_RANDOM || C.policy == POL_PCT) c = (u32)(rnd() % k);
        if (c) trace_put(TK_WAKE, c);
      }
      w[c]->state = ST_RUN;
      w[c]->deadline = 0;
      w[c]->wake_reason = 0;
      n++;
    }
    if (n && C.policy == POL_PCT) next_pt = 0;
    return n;
  }
  (void)addr2;
  fail(RC_HARNESS, pc, 0, "unsupported futex operation %d", op);
}
long syscall(long n, ...) {
  long a[6];
  va_list ap;
  va_start(ap, n);
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (sim_on && self) {
    if (n == SYS_futex) return sim_futex((u32 *)a[0], (int)a[1], (u32)a[2], (u64)a[3], (u32 *)a[4], (u32)a[5], PC());
    if (n == SYS_gettid) return 1000 + self->tid;
    if (n == SYS_getpid) return 1000;
    if (n == SYS_getrandom) {
      u8 *p = (u8 *)a[0];
      for (long i = 0; i < a[1]; i++) p[i] = (u8)rnd_env();
      return a[1];
    }
  }
  long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
/* panic messages contain them: their length must not vary */
pid_t gettid(void) { return sim_on && self ? 1000 + self->tid : (pid_t)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0); }
pid_t getpid(void) { return sim_on && self ? 1000 : (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); }
ssize_t getrandom(void *p, size_t n, unsigned fl) {
  if (sim_on && self) {
    for (size_t i = 0; i < n; i++) ((u8 *)p)[i] = (u8)rnd_env();
    return (ssize_t)n;
  }
  return syscall(SYS_getrandom, p, n, fl);
}
int sched_yield(void) {
  if (!sim_on || !self) return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  pre_sync(6, PC());
  O->yields++;
  vnow += 1000;
  if (C.policy == POL_PCT && !C.replay) self->prio = --pct_low;
  thr *n = choose(self);
  if (n && n != self) switch_to(self, n, 1);
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!sim_on || !self) {
    long r = raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
  }
  pre_sync(7, PC());
  clock_event();
  vnow += 1000;
  ts->tv_sec = (time_t)(vnow / 1000000000ull);
  ts->tv_nsec = (long)(vnow % 1000000000ull);
  return 0;
}
static int sim_sleep(u64 until) {
  pre_sync(8, PC());
  if (until > vnow) {
    self->deadline = until;
    self->state = ST_SLEEP;
    block(self);
  }
  return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!sim_on || !self) return (int)syscall(SYS_nanosleep, a, b);
  return sim_sleep(vnow + ts_ns(a));
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  if (!sim_on || !self) return (int)-raw6(SYS_clock_nanosleep, c, fl, (long)a, (long)b, 0, 0);
  return sim_sleep((fl & TIMER_ABSTIME) ? ts_ns(a) : vnow + ts_ns(a));
}
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (!sim_on || !self) {
    long r = raw6(SYS_sched_getaffinity, pid, (long)sz, (long)set, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    memset((char *)set + r, 0, sz - (size_t)r);
    return 0;
  }
  if (!C.ncpu) { O->nproc_refused++; errno = EPERM; return -1; }
  memset(set, 0, sz);
  for (u32 i = 0; i < C.ncpu && i < sz * 8; i++) ((u8 *)set)[i / 8] |= 1u << (i % 8);
  return 0;
}
static long (*real_sysconf)(int);
long sysconf(int name) {
  if (!real_sysconf) real_sysconf = dlsym(RTLD_NEXT, "sysconf");
  if (sim_on && self && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) {
    if (!C.ncpu) return -1;
    return C.ncpu;
  }
  return real_sysconf(name);
}
int open64(const char *path, int fl, ...) {
  int mode = 0;
  if (fl & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, fl);
    mode = va_arg(ap, int);
    va_end(ap);
  }
  if (sim_on && self && (!strncmp(path, "/proc/self/cgroup", 17) || !strncmp(path, "/sys/fs/cgroup", 14))) {
    errno = ENOENT;
    return -1;
  }
  long r = raw6(SYS_openat, AT_FDCWD, (long)path, fl, mode, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return (int)r;
}

/* ---------------------------------------------------------------- crashes */
static void on_signal(int sig, siginfo_t *si, void *uc) {
  (void)uc;
  thr *t = self;
  u64 addr = (u64)si->si_addr;
  if (O && t) {
    u64 pc = (u64)((ucontext_t *)uc)->uc_mcontext.gregs[16];
    O->sig = (u32)sig;
    if ((sig == SIGSEGV || sig == SIGBUS) && t->stk_lo && addr < t->stk_lo + 65536 && addr + (1u << 20) > t->stk_lo)
      fail(RC_STACK, pc, addr, "stack overflow in thread t%u (%lu KB stack)", t->tid, (unsigned long)((t->stk_hi - t->stk_lo) >> 10));
    fail(RC_SIGNAL, pc, addr, "signal %d (%s)", sig, strsignal(sig));
  }
  if (O) {
    O->sig = (u32)sig;
    fail(RC_SIGNAL, 0, addr, "signal %d (%s) outside a simulated thread", sig, strsignal(sig));
  }
  die(96);
}
static char altstk[RT_MAXT][32768];
static void install_altstack(void) {
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = altstk[self->tid];
  ss.ss_size = sizeof altstk[0];
  sigaltstack(&ss, NULL);
}
/* std installs its own per-thread alternate stacks; ours stay in force during a run */
int sigaltstack(const stack_t *ss, stack_t *old) {
  if (sim_on && self && ss && (char *)ss->ss_sp != altstk[self->tid]) {
    if (old) { memset(old, 0, sizeof *old); old->ss_flags = SS_DISABLE; }
    return 0;
  }
  long r = raw6(SYS_sigaltstack, (long)ss, (long)old, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}

/* ---------------------------------------------------------------- run control */
extern const char __ehdr_start __attribute__((visibility("hidden")));
void rt_begin(const rt_cfg *cfg, rt_out *out) {
  C = *cfg;
  O = out;
  O->exe_base = (u64)&__ehdr_start;
  rng[0] = mix(C.seed);
  rng[1] = mix(C.seed ^ 0x7f4a7c15ull);
  rng2 = mix(C.seed ^ 0xabcdefull);
  steps = n_sync = n_mem = 0;
  vnow = 1000000000000ull;
  if (!L1) {
    L1 = mmap(NULL, L1_N * sizeof(gran *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    SO = mmap(NULL, SO_N * sizeof(sobj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  nthr = 1;
  thr *t = &T[0];
  memset(t, 0, sizeof *t);
  t->tid = 0;
  t->state = ST_RUN;
  t->vc[0] = 1;
  t->pt = pthread_self();
  self = t;
  get_stack(t);
  install_altstack();
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGXCPU};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  real_join = dlsym(RTLD_NEXT, "pthread_join");
  cd_sync = C.policy == POL_RANDOM && !C.replay ? gap(C.gap_sync) : 0xffffffffu;
  cd_mem = C.policy == POL_RANDOM && !C.replay ? gap(C.gap_mem) : 0xffffffffu;
  if (C.pct_depth > 60) C.pct_depth = 60;
  if (C.policy == POL_PCT && !C.replay) {
    pct_low = 0x3fffffffu;
    t->prio = 0x40000000u + (u32)(rnd() % 0x3fffffff);
    for (u32 i = 0; i < C.pct_depth; i++) pct_pts[i] = 1 + rnd() % (C.pct_len ? C.pct_len : 2000);
    for (u32 i = 1; i < C.pct_depth; i++)
      for (u32 j = i; j && pct_pts[j - 1] > pct_pts[j]; j--) { u64 x = pct_pts[j]; pct_pts[j] = pct_pts[j - 1]; pct_pts[j - 1] = x; }
  }
  a_used0 = a_top;
  live_bytes = live_blocks = 0;
  set_next_pt();
  sim_on = 1;
}
void rt_end(void) {
  sim_on = 0;
  if (C.leak)
    for (ahdr *h = live_list.next; h != &live_list && O->nleak < RT_LEAKS; h = h->next)
      if (h->pc[0]) {
        u32 dup = 0;
        for (u32 i = 0; i < O->nleak && !dup; i++)
          if (!memcmp(O->leaks[i].pc, h->pc, sizeof h->pc)) { O->leaks[i].count++; O->leaks[i].bytes += h->size; dup = 1; }
        if (dup) continue;
        rt_leak *l = &O->leaks[O->nleak++];
        memcpy(l->pc, h->pc, sizeof h->pc);
        l->bytes = h->size;
        l->count = 1;
      }
  O->live_bytes = live_bytes;
  O->live_blocks = live_blocks;
  O->arena_used = a_top - a_used0;
  fin();
}
void rt_quiesce(void) {
  if (!sim_on) return;
  pre_sync(9, PC());
  self->state = ST_QUIESCE;
  /* let everything else run first */
  thr *n = choose(self);
  if (!n) { self->state = ST_RUN; return; }
  switch_to(self, n, 1);
}
void rt_fail(const char *m) { fail(RC_USER, PC(), 0, "%s", m); }
void rt_nofault(uint32_t on) { if (self) self->nofault = on; }
void rt_probe(uint32_t id) { if (O && id < RT_PROBES) O->probes[id]++; }
uint64_t rt_steps(void) { return steps; }
uint64_t rt_live_bytes(void) { return live_bytes; }
uint64_t rt_live_blocks(void) { return live_blocks; }
uint64_t rt_tid(void) { return self ? self->tid : 0; }
uint64_t rt_spawn_refused(void) { return n_spawn_refused; }

/* ---------------------------------------------------------------- instrumentation entry points */
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) {
  if (!sim_on) return;
  thr *t = self;
  if (!t) return;
  if (t->sp < SSTK) t->stk[t->sp] = (u64)pc;
  t->sp++;
}
void __tsan_func_exit(void) {
  if (!sim_on) return;
  thr *t = self;
  if (t && t->sp) t->sp--;
}
#define RW(n)                                                                        \
  void __tsan_read##n(void *p) { ev_mem((u64)p, n, 0, PC()); }                       \
  void __tsan_write##n(void *p) { ev_mem((u64)p, n, 1, PC()); }                      \
  void __tsan_read_write##n(void *p) { ev_mem((u64)p, n, 1, PC()); }                 \
  void __tsan_unaligned_read##n(void *p) { ev_mem((u64)p, n, 0, PC()); }             \
  void __tsan_unaligned_write##n(void *p) { ev_mem((u64)p, n, 1, PC()); }            \
  void __tsan_unaligned_read_write##n(void *p) { ev_mem((u64)p, n, 1, PC()); }       \
  void __tsan_volatile_read##n(void *p) { ev_mem((u64)p, n, 0, PC()); }              \
  void __tsan_volatile_write##n(void *p) { ev_mem((u64)p, n, 1, PC()); }             \
  void __tsan_unaligned_volatile_read##n(void *p) { ev_mem((u64)p, n, 0, PC()); }    \
  void __tsan_unaligned_volatile_write##n(void *p) { ev_mem((u64)p, n, 1, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range(u64 a, u64 n, u32 wr, u64 pc) {
  if (!sim_on || !n) return;
  thr *t = self;
  if (!t) return;
  u64 k = (n + 63) / 64;
  steps += k;
  n_mem += k;
  if (cd_mem != 0xffffffffu) cd_mem = cd_mem > k ? cd_mem - (u32)k : 0;
  if (cd_mem == 0 || steps >= next_pt) point(t, 0, pc);
  if (C.memcheck) memchk(a, n, wr, pc);
  if (C.race) racechk(t, a, n, wr, pc);
}
void __tsan_read_range(void *p, unsigned long n) { range((u64)p, n, 0, PC()); }
void __tsan_write_range(void *p, unsigned long n) { range((u64)p, n, 1, PC()); }
void __tsan_vptr_update(void **p, void *v) { (void)v; ev_mem((u64)p, 8, 1, PC()); }
void __tsan_vptr_read(void **p) { ev_mem((u64)p, 8, 0, PC()); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  range((u64)s, n, 0, PC());
  range((u64)d, n, 1, PC());
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  range((u64)s, n, 0, PC());
  range((u64)d, n, 1, PC());
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  range((u64)d, n, 1, PC());
  return memset(d, c, n);
}
INLINE thr *pre_atomic(u64 a, u32 n, u32 kind, u32 wr, u64 pc) {
  thr *t = self;
  pre_sync(kind, pc);
  if (C.memcheck) memchk(a, n, wr, pc);
  if (C.race) racechk(t, a, n, wr | 2, pc);
  return t;
}
#define ATOMICS(B, TY)                                                                              \
  TY __tsan_atomic##B##_load(const volatile TY *p, int mo) {                                        \
    if (!sim_on || !self) return __atomic_load_n(p, __ATOMIC_SEQ_CST);                              \
    thr *t = pre_atomic((u64)p, B / 8, 20, 0, PC());                                                \
    TY v = *p;                                                                                      \
    if (C.race) hb_load(t, (u64)p, mo);                                                             \
    return v;                                                                                       \
  }                                                                                                 \
  void __tsan_atomic##B##_store(volatile TY *p, TY v, int mo) {                                     \
    if (!sim_on || !self) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }                     \
    thr *t = pre_atomic((u64)p, B / 8, 21, 1, PC());                                                \
    if (C.race) hb_store(t, (u64)p, mo, 0);                                                         \
    *p = v;                                                                                         \
  }                                                                                                 \
  RMW(B, TY, exchange, v)                                                                           \
  RMW(B, TY, fetch_add, o + v)                                                                      \
  RMW(B, TY, fetch_sub, o - v)                                                                      \
  RMW(B, TY, fetch_and, o & v)                                                                      \
  RMW(B, TY, fetch_or, o | v)                                                                       \
  RMW(B, TY, fetch_xor, o ^ v)                                                                      \
  RMW(B, TY, fetch_nand, ~(o & v))                                                                  \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p, TY c, TY v, int mo, int fmo) {         \
    if (!sim_on || !self) {                                                                         \
      __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                 \
      return c;                                                                                     \
    }                                                                                               \
    thr *t = pre_atomic((u64)p, B / 8, 23, 1, PC());                                                \
    TY o = *p;                                                                                      \
    if (o == c) {                                                                                   \
      if (C.race) { hb_load(t, (u64)p, mo); hb_store(t, (u64)p, mo, 1); }                           \
      *p = v;                                                                                       \
    } else if (C.race) hb_load(t, (u64)p, fmo);                                                     \
    return o;                                                                                       \
  }                                                                                                 \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY *p, TY *c, TY v, int mo, int fmo) {    \
    TY o = __tsan_atomic##B##_compare_exchange_val(p, *c, v, mo, fmo);                              \
    if (o == *c) return 1;                                                                          \
    *c = o;                                                                                         \
    return 0;                                                                                       \
  }                                                                                                 \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY *p, TY *c, TY v, int mo, int fmo) {      \
    return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fmo);                            \
  }
#define RMW(B, TY, NAME, EXPR)                                                                      \
  TY __tsan_atomic##B##_##NAME(volatile TY *p, TY v, int mo) {                                      \
    if (!sim_on || !self) {                                                                         \
      TY o = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                  \
      for (;;) {                                                                                    \
        TY n = (TY)(EXPR);                                                                          \
        if (__atomic_compare_exchange_n(p, &o, n, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return o; \
      }                                                                                             \
    }                                                                                               \
    thr *t = pre_atomic((u64)p, B / 8, 22, 1, PC());                                                \
    TY o = *p;                                                                                      \
    if (C.race) { hb_load(t, (u64)p, mo); hb_store(t, (u64)p, mo, 1); }                             \
    *p = (TY)(EXPR);                                                                                \
    return o;                                                                                       \
  }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo) {
  if (!sim_on || !self) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; }
  pre_sync(24, PC());
  if (C.race) hb_fence(self, mo);
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
