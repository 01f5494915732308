/* Deterministic simulation runtime.
 *
 * The code under test (prometrics, its dependencies and std) is compiled with LLVM's ThreadSanitizer
 * *instrumentation*, but linked against this file instead of the ThreadSanitizer runtime: every atomic
 * access, fence and plain memory access calls in here, and so do futexes, clocks, sleeps, yields, file
 * reads and the allocator (interposed libc symbols / global allocator).  Threads are real OS threads that
 * are parked and released one at a time; who runs next, how far time advances, what a system call returns
 * and which freed memory block is reused are all choices made here, from one seed, logged, and replayable.
 *
 * This file must be compiled without any sanitizer instrumentation.
 */
#define _GNU_SOURCE
#include "simrt.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>

/* ---------------------------------------------------------------- raw system calls */
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static inline long fix(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
static void raw_futex_wait(volatile int *a, int v) { raw6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void raw_futex_wake(volatile int *a) { raw6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
__attribute__((noreturn)) static void raw_exit(int c) { raw6(SYS_exit_group, c, 0, 0, 0, 0, 0); __builtin_unreachable(); }

/* ---------------------------------------------------------------- state */
#define MAXT 80
enum { T_NONE, T_RUN, T_FUTEX, T_SLEEP, T_HALT, T_JOIN, T_DONE };
typedef struct {
  int state;
  volatile int go;
  uintptr_t waddr; uint32_t wbits; int64_t deadline; int wret;
  int op; uint32_t k[NKIND];
  uintptr_t spin_addr; uint64_t spin_val; int spin_cnt; int spinning;
  int64_t prio;
  uint64_t opsteps;
} thr_t;

static config_t C;
static result_t *R;
static int active;              /* inside a simulated run */
static thr_t T[MAXT];
static int nthr, cur;
static uint64_t rng, rng_fair;
static uint64_t steps, plain, seqno;
static int fair, nofault, nohalt;
static uint64_t mono_ns; static int64_t wall_off;   /* wall = mono + wall_off */
static int64_t minprio;
static uint64_t pct_points[16]; static int npct;
static uint64_t hash;

static __thread int t_id __attribute__((tls_model("initial-exec"))) = -1;
static __thread int t_sut __attribute__((tls_model("initial-exec"))) = 0;

static inline uint64_t sm(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline uint64_t rnd(void) { return sm(&rng); }
static inline uint64_t rndn(uint64_t n) { return n ? rnd() % n : 0; }
static inline int chance(uint32_t p) { return p && (rnd() & 0xffff) < p; }
static inline void hmix(uint64_t v) { hash = (hash ^ v) * 0x100000001b3ull; hash ^= hash >> 29; }

/* ---------------------------------------------------------------- verdicts */
static void describe_threads(char *b, size_t n) {
  static const char *nm[] = { "none", "runnable", "futex-wait", "sleeping", "halted", "join", "done" };
  size_t o = 0;
  for (int i = 0; i < nthr && o + 64 < n; i++)
    o += snprintf(b + o, n - o, "%st%d:%s(op %d, step %u)", i ? ", " : "", i, nm[T[i].state], T[i].op, T[i].k[K_SCHED]);
}
__attribute__((noreturn)) void sim_fail(const char *cls, size_t cl, const char *msg, size_t ml) {
  if (!R) { fprintf(stderr, "sim_fail outside run: %.*s %.*s\n", (int)cl, cls, (int)ml, msg); abort(); }
  if (cl > sizeof R->cls - 1) cl = sizeof R->cls - 1;
  if (ml > sizeof R->msg - 1) ml = sizeof R->msg - 1;
  memcpy(R->cls, cls, cl); R->cls[cl] = 0;
  memcpy(R->msg, msg, ml); R->msg[ml] = 0;
  R->hash = hash; R->simtime = mono_ns - C.mono0; R->stat[ST_STEPS] = steps;
  R->status = 2;
  raw_exit(0);
}
static __attribute__((noreturn)) void failf(const char *cls, const char *fmt, ...) {
  static char b[4096];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  sim_fail(cls, strlen(cls), b, strlen(b));
}
static __attribute__((noreturn)) void herr(const char *msg) {
  if (R) { R->status = 3; strncpy(R->msg, msg, sizeof R->msg - 1); }
  raw_exit(0);
}
__attribute__((noreturn)) void sim_herr(const char *msg, size_t n) {
  if (R) { if (n > sizeof R->msg - 1) n = sizeof R->msg - 1; memcpy(R->msg, msg, n); R->msg[n] = 0; R->status = 3; }
  raw_exit(0);
}
__attribute__((noreturn)) void sim_ok(void) {
  R->hash = hash; R->simtime = mono_ns - C.mono0; R->stat[ST_STEPS] = steps;
  R->status = 1;
  raw_exit(0);
}

/* ---------------------------------------------------------------- choices */
#define RTAB 131072
static choice_t *rtab; /* replay lookup, open addressing; kind 255 = empty */
static uint32_t rhash(int tid, int op, uint32_t k, int kind) {
  uint64_t x = ((uint64_t)tid << 56) ^ ((uint64_t)kind << 48) ^ ((uint64_t)op << 32) ^ k;
  return (uint32_t)(sm(&x) & (RTAB - 1));
}
static int64_t rlookup(int tid, int op, uint32_t k, int kind) {
  for (uint32_t i = rhash(tid, op, k, kind);; i = (i + 1) & (RTAB - 1)) {
    if (rtab[i].kind == 255) return 0;
    if (rtab[i].tid == tid && rtab[i].op == op && rtab[i].k == k && rtab[i].kind == kind) return rtab[i].v;
  }
}
static void logc(int tid, int op, uint32_t k, int kind, int64_t v) {
  if (v == 0) return;
  if (R->nlog >= MAXLOG) herr("choice log full");
  choice_t *c = &R->log[R->nlog++];
  c->tid = tid; c->kind = kind; c->op = op; c->k = k; c->v = v;
}
static uint32_t nchoices; /* choices other than the default so far, searched or replayed */
/* v is the searched value (used only in search mode) */
#define CHOOSE(me, kindv, expr) ({ \
  thr_t *_m = (me); int _id = (int)(_m - T); uint32_t _k = _m->k[kindv]++; int64_t _v; \
  if (C.replay) _v = rlookup(_id, _m->op, _k, kindv); \
  else { _v = nchoices >= MAXLOG - 64 ? 0 : (expr); logc(_id, _m->op, _k, kindv, _v); } nchoices += _v != 0; _v; })

/* ---------------------------------------------------------------- time */
#define MAXWALL 65536
static int64_t walllog[MAXWALL]; static int nwall; /* wall clock value after each change */
static void wall_changed(void) { if (nwall < MAXWALL) walllog[nwall++] = (int64_t)mono_ns + wall_off; }
static void advance(int64_t ns) {
  if (ns <= 0) return;
  mono_ns += (uint64_t)ns; R->stat[ST_TIMEADV]++; wall_changed(); hmix(0x7000 + (uint64_t)ns);
}
static void wallstep(int64_t ns) {
  if (!ns) return;
  wall_off += ns; R->stat[ns > 0 ? ST_WALLFWD : ST_WALLBACK]++; wall_changed(); hmix(0x9000 + (uint64_t)ns);
}
uint64_t sim_mono(void) { return mono_ns; }
int64_t sim_wall(void) { return (int64_t)mono_ns + wall_off; }
void sim_advance(int64_t ns) { advance(ns); }
void sim_wall_step(int64_t ns) { wallstep(ns); }
int sim_wall_mark(void) { return nwall; }
int sim_wall_get(int from, int64_t *out, int max) {
  int n = 0;
  for (int i = from; i < nwall && n < max; i++) out[n++] = walllog[i];
  return n;
}

/* ---------------------------------------------------------------- scheduler */
static void idle(void);
static int runnable(int i) { return T[i].state == T_RUN; }

static void park(thr_t *me) {
  while (!__atomic_load_n(&me->go, __ATOMIC_ACQUIRE)) raw_futex_wait(&me->go, 0);
  me->go = 0;
}
static void switch_to(int t) {
  int self = t_id;
  if (t == self) return;
  R->stat[ST_SWITCH]++;
  hmix(((uint64_t)self << 48) ^ ((uint64_t)T[self].op << 32) ^ ((uint64_t)T[self].k[K_SCHED] << 8) ^ (uint64_t)t);
  cur = t;
  int e = errno;
  __atomic_store_n(&T[t].go, 1, __ATOMIC_RELEASE);
  raw_futex_wake(&T[t].go);
  park(&T[self]);
  errno = e;
}
static int pick_random(int excl) {
  int c[MAXT], n = 0;
  for (int i = 0; i < nthr; i++) if (i != excl && runnable(i)) c[n++] = i;
  if (!n) return -1;
  return c[(fair ? sm(&rng_fair) : rnd()) % n];
}
static int next_cyclic(int self) {
  for (int d = 1; d <= nthr; d++) { int i = (self + d) % nthr; if (runnable(i)) return i; }
  return -1;
}
static int pick_prio(void) {
  int b = -1;
  for (int i = 0; i < nthr; i++) if (runnable(i) && (b < 0 || T[i].prio > T[b].prio)) b = i;
  return b;
}
/* policy 4: a thread is stopped inside a call for a long time, however the others fare */
static int starved = -1, starvings; static int64_t starve_left;
static int pick_starving(int self) {
  if (starve_left > 0 && --starve_left == 0) starved = -1;
  int c[MAXT], n = 0;
  for (int i = 0; i < nthr; i++) if (i != self && i != starved && runnable(i)) c[n++] = i;
  return n ? c[rndn(n)] : -1;
}
/* choose who runs at a point where `self` is still runnable */
static int decide(int self, int boundary) {
  thr_t *me = &T[self];
  int others = 0;
  for (int i = 0; i < nthr; i++) if (i != self && runnable(i)) { others = 1; break; }
  if (fair) {
    me->k[K_SCHED]++;
    if (!others) { me->spinning = 0; return self; }
    int force = me->spinning; me->spinning = 0;
    if (force || (sm(&rng_fair) & 7) == 0) { int t = pick_random(force ? self : -1); return t < 0 ? self : t; }
    return self;
  }
  if (!others) { me->k[K_SCHED]++; me->spinning = 0; return self; }
  int force = me->spinning; me->spinning = 0;
  int def = force ? next_cyclic(self) : self;
  int64_t v = CHOOSE(me, K_SCHED, ({
    int t = def;
    if (C.policy == 1) {
      if (force) me->prio = --minprio;
      for (int i = 0; i < npct; i++) if (pct_points[i] == steps) me->prio = --minprio;
      t = pick_prio();
    } else if (C.policy == 4) {
      if (starved < 0 && !boundary && self != 0 && starvings < 3 && chance(C.p_switch)) {
        starved = self; starvings++; starve_left = 100 + (int64_t)rndn(1 << (7 + rndn(6)));
        R->stat[ST_STARVE]++;
      }
      if (self == starved || force || chance(6000)) { t = pick_starving(self); if (t < 0) t = self; }
      else if (starve_left > 0 && --starve_left == 0) starved = -1;
    } else if (force) t = pick_random(self);
    else if (C.policy == 2) { if (boundary) t = pick_random(-1); }
    else if (C.policy == 3) {
      /* one thread is interrupted at nearly every step, and continues when another has finished an operation */
      int victim = 1 + (int)(C.fair_seed % (uint64_t)(nthr > 1 ? nthr - 1 : 1));
      for (int d = 1; d < nthr && (T[victim].state == T_HALT || T[victim].state == T_DONE); d++) victim = 1 + victim % (nthr - 1);
      if (self == victim) { if (chance(C.p_switch)) t = pick_random(self); }
      else if (boundary) t = runnable(victim) ? victim : pick_random(-1);
      else if ((rnd() & 63) == 0) t = pick_random(self);
    }
    else if (chance(boundary ? (C.p_switch < 16384 ? 16384 : C.p_switch) : C.p_switch)) t = pick_random(self);
    t == def ? 0 : t + 1;
  }));
  int t = def;
  if (v > 0 && v <= nthr && runnable((int)v - 1)) t = (int)v - 1;
  if (t != self && !boundary && !force) { R->stat[ST_PREEMPT]++; }
  return t;
}
/* choose who runs when `self` cannot continue */
static int decide_blocked(int self) {
  for (;;) {
    int def = next_cyclic(self);
    if (def < 0) { idle(); continue; }
    if (fair) { T[self].k[K_BLOCK]++; int t = pick_random(-1); return t; }
    int64_t v = CHOOSE(&T[self], K_BLOCK, ({ int t = C.policy == 1 ? pick_prio() : C.policy == 4 ? pick_starving(self) : pick_random(-1); if (t < 0) t = def; t == def ? 0 : t + 1; }));
    if (v > 0 && v <= nthr && runnable((int)v - 1)) return (int)v - 1;
    return def;
  }
}
static void block(void) { int t = decide_blocked(t_id); if (t != t_id) switch_to(t); }

static void idle(void) {
  /* nothing is runnable: let time pass to the next deadline */
  int64_t best = -1; int bi = -1, halted = 0, joining = -1, unfinished = 0;
  for (int i = 0; i < nthr; i++) {
    thr_t *t = &T[i];
    if (t->state == T_HALT) halted = 1;
    if (t->state == T_JOIN) joining = i;
    if (t->state == T_FUTEX || t->state == T_SLEEP) {
      unfinished = 1;
      if (t->deadline >= 0 && (best < 0 || t->deadline < best)) { best = t->deadline; bi = i; }
    }
  }
  if (bi >= 0) {
    if (best > (int64_t)mono_ns) advance(best - (int64_t)mono_ns);
    T[bi].wret = T[bi].state == T_FUTEX ? -ETIMEDOUT : 0;
    T[bi].state = T_RUN; T[bi].deadline = -1;
    return;
  }
  if (!unfinished && joining >= 0) { T[joining].state = T_RUN; return; }
  char b[1024]; describe_threads(b, sizeof b);
  if (halted) failf("blocked-by-stalled-thread", "a thread waits for a thread that is stopped: %s", b);
  failf("deadlock", "no thread can run: %s", b);
}

static void budget(void) {
  steps++;
  if (!fair && (steps > C.cap1 || nchoices > MAXLOG - 4096)) {
    fair = 1; rng_fair = C.fair_seed; R->stat[ST_FAIR]++;
  }
  if (fair && steps > C.cap2) {
    char b[1024]; describe_threads(b, sizeof b);
    int halted = 0;
    for (int i = 0; i < nthr; i++) if (T[i].state == T_HALT) halted = 1;
    failf(halted ? "blocked-by-stalled-thread" : "no-progress",
          "calls did not finish within %u further steps under a fair schedule without faults: %s", C.cap2 - C.cap1, b);
  }
}
static void timefaults(thr_t *me, int clockread) {
  if (fair || nofault) return;
  if (C.p_time || C.replay) {
    uint32_t p = clockread ? (C.p_time * 8 > 40000 ? 40000 : C.p_time * 8) : C.p_time;
    int64_t v = CHOOSE(me, K_TIME, (chance(p) && C.ntv ? C.tvals[rndn(C.ntv)] : 0));
    if (v > 0) advance(v);
  }
  if (C.p_wall || C.replay) {
    uint32_t p = clockread ? (C.p_wall * 8 > 40000 ? 40000 : C.p_wall * 8) : C.p_wall;
    int64_t v = CHOOSE(me, K_WALL, (chance(p) && C.nwv ? C.wvals[rndn(C.nwv)] : 0));
    if (v) wallstep(v);
  }
}
static void point(int boundary) {
  int self = t_id;
  thr_t *me = &T[self];
  budget();
  me->opsteps++;
  timefaults(me, 0);
  if (!boundary && (C.nhalt || C.replay) && self != 0) {
    int64_t h = CHOOSE(me, K_HALT, ({ int x = 0; for (int i = 0; i < C.nhalt; i++)
        if (C.halt_tid[i] == self && C.halt_op[i] == me->op && (uint32_t)C.halt_k[i] == me->k[K_HALT] - 1) x = 1; x; }));
    if (h && !fair && !nohalt) { me->state = T_HALT; R->stat[ST_HALT]++; hmix(0xAAAA + self); block(); }
  }
  int t = decide(self, boundary);
  if (t != self) switch_to(t);
}
#define SIMMED (t_id >= 0 && t_sut)

/* ---- API for the harness */
void sim_point(void) { if (t_id >= 0 && active) point(0); }
void sim_boundary(void) { if (t_id >= 0 && active) point(1); }
void sim_yield(void) { if (t_id >= 0 && active) { T[t_id].spinning = 1; point(0); } }
int sim_set_sut(int v) { int o = t_sut; t_sut = v; if (v && !o) plain = 0; return o; }
int sim_tid(void) { return t_id; }
int sim_cur_op(void) { return t_id >= 0 ? T[t_id].op : -1; }
uint64_t sim_seq(void) { return ++seqno; }
uint64_t sim_opsteps(void) { return t_id >= 0 ? T[t_id].opsteps : 0; }
int sim_nhalted(void) { int n = 0; for (int i = 0; i < nthr; i++) n += T[i].state == T_HALT; return n; }
int sim_is_halted(int t) { return T[t].state == T_HALT; }
void sim_stat(int i, uint64_t n) { R->stat[i] += n; }
int sim_fair(void) { return fair; }
void sim_set_faults(int on) { nofault = !on; }

static void spin_reset(thr_t *me) { me->spin_cnt = 0; me->spin_addr = 0; }
static void enter_op(int op) {
  thr_t *me = &T[t_id];
  me->op = op; memset(me->k, 0, sizeof me->k); me->opsteps = 0; spin_reset(me); me->spinning = 0;
}
/* begin a plan operation: a boundary scheduling point */
void sim_op(int op) {
  if (t_id < 0) return;
  enter_op(op);
  R->stat[ST_OPS]++;
  if (t_id > 0) point(1);
}

void sim_begin(const config_t *cfg, result_t *r, const choice_t *rc, int nrc) {
  C = *cfg; R = r;
  memset(T, 0, sizeof T);
  for (int i = 0; i < MAXT; i++) T[i].deadline = -1;
  rng = C.seed; steps = plain = seqno = 0; fair = 0; hash = 0xcbf29ce484222325ull;
  mono_ns = C.mono0; wall_off = C.wall0 - (int64_t)C.mono0; nwall = 0; wall_changed();
  minprio = 0; npct = 0;
  if (C.replay) {
    rtab = mmap(0, sizeof(choice_t) * RTAB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < RTAB; i++) rtab[i].kind = 255;
    for (int i = 0; i < nrc; i++) {
      uint32_t h = rhash(rc[i].tid, rc[i].op, rc[i].k, rc[i].kind);
      while (rtab[h].kind != 255) h = (h + 1) & (RTAB - 1);
      rtab[h] = rc[i];
      logc(rc[i].tid, rc[i].op, rc[i].k, rc[i].kind, rc[i].v);
    }
  } else {
    npct = C.pct_depth > 1 ? C.pct_depth - 1 : 0; if (npct > 16) npct = 16;
  }
  t_id = 0; nthr = 1; cur = 0; T[0].state = T_RUN; T[0].op = 0;
  active = 1;
}
/* worker threads: created one by one by thread 0 (outside sut), each parks until scheduled */
static volatile int entered;
void sim_thread_enter(int id) {
  t_id = id; t_sut = 0;
  __atomic_add_fetch(&entered, 1, __ATOMIC_SEQ_CST);
  raw_futex_wake(&entered);
  park(&T[id]);
}
void sim_threads_ready(int n) { /* thread 0: n workers have been spawned */
  for (;;) { int e = __atomic_load_n(&entered, __ATOMIC_SEQ_CST); if (e >= n) break; raw_futex_wait(&entered, e); }
  nthr = n + 1;
  for (int i = 1; i <= n; i++) { T[i].state = T_RUN; T[i].op = 0; T[i].prio = (int64_t)(rnd() >> 8); }
  for (int i = 0; i < npct; i++) pct_points[i] = steps + 1 + rndn(C.pct_len ? C.pct_len : 1);
}
/* thread 0: run the workers until all are done or halted */
void sim_run(void) {
  T[0].state = T_JOIN;
  for (;;) {
    int t = decide_blocked(0);
    if (t == 0) break;
    switch_to(t);
    if (T[0].state == T_RUN) break;
  }
}
int sim_resume_halted(void) {
  int n = 0;
  nohalt = 1;
  for (int i = 1; i < nthr; i++) if (T[i].state == T_HALT) { T[i].state = T_RUN; n++; }
  if (n) sim_run();
  return n;
}
__attribute__((noreturn)) void sim_thread_exit(void) {
  T[t_id].state = T_DONE;
  t_sut = 0;
  block();
  herr("a finished thread was scheduled");
}

/* ---------------------------------------------------------------- simulated heap */
#define ABASE 0x600000000000ull
#define NCLS 40
#define RSHIFT 24
#define ASIZE ((uint64_t)NCLS << RSHIFT)
static uint32_t csize[NCLS]; static uint32_t cnext[NCLS], cfree_n[NCLS];
static uint32_t *cmeta[NCLS]; /* per slot: 0 never used, live: 0x80000000|size, freed: size */
static uint32_t *cfree[NCLS];
static uint64_t live_blocks, live_bytes;
#define LIVE 0x80000000u

void sim_heap_init(void) {
  void *p = mmap((void *)ABASE, ASIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ABASE) { fprintf(stderr, "simrun: cannot map the simulated heap\n"); raw_exit(2); }
  int n = 0;
  for (uint32_t s = 16; s <= 128; s += 16) csize[n++] = s;
  for (uint32_t b = 128; n + 4 <= NCLS; b *= 2) for (int j = 1; j <= 4; j++) csize[n++] = b + b / 4 * j;
  for (int i = 0; i < NCLS; i++) {
    uint64_t slots = (1ull << RSHIFT) / csize[i];
    cmeta[i] = mmap(0, slots * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cfree[i] = mmap(0, slots * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
}
static inline int in_arena(const void *p) { return (uint64_t)p - ABASE < ASIZE; }
static int cls_of(size_t n, size_t al) {
  for (int i = 0; i < NCLS; i++) if (csize[i] >= n && csize[i] % al == 0) return i;
  return -1;
}
void *sim_alloc(size_t n, size_t al) {
  if (SIMMED && active) {
    int c = cls_of(n, al);
    if (c >= 0) {
      uint32_t s, slots = (uint32_t)((1ull << RSHIFT) / csize[c]);
      if (cnext[c] >= slots && !cfree_n[c]) goto plain; /* the class is full */
      R->stat[ST_ALLOC]++;
      if (cfree_n[c] && C.alloc_mode == 0) {
        uint32_t top = cfree_n[c] - 1;
        int64_t v = CHOOSE(&T[t_id], K_ALLOC, ({ int64_t r = rndn(4); r == 0 ? (int64_t)rndn(top + 2) : 0; }));
        if (v > (int64_t)top && cnext[c] >= slots) v = 0;
        /* 0: most recently freed, 1..top: older ones, top+1: a fresh block */
        if (v >= 0 && v <= (int64_t)top) {
          uint32_t i = top - (uint32_t)v; s = cfree[c][i];
          cfree[c][i] = cfree[c][top]; cfree_n[c]--; R->stat[ST_REUSE]++;
        } else s = cnext[c]++;
      } else if (cnext[c] < slots) s = cnext[c]++;
      else { s = cfree[c][0]; cfree[c][0] = cfree[c][--cfree_n[c]]; } /* never reuse: until there is no other way */
      cmeta[c][s] = LIVE | (uint32_t)n; live_blocks++; live_bytes += n;
      void *p = (void *)(ABASE + ((uint64_t)c << RSHIFT) + (uint64_t)s * csize[c]);
      memset(p, 0xA5, n < 1024 ? n : 1024);
      return p;
    }
  }
plain:
  if (al <= 16) return malloc(n ? n : 1);
  void *p = 0; if (posix_memalign(&p, al, n)) return 0; return p;
}
void sim_free(void *p) {
  if (!in_arena(p)) { free(p); return; }
  uint64_t o = (uint64_t)p - ABASE; int c = (int)(o >> RSHIFT); uint64_t in = o & ((1u << RSHIFT) - 1);
  uint32_t s = (uint32_t)(in / csize[c]);
  if (in % csize[c]) failf("invalid-free", "free of an address inside a block");
  if (!(cmeta[c][s] & LIVE)) failf("double-free", "block of %u bytes freed twice (thread %d, op %d)", cmeta[c][s], t_id, t_id >= 0 ? T[t_id].op : -1);
  uint32_t n = cmeta[c][s] & ~LIVE;
  cmeta[c][s] = n; live_blocks--; live_bytes -= n; R->stat[ST_FREE]++;
  memset(p, 0xDD, n < 4096 ? n : 4096);
  cfree[c][cfree_n[c]++] = s;
}
void *sim_realloc(void *p, size_t old, size_t n, size_t al) {
  if (!in_arena(p) && !(SIMMED && active) && al <= 16) return realloc(p, n ? n : 1);
  void *q = sim_alloc(n, al);
  if (q) { memcpy(q, p, old < n ? old : n); sim_free(p); }
  return q;
}
uint64_t sim_live_blocks(void) { return live_blocks; }
uint64_t sim_live_bytes(void) { return live_bytes; }
static void memcheck(const void *a, size_t n, int wr) {
  uint64_t o = (uint64_t)a - ABASE; int c = (int)(o >> RSHIFT); uint64_t in = o & ((1u << RSHIFT) - 1);
  uint32_t s = (uint32_t)(in / csize[c]); uint32_t m = cmeta[c][s]; uint64_t off = in % csize[c];
  if (!(m & LIVE)) failf("use-after-free", "%s of %zu bytes at offset %lu of a released block of %u bytes (thread %d, op %d)",
                         wr ? "write" : "read", n, (unsigned long)off, m, t_id, t_id >= 0 ? T[t_id].op : -1);
  if (off + n > (m & ~LIVE)) failf("out-of-bounds", "%s of %zu bytes at offset %lu of a block of %u bytes (thread %d, op %d)",
                         wr ? "write" : "read", n, (unsigned long)off, m & ~LIVE, t_id, t_id >= 0 ? T[t_id].op : -1);
}
/* explicit check by the harness that a reference it holds is still backed by live memory */
void sim_check_live(const void *a, size_t n) { if (n && active && in_arena(a)) memcheck(a, n, 0); }

static inline void access_(const void *a, size_t n, int wr) {
  if (t_id < 0 || !active) return;
  if (in_arena(a)) {
    memcheck(a, n, wr);
    if (t_sut && C.p_plain) point(0);
  }
  if (t_sut && ++plain > 300000000ull) {
    char b[1024]; describe_threads(b, sizeof b);
    failf("no-progress", "a call executed 300 million memory accesses without finishing: %s", b);
  }
}

/* ---------------------------------------------------------------- instrumentation callbacks */
#define API __attribute__((visibility("default"), used))
API void __tsan_init(void) {}
API void __tsan_func_entry(void *p) { (void)p; }
API void __tsan_func_exit(void) {}
API void __tsan_ignore_thread_begin(void) {}
API void __tsan_ignore_thread_end(void) {}
#define RW(n) \
  API void __tsan_read##n(void *a) { access_(a, n, 0); } \
  API void __tsan_write##n(void *a) { access_(a, n, 1); } \
  API void __tsan_read_write##n(void *a) { access_(a, n, 1); } \
  API void __tsan_volatile_read##n(void *a) { access_(a, n, 0); } \
  API void __tsan_volatile_write##n(void *a) { access_(a, n, 1); } \
  API void __tsan_unaligned_read##n(void *a) { access_(a, n, 0); } \
  API void __tsan_unaligned_write##n(void *a) { access_(a, n, 1); } \
  API void __tsan_unaligned_read_write##n(void *a) { access_(a, n, 1); } \
  API void __tsan_unaligned_volatile_read##n(void *a) { access_(a, n, 0); } \
  API void __tsan_unaligned_volatile_write##n(void *a) { access_(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void *a, size_t n) { if (n) access_(a, n, 0); }
API void __tsan_write_range(void *a, size_t n) { if (n) access_(a, n, 1); }
API void __tsan_vptr_update(void **a, void *v) { (void)v; access_(a, 8, 1); }
API void __tsan_vptr_read(void **a) { access_(a, 8, 0); }
API void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { access_(s, n, 0); access_(d, n, 1); } return memcpy(d, s, n); }
API void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { access_(s, n, 0); access_(d, n, 1); } return memmove(d, s, n); }
API void *__tsan_memset(void *d, int c, size_t n) { if (n) access_(d, n, 1); return memset(d, c, n); }

static inline void apre(const volatile void *a, size_t n, int wr) {
  if (t_id < 0 || !active) return;
  if (in_arena((const void *)a)) memcheck((const void *)a, n, wr);
  if (t_sut) {
    point(0);
    if (in_arena((const void *)a)) memcheck((const void *)a, n, wr);
  }
}
static inline void aload(const volatile void *a, uint64_t v) { /* after a load: busy-wait detection */
  if (t_id < 0 || !t_sut) return;
  thr_t *me = &T[t_id];
  if (me->spin_addr == (uintptr_t)a && me->spin_val == v) {
    if (++me->spin_cnt >= 3) { me->spinning = 1; me->spin_cnt = 1; R->stat[ST_SPIN]++; }
  } else { me->spin_addr = (uintptr_t)a; me->spin_val = v; me->spin_cnt = 0; }
}
static inline void awrite(void) { if (t_id >= 0) T[t_id].spin_addr = 0; }
static inline void acasfail(const volatile void *a, uint64_t v) {
  if (t_id < 0 || !t_sut) return;
  R->stat[ST_CASFAIL]++; aload(a, v);
}
typedef unsigned __int128 u128;
#define AT(bits, ty) \
  API ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { (void)mo; apre(a, sizeof(ty), 0); ty v = __atomic_load_n(a, 5); aload(a, (uint64_t)v); return v; } \
  API void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { (void)mo; apre(a, sizeof(ty), 1); awrite(); __atomic_store_n(a, v, 5); } \
  API ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { (void)mo; apre(a, sizeof(ty), 1); awrite(); return __atomic_exchange_n(a, v, 5); } \
  API ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { (void)mo; apre(a, sizeof(ty), 1); awrite(); return __atomic_fetch_add(a, v, 5); } \
  API ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { (void)mo; apre(a, sizeof(ty), 1); awrite(); return __atomic_fetch_sub(a, v, 5); } \
  API ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { (void)mo; apre(a, sizeof(ty), 1); awrite(); return __atomic_fetch_and(a, v, 5); } \
  API ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { (void)mo; apre(a, sizeof(ty), 1); awrite(); return __atomic_fetch_or(a, v, 5); } \
  API ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { (void)mo; apre(a, sizeof(ty), 1); awrite(); return __atomic_fetch_xor(a, v, 5); } \
  API ty __tsan_atomic##bits##_fetch_nand(volatile ty *a, ty v, int mo) { (void)mo; apre(a, sizeof(ty), 1); awrite(); return __atomic_fetch_nand(a, v, 5); } \
  API ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { \
    (void)mo; (void)fmo; apre(a, sizeof(ty), 1); \
    if (__atomic_compare_exchange_n(a, &c, v, 0, 5, 5)) awrite(); else acasfail(a, (uint64_t)c); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
API u128 __tsan_atomic128_load(const volatile u128 *a, int mo) { (void)mo; apre(a, 16, 0); return *a; }
API void __tsan_atomic128_store(volatile u128 *a, u128 v, int mo) { (void)mo; apre(a, 16, 1); *a = v; }
API u128 __tsan_atomic128_exchange(volatile u128 *a, u128 v, int mo) { (void)mo; apre(a, 16, 1); u128 o = *a; *a = v; return o; }
API u128 __tsan_atomic128_compare_exchange_val(volatile u128 *a, u128 c, u128 v, int mo, int fmo) {
  (void)mo; (void)fmo; apre(a, 16, 1); u128 o = *a; if (o == c) *a = v; return o; }
API void __tsan_atomic_thread_fence(int mo) { (void)mo; if (SIMMED && active) point(0); __atomic_thread_fence(5); }
API void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---------------------------------------------------------------- futex, yield, sleep, clocks, randomness */
static int64_t abs_deadline(const struct timespec *ts, int op) {
  int64_t ns = (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec;
  if ((op & 127) == FUTEX_WAIT) return (int64_t)mono_ns + ns;
  if (op & FUTEX_CLOCK_REALTIME) return ns - wall_off;
  return ns;
}
static long do_futex(uint32_t *a, int op, uint32_t val, const struct timespec *ts, uint32_t bits) {
  int cmd = op & 127;
  thr_t *me = &T[t_id];
  point(0);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(a, 5) != val) { errno = EAGAIN; return -1; }
    if (!fair && (C.p_spur || C.replay) && CHOOSE(me, K_SPUR, chance(C.p_spur))) { R->stat[ST_SPUR]++; errno = EINTR; return -1; }
    R->stat[ST_FUTEXWAIT]++;
    me->waddr = (uintptr_t)a; me->wbits = cmd == FUTEX_WAIT ? ~0u : bits; me->wret = 0;
    me->deadline = ts ? abs_deadline(ts, op) : -1;
    if (ts && me->deadline < 0) me->deadline = 0;
    me->state = T_FUTEX;
    block();
    me->deadline = -1;
    if (me->wret < 0) { errno = -me->wret; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t m = cmd == FUTEX_WAKE ? ~0u : bits; long woken = 0;
    while (woken < (long)(int)val) {
      int w[MAXT], n = 0;
      for (int d = 1; d <= nthr; d++) { int i = (t_id + d) % nthr; if (T[i].state == T_FUTEX && T[i].waddr == (uintptr_t)a && (T[i].wbits & m)) w[n++] = i; }
      if (!n) break;
      int64_t v = n > 1 ? (fair ? 0 : CHOOSE(me, K_WAKE, (int64_t)rndn(n))) : 0;
      int i = w[v >= 0 && v < n ? v : 0];
      T[i].state = T_RUN; T[i].wret = 0; woken++;
    }
    return woken;
  }
  herr("unsupported futex operation");
}
static void sim_random(void *p, long n) {
  static uint64_t r; /* each run draws its own random bytes, the same ones when it is replayed */
  if (!r) r = C.seed | 1;
  for (long i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)sm(&r);
}
API long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && SIMMED && active) return do_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
  if (n == SYS_futex && active && t_id >= 0 && (((int)b & 127) == FUTEX_WAIT || ((int)b & 127) == FUTEX_WAIT_BITSET) &&
      __atomic_load_n((uint32_t *)a, 5) == (uint32_t)c)
    herr("the harness blocked outside the simulation"); /* no other thread could run meanwhile */
  if (n == SYS_getrandom && SIMMED && active) { sim_random((void *)a, b); return b; }
  return fix(raw6(n, a, b, c, d, e, f));
}
API long getrandom(void *p, size_t n, unsigned fl) {
  if (SIMMED && active) { sim_random(p, (long)n); return (long)n; }
  return fix(raw6(SYS_getrandom, (long)p, (long)n, fl, 0, 0, 0));
}
API int sched_yield(void) {
  if (SIMMED && active) { T[t_id].spinning = 1; point(0); return 0; }
  return (int)fix(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
}
static void sleep_until(int64_t when) {
  thr_t *me = &T[t_id];
  point(0);
  if (when <= (int64_t)mono_ns) return;
  me->deadline = when; me->state = T_SLEEP;
  block();
  me->deadline = -1;
}
API int clock_nanosleep(clockid_t id, int fl, const struct timespec *rq, struct timespec *rm) {
  if (SIMMED && active) {
    int64_t ns = (int64_t)rq->tv_sec * 1000000000 + rq->tv_nsec;
    if (!(fl & TIMER_ABSTIME)) ns += (int64_t)mono_ns;
    else if (id == CLOCK_REALTIME) ns -= wall_off;
    sleep_until(ns);
    return 0;
  }
  return (int)-raw6(SYS_clock_nanosleep, id, fl, (long)rq, (long)rm, 0, 0);
}
API int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (SIMMED && active) { sleep_until((int64_t)mono_ns + (int64_t)rq->tv_sec * 1000000000 + rq->tv_nsec); return 0; }
  return (int)fix(raw6(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0));
}
API int clock_gettime(clockid_t id, struct timespec *ts) {
  if (SIMMED && active) {
    point(0);
    timefaults(&T[t_id], 1);
    R->stat[ST_CLOCKREAD]++;
    int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? (int64_t)mono_ns + wall_off : (int64_t)mono_ns;
    int64_t s = v / 1000000000, r = v % 1000000000;
    if (r < 0) { r += 1000000000; s--; }
    ts->tv_sec = s; ts->tv_nsec = r;
    return 0;
  }
  return (int)fix(raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0));
}
uint64_t sim_real_ns(void) {
  struct timespec ts; raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
  return (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

/* ---------------------------------------------------------------- simulated files */
#define NFILE 8
typedef struct { char path[64]; char data[4096]; int len; uint32_t opens, hard, eintr, shorts; } sfile;
static sfile F[NFILE]; static int nfile;
#define FDBASE 700000
#define NFD 64
static struct { int used, file, pos; } FD[NFD];
void sim_fs_set(const char *path, size_t pl, const char *data, size_t dl) {
  int i; char p[64];
  if (pl > 63 || dl > 4096) herr("sim_fs_set");
  memcpy(p, path, pl); p[pl] = 0;
  for (i = 0; i < nfile; i++) if (!strcmp(F[i].path, p)) break;
  if (i == nfile) { if (nfile == NFILE) herr("too many simulated files"); nfile++; strcpy(F[i].path, p); }
  memcpy(F[i].data, data, dl); F[i].len = (int)dl;
}
/* what: 0 opens, 1 hard failures, 2 interrupted calls, 3 short reads -- since the last reset */
uint32_t sim_fs_count(int i, int what) { sfile *f = &F[i]; return what == 0 ? f->opens : what == 1 ? f->hard : what == 2 ? f->eintr : f->shorts; }
void sim_fs_reset(void) { for (int i = 0; i < nfile; i++) F[i].opens = F[i].hard = F[i].eintr = F[i].shorts = 0; }
int sim_fs_open_fds(void) { int n = 0; for (int i = 0; i < NFD; i++) n += FD[i].used; return n; }

static const int open_errs[] = { EMFILE, ENFILE, ENOENT, EACCES, EIO, ENOMEM, ESRCH, EINTR, EPERM };
static const int read_errs[] = { EIO, ESRCH, EINTR, ENOMEM, EACCES, EISDIR };
static int sim_open(const char *path) {
  thr_t *me = &T[t_id];
  point(0);
  for (int i = 0; i < nfile; i++) if (!strcmp(F[i].path, path)) {
    F[i].opens++;
    int64_t e = fair || nofault ? 0 : CHOOSE(me, K_FS, (chance(C.p_fs) ? open_errs[rndn(sizeof open_errs / sizeof *open_errs)] : 0));
    if (e > 0) {
      hmix(0xF500 + (uint64_t)e);
      if (e == EINTR) { F[i].eintr++; R->stat[ST_EINTR]++; } else { F[i].hard++; R->stat[ST_OPENFAULT]++; }
      errno = (int)e; return -1;
    }
    for (int d = 0; d < NFD; d++) if (!FD[d].used) { FD[d].used = 1; FD[d].file = i; FD[d].pos = 0; return FDBASE + d; }
    herr("too many simulated descriptors");
  }
  errno = ENOENT; return -1;
}
static ssize_t sim_read(int d, void *buf, size_t n) {
  thr_t *me = &T[t_id];
  point(0);
  if (!FD[d].used) { errno = EBADF; return -1; }
  sfile *f = &F[FD[d].file];
  int64_t e = fair || nofault ? 0 : CHOOSE(me, K_READ, (chance(C.p_fs / 2) ? read_errs[rndn(sizeof read_errs / sizeof *read_errs)]
                                    : chance(C.p_short) ? -(int64_t)(1 + rndn(300)) : 0));
  if (e > 0) {
    hmix(0xF600 + (uint64_t)e);
    if (e == EINTR) { f->eintr++; R->stat[ST_EINTR]++; } else { f->hard++; R->stat[ST_READFAULT]++; }
    errno = (int)e; return -1;
  }
  size_t left = (size_t)(f->len - FD[d].pos);
  if (n > left) n = left;
  if (e < 0 && n > (size_t)-e) { n = (size_t)-e; f->shorts++; R->stat[ST_SHORTREAD]++; hmix(0xF700 + n); }
  memcpy(buf, f->data + FD[d].pos, n); FD[d].pos += (int)n;
  return (ssize_t)n;
}
API int open64(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  if (SIMMED && active) return sim_open(p);
  return (int)fix(raw6(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0));
}
API int open(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  if (SIMMED && active) return sim_open(p);
  return (int)fix(raw6(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0));
}
API int openat(int d, const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  if (SIMMED && active) return sim_open(p);
  return (int)fix(raw6(SYS_openat, d, (long)p, fl, m, 0, 0));
}
API ssize_t read(int fd, void *b, size_t n) {
  if (fd >= FDBASE && fd < FDBASE + NFD) return sim_read(fd - FDBASE, b, n);
  return fix(raw6(SYS_read, fd, (long)b, (long)n, 0, 0, 0));
}
API int close(int fd) {
  if (fd >= FDBASE && fd < FDBASE + NFD) { if (SIMMED && active) point(0); FD[fd - FDBASE].used = 0; return 0; }
  return (int)fix(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
}
