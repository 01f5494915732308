/* Deterministic simulation runtime: shared declarations (see DESIGN.md). */
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>

enum { K_SCHED, K_BLOCK, K_TIME, K_WALL, K_WAKE, K_SPUR, K_FS, K_HALT, K_ALLOC, K_READ, NKIND };

typedef struct { uint8_t tid, kind; uint16_t op; uint32_t k; int64_t v; } choice_t;

enum {
  ST_STEPS, ST_SWITCH, ST_PREEMPT, ST_TIMEADV, ST_WALLFWD, ST_WALLBACK, ST_FUTEXWAIT, ST_SPUR,
  ST_SPIN, ST_HALT, ST_OPENFAULT, ST_READFAULT, ST_SHORTREAD, ST_EINTR, ST_REUSE, ST_ALLOC, ST_FREE,
  ST_PANIC, ST_CLOCKREAD, ST_FAIR, ST_OPS, ST_INOP_SWITCH, ST_CASFAIL, ST_REARM, ST_USER0, ST_USER1, ST_USER2, ST_USER3,
  ST_USER4, ST_USER5, ST_USER6, ST_USER7, ST_STARVE, ST_UNWIND, NSTAT
};

#define MAXLOG 49152
typedef struct {
  volatile int32_t status;      /* 0 running, 1 ok, 2 violation, 3 harness error */
  int32_t nlog;
  char cls[80];
  char msg[6000];
  uint64_t hash;
  uint64_t simtime;
  uint64_t stat[NSTAT];
  choice_t log[MAXLOG];
} result_t;

#define NTV 8
typedef struct {
  uint64_t seed;
  int32_t replay;
  int32_t policy;               /* 0 random walk, 1 PCT, 2 operation boundaries only, 3 one victim, 4 long stalls */
  uint32_t p_switch;            /* per 65536 */
  int32_t pct_depth;
  uint32_t pct_len;
  int32_t alloc_mode;           /* 0 LIFO reuse with random deviations, 1 quarantine */
  uint32_t p_plain;             /* probability of a scheduling point at a plain heap access */
  uint32_t p_time, p_wall, p_spur, p_fs, p_short;
  int64_t tvals[NTV]; int32_t ntv;
  int64_t wvals[NTV]; int32_t nwv;
  int32_t nhalt; int32_t halt_tid[4], halt_op[4], halt_k[4];
  uint32_t cap1, cap2;
  uint64_t mono0; int64_t wall0; /* ns */
  uint64_t fair_seed;
  int32_t fixed_order;
} config_t;
#endif
