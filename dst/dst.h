/* Deterministic schedule testing runtime: serialises every thread of the
 * process and decides, from a seed, where each one is preempted. */
#pragma once
#include <stdint.h>
#include <stddef.h>

typedef struct {
  uint64_t seed;
  int      sync_mean;   /* mean number of synchronisation points between preemptions, 0 = never */
  int      mem_mean;    /* the same for plain memory accesses, 0 = never */
  int      pct_depth;   /* > 0: priority based schedule with this many change points */
  int      pct_len;     /* estimated number of points of a run (pct) */
  int      settle_ms;   /* real time to wait for the kernel before calling a stall */
  int      tso;         /* stores weaker than seq_cst linger in a store buffer, as on x86 */
  uint64_t max_points;  /* livelock bound */
} DstConfig;

void     dst_config_from_seed (DstConfig *c, uint64_t seed);
void     dst_start (const DstConfig *c);
void     dst_stop (void);
int      dst_active (void);
void     dst_point (void);            /* an explicit synchronisation point */
void     dst_quiesce (void);          /* returns once no other thread can run */
void     dst_advance (int64_t usec);  /* virtual time passes */
int64_t  dst_now (void);              /* virtual monotonic time, usec */
int64_t  dst_next_deadline (void);    /* usec at which some thread asleep in poll wakes up by itself, or -1 */
int      dst_thread_id (void);
int      dst_lock_waiters (char *buf, size_t n); /* threads blocked on a lock */
uint64_t dst_switches (void);
uint64_t dst_points (void);
int      dst_threads (void);          /* threads which have not ended */
void     dst_set_nprocs (unsigned n);
/* called (on some controlled thread) when nothing can ever run again */
extern void (*dst_on_stall) (const char *why);

void     dst_log_init (char *shared, size_t n);
void     dst_log (const char *fmt, ...) __attribute__((format(printf, 1, 2)));
