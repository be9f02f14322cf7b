/* Shared by all drivers: run loop (one forked process per run), the event log,
 * live instance accounting, random numbers. */
#pragma once
#include "config.h"
#include <libdex.h>
#include <glib.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include "dst.h"

typedef struct { guint64 s; } Rng;
static inline guint64 rng_next (Rng *r) { r->s ^= r->s << 13; r->s ^= r->s >> 7; r->s ^= r->s << 17; return r->s; }
static inline void rng_seed (Rng *r, guint64 seed) { r->s = seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; if (!r->s) r->s = 1; for (int i = 0; i < 6; i++) rng_next (r); }
static inline int rng_n (Rng *r, int n) { return n <= 0 ? 0 : (int)((rng_next (r) >> 17) % (guint64)n); }
static inline int rng_p (Rng *r, int pct) { return rng_n (r, 100) < pct; }

typedef struct {
  int          argc;
  char       **argv;
  const char  *mode;     /* --mode */
  guint64      seed;     /* of this run */
  const char  *script;   /* one line of the script file, or NULL */
  Rng          rng;
} Run;

/* provided by each driver */
void drv_init (const char *mode);   /* once, before any run */
void drv_run (Run *r);              /* one run, in its own process */
extern gboolean drv_fork_first;     /* TRUE: dex must not be touched before the fork */

extern gboolean drv_tso, drv_is_tso;         /* half of the runs with store buffers */
#define ev dst_log
void      drv_start (Run *r);             /* schedule control begins here */
void      drv_start_cfg (const DstConfig *c);
gint64    drv_live (const char *type);  /* live instances of that type */
void      drv_live_baseline (void);
extern void (*drv_on_free) (gpointer); /* a type instance is being freed */
gint64    drv_live_delta (char *buf, gsize n);
const char *drv_err (const GError *e);    /* "domain:code" in short */
/* the outcome of a future as a JSON string body: P, ok text, err text */
void      drv_outcome (DexFuture *f, char *buf, gsize n);
void      drv_value (const GValue *v, char *buf, gsize n);
/* memory whose release is counted (an allocation handed over to the library) */
void      drv_track (void *p, int id);
void      drv_track_report (int *never, int *twice);
void      drv_settle (void);              /* run the main context and everything else to quiescence */

/* a thread with a main context and a main scheduler of its own, which runs a
 * program step by step from within its loop and then keeps iterating */
typedef struct _Looper Looper;
struct _Looper {
  GThread *thread; GMainContext *ctx; GMainLoop *loop; DexScheduler *sched;
  int tid;                         /* dst_thread_id () */
  gboolean (*step) (Looper *);     /* FALSE: program finished */
  void (*last) (Looper *);         /* on the thread, before its scheduler goes away */
  gpointer data;
  GMutex mutex; GCond cond; gboolean ready;
};
void      looper_start (Looper *l);
void      looper_stop (Looper *l);
