#define _GNU_SOURCE
#include "dst.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <glib.h>

#undef g_mutex_lock
#undef g_mutex_unlock
#undef g_usleep

#define MAXT 128
#define INF INT64_MAX

typedef unsigned __int128 u128;
enum { UNUSED, RUNNABLE, B_MUTEX, B_FUTEX, B_POLL, B_JOIN, B_SLEEP, B_QUIESCE, B_RW, DONE };

typedef struct {
  int        state;
  int        id;
  sem_t      sem;
  void      *addr;       /* futex / mutex / joined thread */
  int64_t    deadline;   /* virtual nsec */
  int        timed_out;
  int        woken;
  struct pollfd *fds; nfds_t nfds;
  int        prio;
  pthread_t  pt;
  void    *(*fn) (void *);
  void      *arg;
  int        dtor_round;
  struct { volatile void *p; int n; u128 v; } sb[8]; int nsb; /* store buffer, oldest first */
} Thr;

static Thr T[MAXT];
static int nT;
static volatile int on;
static __thread Thr *self;
static DstConfig cfg;
static int64_t sync_cd, mem_cd;
static uint64_t points, switches;
static uint64_t rng;
static int64_t vnow;            /* nsec */
static int64_t vbase;
static unsigned nprocs = 2;
static pthread_key_t exit_key;
static uint64_t change_at[16]; static int nchange, low_prio;
void (*dst_on_stall) (const char *why);

static uint64_t rnd (void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static void
put (volatile void *p, int n, u128 v)
{
  switch (n)
    {
    case 1: *(volatile uint8_t *)p = v; break;
    case 2: *(volatile uint16_t *)p = v; break;
    case 4: *(volatile uint32_t *)p = v; break;
    case 8: *(volatile uint64_t *)p = v; break;
    default: *(volatile u128 *)p = v; break;
    }
}
static void
drain (int all)                 /* the oldest buffered store, or all of them, become visible */
{
  if (!self || !self->nsb) return;
  int n = all ? self->nsb : 1;
  for (int i = 0; i < n; i++) put (self->sb[i].p, self->sb[i].n, self->sb[i].v);
  for (int i = n; i < self->nsb; i++) self->sb[i - n] = self->sb[i];
  self->nsb -= n;
}
static int64_t interval (int mean) { return mean <= 0 ? (int64_t)1 << 60 : mean == 1 ? 1 : 1 + (int64_t)(rnd () % (2 * mean - 1)); }

/* ---------------------------------------------------------------- real */
static int   (*r_pthread_create) (pthread_t *, const pthread_attr_t *, void *(*) (void *), void *);
static int   (*r_pthread_join) (pthread_t, void **);
static int   (*r_poll) (struct pollfd *, nfds_t, int);
static int   (*r_clock_gettime) (clockid_t, struct timespec *);
static int   (*r_nanosleep) (const struct timespec *, struct timespec *);
static long  (*r_syscall) (long, ...);
static void  (*r_mutex_lock) (GMutex *);
static void  (*r_mutex_unlock) (GMutex *);
static int   (*r_pm_lock) (pthread_mutex_t *);
static int   (*r_rd) (pthread_rwlock_t *);
static int   (*r_wr) (pthread_rwlock_t *);
static int   (*r_yield) (void);

static void
resolve (void)
{
  if (r_yield) return;
#define R(v, n) do { *(void **)&v = dlsym (RTLD_NEXT, n); } while (0)
  R (r_pthread_create, "pthread_create"); R (r_pthread_join, "pthread_join"); R (r_poll, "poll");
  R (r_clock_gettime, "clock_gettime"); R (r_nanosleep, "nanosleep"); R (r_syscall, "syscall");
  R (r_mutex_lock, "g_mutex_lock"); R (r_mutex_unlock, "g_mutex_unlock");
  R (r_pm_lock, "pthread_mutex_lock"); R (r_rd, "pthread_rwlock_rdlock"); R (r_wr, "pthread_rwlock_wrlock");
  R (r_yield, "sched_yield");
}
__attribute__((constructor (101))) static void init_real (void) { resolve (); }

/* ------------------------------------------------------------ scheduler */
static int
poll_ready (Thr *t)
{
  if (t->nfds == 0) return 0;
  for (nfds_t i = 0; i < t->nfds; i++) t->fds[i].revents = 0;
  return r_poll (t->fds, t->nfds, 0) > 0;
}

static void
stall (const char *why)
{
  on = 0;
  if (dst_on_stall) dst_on_stall (why);
  _exit (77);
}

static Thr *
pick (int include_self)
{
  static int settled;
  for (;;)
    {
      Thr *c[MAXT]; int n = 0;
      for (int i = 0; i < nT; i++)
        {
          Thr *t = &T[i];
          if (t == self && !include_self && t->state == RUNNABLE) continue;
          if (t->state == RUNNABLE) c[n++] = t;
          else if ((t->state == B_POLL || t->state == B_SLEEP || t->state == B_FUTEX) && t->deadline <= vnow) c[n++] = t;
          else if (t->state == B_POLL && poll_ready (t)) c[n++] = t;
          /* GLib may have released it without going through us (g_cond_wait) */
          else if (t->state == B_MUTEX && g_mutex_trylock (t->addr)) { r_mutex_unlock (t->addr); c[n++] = t; }
        }
      if (n)
        {
          if (settled) { settled = 0; for (int i = 0; i < nT; i++) T[i].woken = 0; }
          if (cfg.pct_depth > 0)
            {
              Thr *b = c[0];
              for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i];
              return b;
            }
          return c[rnd () % n];
        }
      if (!include_self && self->state == RUNNABLE) return self;
      /* the kernel may still owe us a completion: wait a little, and let each
       * poller enter the kernel itself once (io_uring task work) */
      if (cfg.settle_ms)
        {
          int polls = 0;
          for (int i = 0; i < nT; i++) polls |= T[i].state == B_POLL;
          for (int i = 0; i < nT; i++)
            if (T[i].state == B_POLL && T[i].woken < settled) { T[i].woken = settled; return &T[i]; }
          if (polls && settled < cfg.settle_ms)
            {
              struct timespec ts = { 0, settled ? 1000000 : 50000 };
              r_nanosleep (&ts, NULL);
              settled++;
              continue;
            }
        }
      for (int i = 0; i < nT; i++) if (T[i].state == B_QUIESCE) return &T[i];
      int64_t dl = INF;
      for (int i = 0; i < nT; i++)
        if ((T[i].state == B_POLL || T[i].state == B_SLEEP || T[i].state == B_FUTEX) && T[i].deadline < dl) dl = T[i].deadline;
      if (dl == INF) stall ("deadlock");
      vnow = dl;
    }
}

static void
hand_to (Thr *t)
{
  if (t == self) return;
  switches++;
  Thr *me = self;
  sem_post (&t->sem);
  while (sem_wait (&me->sem) != 0) ;
}

static void
reschedule (void)              /* the current thread stays runnable */
{
  Thr *t = pick (1);
  if (t != self) hand_to (t);
}

static void
block (int state, void *addr, int64_t deadline)
{
  drain (1);
  self->addr = addr; self->deadline = deadline; self->timed_out = 0;
  self->state = state;
  Thr *t = pick (1);
  if (t != self) hand_to (t);
  if (state != B_POLL && self->state == state && self->deadline <= vnow) self->timed_out = 1;
  self->state = RUNNABLE;
}

static void
slow (int is_sync)
{
  if (cfg.pct_depth > 0)
    {
      int changed = 0;
      while (nchange > 0 && points >= change_at[nchange - 1])
        { nchange--; self->prio = --low_prio; changed = 1; }
      if (!changed && !is_sync) return;
      Thr *t = pick (1);
      if (t != self) hand_to (t);
      return;
    }
  if (is_sync) sync_cd = interval (cfg.sync_mean); else mem_cd = interval (cfg.mem_mean);
  reschedule ();
}

static inline void
point (int is_sync)
{
  if (!on || self == NULL) return;
  points++;
  if (__builtin_expect (self->nsb, 0) && (rnd () & 3) == 0) drain (0);
  if (cfg.max_points && points > cfg.max_points) stall ("livelock");
  if (cfg.pct_depth > 0)
    {
      if (nchange > 0 && points >= change_at[nchange - 1]) slow (is_sync);
      return;
    }
  if (is_sync) { if (--sync_cd <= 0) slow (1); }
  else if (--mem_cd <= 0) slow (0);
}

static void
wake (Thr *t)
{
  t->state = RUNNABLE;
  if (cfg.pct_depth > 0 && t->prio > self->prio) { Thr *n = pick (1); if (n != self) hand_to (n); }
}

void dst_point (void) { point (1); }
int dst_active (void) { return on; }
int64_t dst_now (void) { return (vbase + vnow) / 1000; }
int64_t
dst_next_deadline (void)
{
  int64_t d = INF;
  for (int i = 0; i < nT; i++) if (T[i].state == B_POLL && T[i].deadline < d) d = T[i].deadline;
  return d == INF ? -1 : (vbase + d) / 1000;
}
int dst_thread_id (void) { return self ? self->id : -1; }
uint64_t dst_switches (void) { return switches; }
uint64_t dst_points (void) { return points; }
int dst_threads (void) { int n = 0; for (int i = 0; i < nT; i++) n += T[i].state != UNUSED && T[i].state != DONE; return n; }
void dst_set_nprocs (unsigned n) { nprocs = n; }

void
dst_quiesce (void)
{
  if (!on) return;
  block (B_QUIESCE, NULL, INF);
}

void
dst_advance (int64_t usec)
{
  vnow += usec * 1000;
  point (1);
}

int
dst_lock_waiters (char *buf, size_t n)
{
  int c = 0; size_t o = 0; buf[0] = 0;
  for (int i = 0; i < nT; i++)
    if (T[i].state == B_MUTEX || T[i].state == B_RW)
      { c++; if (o + 8 < n) o += snprintf (buf + o, n - o, "%d ", i); }
  return c;
}

void
dst_config_from_seed (DstConfig *c, uint64_t seed)
{
  uint64_t x = seed * 0x9E3779B97F4A7C15ull + 0x1234567; 
#define N (x ^= x << 13, x ^= x >> 7, x ^= x << 17, x)
  memset (c, 0, sizeof *c);
  c->seed = seed;
  c->max_points = 4000000;
  (void)N; (void)N;
  static const int sm[] = { 1, 1, 2, 3, 4, 6, 10, 20 };
  static const int mm[] = { 0, 0, 0, 3, 8, 20, 60, 200 };
  switch (N % 4)
    {
    case 0: c->pct_depth = 1 + N % 4; c->pct_len = 60 << (N % 7); break;
    default: c->sync_mean = sm[N % 8]; c->mem_mean = mm[N % 8]; break;
    }
}

static void
thread_exit (void *p)
{
  Thr *t = p;
  drain (1);
  if (t->dtor_round++ < 2) { pthread_setspecific (exit_key, t); return; }
  if (!on) return;
  t->state = DONE;
  for (int i = 0; i < nT; i++) if (T[i].state == B_JOIN && T[i].addr == t) T[i].state = RUNNABLE;
  Thr *n = pick (1);
  switches++;
  self = NULL;
  sem_post (&n->sem);
}

static Thr *
new_thr (void)
{
  Thr *t = NULL;
  for (int i = 0; i < nT && !t; i++) if (T[i].state == UNUSED) t = &T[i];
  if (!t) { if (nT == MAXT) { fprintf (stderr, "dst: too many threads\n"); _exit (78); } t = &T[nT]; t->id = nT++; sem_init (&t->sem, 0, 0); }
  t->state = RUNNABLE; t->deadline = INF; t->dtor_round = 0; t->nsb = 0; t->prio = 100 + (int)(rnd () % 1000);
  return t;
}

void
dst_start (const DstConfig *c)
{
  resolve ();
  cfg = *c;
  rng = c->seed * 0x2545F4914F6CDD1Dull + 0x9E3779B97F4A7C15ull; if (!rng) rng = 1;
  for (int i = 0; i < 8; i++) rnd ();
  points = switches = 0; nT = 0; memset (T, 0, sizeof T);
  struct timespec ts; r_clock_gettime (CLOCK_MONOTONIC, &ts);
  vbase = 1000000000000ll; vnow = 0;
  static int keyed; if (!keyed) { pthread_key_create (&exit_key, thread_exit); keyed = 1; }
  sync_cd = interval (cfg.sync_mean); mem_cd = interval (cfg.mem_mean);
  nchange = 0; low_prio = 50;
  if (cfg.pct_depth > 0)
    {
      nchange = cfg.pct_depth > 16 ? 16 : cfg.pct_depth;
      for (int i = 0; i < nchange; i++) change_at[i] = rnd () % (cfg.pct_len ? cfg.pct_len : 1000);
      for (int i = 0; i < nchange; i++) for (int j = i + 1; j < nchange; j++)
        if (change_at[j] > change_at[i]) { uint64_t s = change_at[i]; change_at[i] = change_at[j]; change_at[j] = s; }
    }
  self = new_thr ();
  self->pt = pthread_self ();
  on = 1;
}

void dst_stop (void) { on = 0; }

/* ------------------------------------------------------- interpositions */
static void *
tramp (void *p)
{
  Thr *t = p;
  self = t;
  pthread_setspecific (exit_key, t);
  while (sem_wait (&t->sem) != 0) ;
  return t->fn (t->arg);
}

int
pthread_create (pthread_t *pt, const pthread_attr_t *a, void *(*fn) (void *), void *arg)
{
  resolve ();
  drain (1);
  if (!on || !self) return r_pthread_create (pt, a, fn, arg);
  Thr *t = new_thr ();
  t->fn = fn; t->arg = arg;
  int r = r_pthread_create (&t->pt, a, tramp, t);
  *pt = t->pt;
  if (r != 0) { t->state = UNUSED; return r; }
  if (cfg.pct_depth > 0) { Thr *n = pick (1); if (n != self) hand_to (n); } else point (1);
  return 0;
}

int
pthread_join (pthread_t pt, void **ret)
{
  resolve ();
  if (on && self)
    {
      Thr *t = NULL;
      for (int i = 0; i < nT; i++) if (T[i].state != UNUSED && pthread_equal (T[i].pt, pt) && &T[i] != self) t = &T[i];
      if (t)
        {
          while (t->state != DONE) block (B_JOIN, t, INF);
          int r = r_pthread_join (pt, ret);
          t->state = UNUSED;
          return r;
        }
    }
  return r_pthread_join (pt, ret);
}

int
poll (struct pollfd *fds, nfds_t n, int timeout)
{
  resolve ();
  drain (1);
  if (!on || !self) return r_poll (fds, n, timeout);
  point (1);
  int64_t dl = timeout < 0 ? INF : vnow + (int64_t)timeout * 1000000;
  for (;;)
    {
      int r = r_poll (fds, n, 0);
      if (r != 0 || timeout == 0) return r;
      if (vnow >= dl) return 0;
      self->fds = fds; self->nfds = n;
      block (B_POLL, NULL, dl);
      self->nfds = 0;
    }
}

int
clock_gettime (clockid_t id, struct timespec *ts)
{
  resolve ();
  if (on && self && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME || id == CLOCK_MONOTONIC_COARSE))
    {
      int64_t t = vbase + vnow;
      ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
      return 0;
    }
  return r_clock_gettime (id, ts);
}

int
nanosleep (const struct timespec *req, struct timespec *rem)
{
  resolve ();
  if (!on || !self) return r_nanosleep (req, rem);
  block (B_SLEEP, NULL, vnow + req->tv_sec * 1000000000ll + req->tv_nsec);
  return 0;
}

int
sched_yield (void)
{
  resolve ();
  if (!on || !self) return r_yield ();
  if (cfg.pct_depth > 0) self->prio = --low_prio;
  reschedule ();
  return 0;
}

long
syscall (long nr, ...)
{
  drain (1);
  va_list ap; long a[6];
  va_start (ap, nr);
  for (int i = 0; i < 6; i++) a[i] = va_arg (ap, long);
  va_end (ap);
  resolve ();
  if (on && self && nr == SYS_futex)
    {
      int op = a[1] & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
          if (*(volatile int *)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
          int64_t dl = INF;
          struct timespec *ts = (void *)a[3];
          if (ts)
            {
              int64_t v = ts->tv_sec * 1000000000ll + ts->tv_nsec;
              dl = op == FUTEX_WAIT ? vnow + v : v - vbase;
            }
          block (B_FUTEX, (void *)a[0], dl);
          if (self->timed_out) { errno = ETIMEDOUT; return -1; }
          return 0;
        }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
          int n = 0;
          /* random starting point: the kernel promises no order */
          int s = rnd () % nT;
          Thr *w[MAXT]; 
          for (int k = 0; k < nT && n < (int)a[2]; k++)
            {
              Thr *t = &T[(s + k) % nT];
              if (t->state == B_FUTEX && t->addr == (void *)a[0]) { t->state = RUNNABLE; w[n++] = t; }
            }
          if (n && cfg.pct_depth > 0) wake (w[0]); else if (n) point (1);
          return n;
        }
    }
  return r_syscall (nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

void
g_mutex_lock (GMutex *m)
{
  resolve ();
  drain (1);
  if (!on || !self) { r_mutex_lock (m); return; }
  point (1);
  while (!g_mutex_trylock (m)) block (B_MUTEX, m, INF);
}

void
g_mutex_unlock (GMutex *m)
{
  resolve ();
  drain (1);
  r_mutex_unlock (m);
  if (!on || !self) return;
  for (int i = 0; i < nT; i++)
    if (T[i].state == B_MUTEX && T[i].addr == m) T[i].state = RUNNABLE;
  point (1);
}

int
pthread_mutex_lock (pthread_mutex_t *m)
{
  resolve ();
  drain (1);
  if (!on || !self) return r_pm_lock ? r_pm_lock (m) : 0;
  int r;
  while ((r = pthread_mutex_trylock (m)) == EBUSY)
    { if (cfg.pct_depth > 0) self->prio = --low_prio; reschedule (); points++; if (cfg.max_points && points > cfg.max_points) stall ("livelock"); }
  return r;
}

int
pthread_rwlock_rdlock (pthread_rwlock_t *m)
{
  resolve ();
  drain (1);
  if (!on || !self) return r_rd (m);
  point (1);
  int r;
  while ((r = pthread_rwlock_tryrdlock (m)) == EBUSY)
    { if (cfg.pct_depth > 0) self->prio = --low_prio; reschedule (); points++; if (cfg.max_points && points > cfg.max_points) stall ("livelock"); }
  return r;
}

int
pthread_rwlock_wrlock (pthread_rwlock_t *m)
{
  resolve ();
  drain (1);
  if (!on || !self) return r_wr (m);
  point (1);
  int r;
  while ((r = pthread_rwlock_trywrlock (m)) == EBUSY)
    { if (cfg.pct_depth > 0) self->prio = --low_prio; reschedule (); points++; if (cfg.max_points && points > cfg.max_points) stall ("livelock"); }
  return r;
}

guint
g_get_num_processors (void)
{
  return nprocs;
}

/* ------------------------------------------------------------ event log */
static char *lbuf; static size_t lcap, *llen;
void
dst_log_init (char *shared, size_t n)
{
  llen = (size_t *)shared; *llen = 0; lbuf = shared + sizeof (size_t); lcap = n - sizeof (size_t);
}
void
dst_log (const char *fmt, ...)
{
  va_list ap;
  size_t o = *llen;
  if (o + 2 >= lcap) return;
  va_start (ap, fmt);
  int n = vsnprintf (lbuf + o, lcap - o - 2, fmt, ap);
  va_end (ap);
  if (n < 0 || o + n + 2 >= lcap) return;
  lbuf[o + n] = '\n';
  *llen = o + n + 1;
}

/* ---------------------------------------------- the instrumentation ABI */
#define A __attribute__((used)) 
A void __tsan_init (void) {}
A void __tsan_func_entry (void *p) { (void)p; }
A void __tsan_func_exit (void) {}
#define RW(n) A void n (void *p) { (void)p; point (0); }
RW (__tsan_read1) RW (__tsan_read2) RW (__tsan_read4) RW (__tsan_read8) RW (__tsan_read16)
RW (__tsan_write1) RW (__tsan_write2) RW (__tsan_write4) RW (__tsan_write8) RW (__tsan_write16)
RW (__tsan_unaligned_read2) RW (__tsan_unaligned_read4) RW (__tsan_unaligned_read8) RW (__tsan_unaligned_read16)
RW (__tsan_unaligned_write2) RW (__tsan_unaligned_write4) RW (__tsan_unaligned_write8) RW (__tsan_unaligned_write16)
RW (__tsan_volatile_read1) RW (__tsan_volatile_read2) RW (__tsan_volatile_read4) RW (__tsan_volatile_read8)
RW (__tsan_volatile_write1) RW (__tsan_volatile_write2) RW (__tsan_volatile_write4) RW (__tsan_volatile_write8)
RW (__tsan_vptr_update) RW (__tsan_vptr_read)
A void __tsan_read_range (void *p, unsigned long n) { (void)p; (void)n; point (0); }
A void __tsan_write_range (void *p, unsigned long n) { (void)p; (void)n; point (0); }
/* clang only */
RW (__tsan_read_write1) RW (__tsan_read_write2) RW (__tsan_read_write4) RW (__tsan_read_write8)
A void *__tsan_memcpy (void *d, const void *s, size_t n) { point (0); return memcpy (d, s, n); }
A void *__tsan_memmove (void *d, const void *s, size_t n) { point (0); return memmove (d, s, n); }
A void *__tsan_memset (void *d, int c, size_t n) { point (0); return memset (d, c, n); }

static u128
sb_load (const volatile void *p, int n, u128 v)
{
  for (int i = self->nsb - 1; i >= 0; i--)
    if (self->sb[i].p == p && self->sb[i].n == n) return self->sb[i].v;
  return v;
}
/* true if the store was buffered */
static int
sb_store (volatile void *p, int n, u128 v, int mo)
{
  if (!on || !self || !cfg.tso || mo == __ATOMIC_SEQ_CST) { drain (1); return 0; }
  if (self->nsb == 8) drain (0);
  self->sb[self->nsb].p = p; self->sb[self->nsb].n = n; self->sb[self->nsb].v = v; self->nsb++;
  return 1;
}
#define RMW do { (void)mo; point (1); drain (1); } while (0)
#define AT(bits, ty) \
A ty __tsan_atomic##bits##_load (const volatile ty *p, int mo) { (void)mo; point (1); if (self && self->nsb) return (ty)sb_load (p, bits / 8, *p); return __atomic_load_n (p, __ATOMIC_SEQ_CST); } \
A void __tsan_atomic##bits##_store (volatile ty *p, ty v, int mo) { point (1); if (!sb_store (p, bits / 8, v, mo)) __atomic_store_n (p, v, __ATOMIC_SEQ_CST); } \
A ty __tsan_atomic##bits##_exchange (volatile ty *p, ty v, int mo) { RMW; return __atomic_exchange_n (p, v, __ATOMIC_SEQ_CST); } \
A ty __tsan_atomic##bits##_fetch_add (volatile ty *p, ty v, int mo) { RMW; return __atomic_fetch_add (p, v, __ATOMIC_SEQ_CST); } \
A ty __tsan_atomic##bits##_fetch_sub (volatile ty *p, ty v, int mo) { RMW; return __atomic_fetch_sub (p, v, __ATOMIC_SEQ_CST); } \
A ty __tsan_atomic##bits##_fetch_and (volatile ty *p, ty v, int mo) { RMW; return __atomic_fetch_and (p, v, __ATOMIC_SEQ_CST); } \
A ty __tsan_atomic##bits##_fetch_or (volatile ty *p, ty v, int mo) { RMW; return __atomic_fetch_or (p, v, __ATOMIC_SEQ_CST); } \
A ty __tsan_atomic##bits##_fetch_xor (volatile ty *p, ty v, int mo) { RMW; return __atomic_fetch_xor (p, v, __ATOMIC_SEQ_CST); } \
A ty __tsan_atomic##bits##_fetch_nand (volatile ty *p, ty v, int mo) { RMW; return __atomic_fetch_nand (p, v, __ATOMIC_SEQ_CST); } \
A int __tsan_atomic##bits##_compare_exchange_strong (volatile ty *p, ty *e, ty v, int mo, int f) { (void)f; RMW; return __atomic_compare_exchange_n (p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
A int __tsan_atomic##bits##_compare_exchange_weak (volatile ty *p, ty *e, ty v, int mo, int f) { (void)f; RMW; return __atomic_compare_exchange_n (p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
A ty __tsan_atomic##bits##_compare_exchange_val (volatile ty *p, ty e, ty v, int mo, int f) { (void)f; RMW; __atomic_compare_exchange_n (p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT (8, uint8_t) AT (16, uint16_t) AT (32, uint32_t) AT (64, uint64_t)
A void __tsan_atomic_thread_fence (int mo) { point (1); if (mo == __ATOMIC_SEQ_CST) drain (1); }
A void __tsan_atomic_signal_fence (int mo) { (void)mo; }
/* one thread runs at a time: plain copies are atomic here */
A u128 __tsan_atomic128_load (const volatile u128 *p, int mo) { (void)mo; point (1); if (self && self->nsb) return sb_load (p, 16, *p); return *p; }
A void __tsan_atomic128_store (volatile u128 *p, u128 v, int mo) { point (1); if (!sb_store (p, 16, v, mo)) *p = v; }
A u128 __tsan_atomic128_exchange (volatile u128 *p, u128 v, int mo) { RMW; u128 o = *p; *p = v; return o; }
A int __tsan_atomic128_compare_exchange_strong (volatile u128 *p, u128 *e, u128 v, int mo, int f) { (void)f; RMW; if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }
A int __tsan_atomic128_compare_exchange_weak (volatile u128 *p, u128 *e, u128 v, int mo, int f) { return __tsan_atomic128_compare_exchange_strong (p, e, v, mo, f); }
A u128 __tsan_atomic128_compare_exchange_val (volatile u128 *p, u128 e, u128 v, int mo, int f) { __tsan_atomic128_compare_exchange_strong (p, &e, v, mo, f); return e; }

/* calls into GLib: the arguments have been read, the call has not been made (the library's calls are renamed, see lib/build.py) */
typedef unsigned long UL;
#define W(n) extern UL glib_##n (UL, UL, UL, UL, UL, UL) __asm__ (#n); \
  A UL dst_##n (UL a, UL b, UL c, UL d, UL e, UL f) { point (0); return glib_##n (a, b, c, d, e, f); }
#include "wraps.h"
