#define _GNU_SOURCE
/* Drives dex_aio_read() and dex_aio_write() on files, pipes and what cannot be
 * read or written, from loops, fibers and plain threads, with faults of the
 * system calls injected, and with requests given up. */
#include "drv.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include "dex-object-private.h"
#include "dex-future-private.h"
#include "dex-scheduler-private.h"
#include "dex-aio-backend-private.h"
#include "dex-thread-storage-private.h"

gboolean drv_fork_first = FALSE;
#define MAXF 8
#define MAXQ 240
#define HUGE_N 1000
typedef struct { int fd, x; char kind; gboolean r, w, a, nb; } Fd;
static Fd fs[MAXF + 1];
static int nf, nx, xfd[MAXF + 1]; /* a descriptor to look at each object with */
static gboolean shut_[MAXF + 1], is_pipe[MAXF + 1];
static int wend[MAXF + 1], waiting;
typedef struct { int f, n, off, id; gboolean read, fiber, wait, done, dropped, busy, huge; guchar *buf; DexFuture *fut; int owner; } Req;
static Req qs[MAXQ + 1];
static int nq, budget, burst, bigf, nl, nstarted, live_on[MAXF + 1];
static void shut (int x);
static gboolean excl[MAXF + 1], uring, over, faults, huge_used, huge_left;
static Looper L[3];
static Rng irng, frng;
static guchar *hugebuf;
static gsize hugen;

void
drv_init (const char *mode)
{
  signal (SIGPIPE, SIG_IGN);
  dex_init ();
  uring = strstr (DEX_OBJECT_TYPE_NAME (dex_aio_backend_get_default ()), "ring") != NULL;
  g_type_class_ref (dex_fiber_get_type ());
  dex_unref (dex_promise_new ());
}

/* A thread pool made when the library was loaded would have its threads in
 * another process, out of control: it is made when first needed. */
static struct { GThreadPool head; GFunc f; gpointer d; GDestroyNotify n; int max; gboolean ex; GThreadPool *real; } later[4];
static int nlater;
#define REAL(n) ({ static __typeof__ (&n) f_; if (!f_) *(void **)&f_ = dlsym (RTLD_NEXT, #n); f_; })
GThreadPool *
g_thread_pool_new_full (GFunc f, gpointer d, GDestroyNotify n, int max, gboolean ex, GError **e)
{
  if (dst_active () || nlater >= (int)G_N_ELEMENTS (later)) return REAL (g_thread_pool_new_full) (f, d, n, max, ex, e);
  later[nlater].f = f; later[nlater].d = d; later[nlater].n = n; later[nlater].max = max; later[nlater].ex = ex;
  return &later[nlater++].head;
}
GThreadPool *g_thread_pool_new (GFunc f, gpointer d, int max, gboolean ex, GError **e) { return g_thread_pool_new_full (f, d, NULL, max, ex, e); }
static GThreadPool *
pool_of (GThreadPool *p)
{
  for (int k = 0; k < nlater; k++)
    if (p == &later[k].head)
      {
        if (!later[k].real) later[k].real = REAL (g_thread_pool_new_full) (later[k].f, later[k].d, later[k].n, later[k].max, later[k].ex, NULL);
        return later[k].real;
      }
  return p;
}
gboolean g_thread_pool_push (GThreadPool *p, gpointer d, GError **e) { return REAL (g_thread_pool_push) (pool_of (p), d, e); }

/* ---------------------------------------------------------------- system calls */
static ssize_t (*r_read) (int, void *, size_t);
static ssize_t (*r_write) (int, const void *, size_t);
static ssize_t (*r_pread) (int, void *, size_t, off_t);
static ssize_t (*r_pwrite) (int, const void *, size_t, off_t);
__attribute__((constructor)) static void
res (void)
{
  *(void **)&r_read = dlsym (RTLD_NEXT, "read"); *(void **)&r_write = dlsym (RTLD_NEXT, "write");
  *(void **)&r_pread = dlsym (RTLD_NEXT, "pread"); *(void **)&r_pwrite = dlsym (RTLD_NEXT, "pwrite");
}
static int of (int fd) { if (!over && !uring && fd >= 0 && dst_active ()) for (int f = 1; f <= nf; f++) if (fs[f].fd == fd) return f; return 0; }
/* what the system does to this call: 0 nothing, 1 refuses it, 2 cuts it short */
static int
fault (int f, char op, size_t n, long off, int v, size_t *m)
{
  static const int errs[] = { EINTR, EIO, EAGAIN, ENOMEM, ENOSPC, EPERM, ETIMEDOUT };
  int e = 0;
  if (n > 100 || !faults || strchr ("Bdu", fs[f].kind)) return 0;
  switch (rng_n (&frng, 8))
    {
    case 0: e = errs[rng_n (&frng, G_N_ELEMENTS (errs))]; break;
    case 1: if (n > 1) { *m = 1 + rng_n (&frng, n - 1); break; }
    default: return 0;
    }
  ev ("{\"e\":\"fault\",\"op\":\"%c\",\"f\":%d,\"n\":%d,\"off\":%ld,\"v\":%d,\"err\":%d,\"m\":%d}", op, f, (int)n, off, v, e, (int)*m);
  errno = e;
  return e ? 1 : 2;
}
ssize_t
read (int fd, void *b, size_t n)
{
  int f = of (fd);
  if (f)
    {
      if (n && fs[f].kind == 'p' && fs[f].r && !fs[f].nb)
        { struct pollfd p = { fd, POLLIN, 0 }; while (poll (&p, 1, -1) < 0) ; }
      if (fault (f, 'r', n, -1, 0, &n) == 1) return -1;
    }
  return r_read (fd, b, n);
}
ssize_t
write (int fd, const void *b, size_t n)
{
  int f = of (fd);
  if (f && fault (f, 'w', n, -1, n ? *(guchar *)b : 0, &n) == 1) return -1;
  return r_write (fd, b, n);
}
static ssize_t
my_pread (int fd, void *b, size_t n, off_t o)
{
  int f = of (fd);
  if (f && fs[f].kind != 'p' && fault (f, 'r', n, o, 0, &n) == 1) return -1;
  return r_pread (fd, b, n, o);
}
static ssize_t
my_pwrite (int fd, const void *b, size_t n, off_t o)
{
  int f = of (fd);
  if (f && fs[f].kind != 'p' && fault (f, 'w', n, o, n ? *(guchar *)b : 0, &n) == 1) return -1;
  return r_pwrite (fd, b, n, o);
}
ssize_t pread (int fd, void *b, size_t n, off_t o) { return my_pread (fd, b, n, o); }
ssize_t pread64 (int fd, void *b, size_t n, off64_t o) { return my_pread (fd, b, n, o); }
ssize_t pwrite (int fd, const void *b, size_t n, off_t o) { return my_pwrite (fd, b, n, o); }
ssize_t pwrite64 (int fd, const void *b, size_t n, off64_t o) { return my_pwrite (fd, b, n, o); }

/* ---------------------------------------------------------------- requests */
static int
errno_of (const GError *e)
{
  for (int k = 1; k < 134; k++)
    if (!strcmp (g_strerror (k), e->message))
      return e->domain == G_IO_ERROR && e->code == (int)g_io_error_from_errno (k) ? k : -2;
  return -3;
}
static void
report (Req *q, gint64 r, GError *e)
{
  char b[600]; int o = 0, got = q->read && r > 0 ? MIN (r, 100) : 0;
  q->done = TRUE;
  if (q->read)
    for (int k = 0; k < got; k++) o += snprintf (b + o, sizeof b - o, "%s%d", k ? "," : "", q->buf[k]);
  b[o] = 0;
  for (int k = q->read ? got : 0; k < (q->huge ? 16 : q->n + 8); k++)
    if (q->buf[k] != (q->read ? 0xee : k < q->n ? q->id : 0xee)) { ev ("{\"e\":\"bad\",\"what\":\"buffer\"}"); break; }
  ev ("{\"e\":\"done\",\"id\":%d,\"t\":%d,\"res\":%d,\"err\":%d,\"got\":[%s]}", q->id, dst_thread_id (), (int)r, e ? errno_of (e) : 0, b);
  live_on[fs[q->f].x]--;
  excl[fs[q->f].x] = FALSE;
  if (q->huge) { huge_used = FALSE; madvise (hugebuf, 4096, MADV_DONTNEED); memset (hugebuf, 0xee, 64); }
}
static void
report_future (Req *q, DexFuture *f)
{
  GError *e = NULL;
  const GValue *v = dex_future_get_value (f, &e);
  if (v && !G_VALUE_HOLDS_INT64 (v)) ev ("{\"e\":\"bad\",\"what\":\"type\"}");
  report (q, v ? g_value_get_int64 (v) : -1, e);
  g_clear_error (&e);
}
static DexFuture *
done_cb (DexFuture *f, gpointer d)
{
  report_future (d, f);
  return NULL;
}
static DexFuture *
submit (Req *q, DexAioContext *c)
{
  gsize n = q->huge ? hugen : q->n;
  return q->read ? dex_aio_read (c, fs[q->f].fd, q->buf, n, q->off) : dex_aio_write (c, fs[q->f].fd, q->buf, n, q->off);
}
static DexFuture *
fiber_func (gpointer d)
{
  Req *q = d;
  GError *e = NULL;
  gint64 r = dex_await_int64 (submit (q, NULL), &e);
  report (q, e ? -1 : r, e);
  g_clear_error (&e);
  return NULL;
}
/* on a looper's thread (k) or the main thread (-1) */
static void
ask (int k, gboolean rd, int f, int off, int n, int how)
{
  if (nq >= MAXQ || f > nf) return;
  if (fs[f].kind == 'u' && !n) n = 1;
  Fd *d = &fs[f];
  if (d->kind == 'p' && off >= 0 && uring) off = -1;
  if (uring && d->kind == 'f')
    {
      if (excl[d->x]) return;
      if (off < 0) { if (live_on[d->x]) off = 1; else excl[d->x] = TRUE; }
    }
  gboolean wait = rd && d->kind == 'p' && d->r && !d->nb && off < 0 && n > 0;
  if (wait && waiting >= 5) return; /* there are eight threads for them */
  waiting += wait;
  Req *q = &qs[++nq];
  *q = (Req) { .id = nq, .f = f, .off = off, .n = n, .read = rd, .wait = wait, .owner = k };
  if (n == HUGE_N)
    {
      if (huge_used || !rd) { q->n = n = 2; }
      else { huge_used = q->huge = TRUE; q->buf = hugebuf; hugen = ((gsize)1 << (31 + rng_n (&irng, 2))) + rng_n (&irng, 3); }
    }
  if (!q->huge) { q->buf = g_malloc (n + 8); memset (q->buf, 0xee, n + 8); if (!rd) memset (q->buf, q->id, n); }
  live_on[d->x]++;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"%c\",\"f\":%d,\"off\":%d,\"n\":%d,\"v\":%d}", q->id, dst_thread_id (), rd ? 'r' : 'w', f, off, n, q->id);
  if (k >= 0 && how == 0)
    {
      q->fiber = TRUE;
      dex_future_disown (dex_scheduler_spawn (L[k].sched, 0, fiber_func, q, NULL));
    }
  else
    {
      DexAioContext *c = k < 0 ? dex_scheduler_get_aio_context (L[rng_n (&irng, nstarted)].sched)
                         : rng_p (&irng, 15) ? dex_scheduler_get_aio_context (L[rng_n (&irng, nstarted)].sched) : NULL;
      DexFuture *x = submit (q, c);
      if (how == 1)
        {
          q->dropped = TRUE;
          ev ("{\"e\":\"drop\",\"id\":%d}", q->id);
          dex_unref (x);
        }
      else q->fut = k >= 0 ? dex_future_finally (x, done_cb, q, NULL) : x;
    }
}
static void
give_up (int k, int id)
{
  Req *q = &qs[id];
  if (q->owner != k || !q->fut || q->done || q->dropped) return;
  q->dropped = TRUE;
  ev ("{\"e\":\"drop\",\"id\":%d}", id);
  dex_clear (&q->fut);
}
static void
act (int k)
{
  if (budget <= 0 || over) return;
  budget--;
  int w = rng_n (&irng, 100);
  if (w < 85)
    ask (k, rng_p (&irng, 50), 1 + rng_n (&irng, nf), rng_p (&irng, 40) ? -1 : rng_n (&irng, 7),
         rng_p (&irng, 5) ? HUGE_N : rng_n (&irng, 5), rng_n (&irng, 5));
  else if (w < 98) { if (nq) give_up (k, 1 + rng_n (&irng, nq)); }
  else if (nx) shut (1 + rng_n (&irng, nx));
}
/* more at once than a ring has places */
static void
flood (int k)
{
  int n = burst;
  burst = 0;
  for (; n > 0; n--)
    ask (k, TRUE, bigf, rng_n (&irng, 101), rng_n (&irng, 5), rng_p (&irng, 5) ? 1 : 2);
}
static int left[3];
static gboolean idle[3];
static gboolean
step (Looper *l)
{
  int k = l - L;
  if (k == 0 && burst > 0) flood (k);
  if (left[k] > 0) { left[k]--; act (k); return G_SOURCE_CONTINUE; }
  idle[k] = TRUE;
  return G_SOURCE_REMOVE;
}
static void
last (Looper *l)
{
  int k = l - L;
  for (int id = 1; id <= nq; id++) if (qs[id].owner == k) { if (!qs[id].done) give_up (k, id); else dex_clear (&qs[id].fut); }
}
static void
data (char *b, gsize n)
{
  int o = 0;
  for (int x = 1; x <= nx; x++)
    {
      guchar d[200]; int m = 0;
      if (!is_pipe[x] && xfd[x] >= 0) m = r_pread (xfd[x], d, sizeof d, 0);
      if (is_pipe[x])
        { /* a copy of what it holds */
          int p[2];
          if (pipe (p)) abort ();
          m = tee (xfd[x], p[1], sizeof d, SPLICE_F_NONBLOCK);
          m = m > 0 ? r_read (p[0], d, sizeof d) : 0;
          close (p[0]); close (p[1]);
        }
      o += snprintf (b + o, n - o, "%s[", x > 1 ? "," : "");
      for (int k = 0; k < m; k++) o += snprintf (b + o, n - o, "%s%d", k ? "," : "", d[k]);
      o += snprintf (b + o, n - o, "]");
    }
}
static void
rest (void)
{
  char b[4000];
  drv_settle ();
  for (int k = 0; uring && k < 4000; k++)
    { /* the kernel takes its time */
      int w = 0, m;
      for (int id = 1; id <= nq; id++) w += !qs[id].done && qs[id].wait;
      for (int x = 1; x <= nx; x++) if (is_pipe[x] && (shut_[x] || !ioctl (xfd[x], FIONREAD, &m) && m > 0)) w = 0;
      for (int id = 1; id <= nq; id++) w += qs[id].fut && (qs[id].done || (qs[id].owner < 0 && dex_future_get_status (qs[id].fut) != DEX_FUTURE_STATUS_PENDING)); /* still ours */
      if (drv_live ("DexUringFuture") <= w && k > 5) break;
      usleep (k < 20 ? 50 : 500);
      drv_settle ();
    }
  for (int id = 1; id <= nq; id++)
    if (qs[id].owner < 0 && qs[id].fut && !qs[id].done && dex_future_get_status (qs[id].fut) != DEX_FUTURE_STATUS_PENDING)
      { report_future (&qs[id], qs[id].fut); dex_clear (&qs[id].fut); }
  data (b, sizeof b);
  ev ("{\"e\":\"quiet\",\"data\":[%s]}", b);
}
static void
shut (int x)
{
  if (x > nx || !is_pipe[x] || shut_[x]) return;
  shut_[x] = TRUE;
  ev ("{\"e\":\"shut\",\"x\":%d}", x);
  for (int f = 1; f <= nf; f++) if (fs[f].x == x && fs[f].w) { fs[f].kind = 'B'; close (fs[f].fd); }
  close (wend[x]);
}
static void
add_fd (int fd, int x, char kind, gboolean r, gboolean w, gboolean a, gboolean nb)
{
  fs[++nf] = (Fd) { fd, x, kind, r, w, a, nb };
}
static int
again (int fd, int flags)
{
  char p[40];
  snprintf (p, sizeof p, "/proc/self/fd/%d", fd);
  return open (p, flags);
}
static void
add_file (guint how)
{
  int fd = memfd_create ("verif", 0), n = how % 6;
  guchar c[] = { 101, 102, 103, 104, 105, 106 };
  if (n) r_pwrite (fd, c, n, 0);
  xfd[++nx] = fd;
  add_fd (again (fd, O_RDWR), nx, 'f', 1, 1, 0, 0);
  if (how & 8) add_fd (again (fd, O_RDWR | O_APPEND), nx, 'f', 1, 1, 1, 0);
  if (how & 16) add_fd (again (fd, O_RDONLY), nx, 'f', 1, 0, 0, 0);
  else if (how & 32) add_fd (again (fd, O_WRONLY), nx, 'f', 0, 1, 0, 0);
}
static void
add_pipe (gboolean lib, gboolean nb)
{
  int p[2];
  if (pipe2 (p, nb ? O_NONBLOCK : 0)) abort ();
  xfd[++nx] = p[0];
  is_pipe[nx] = TRUE;
  wend[nx] = p[1];
  add_fd (p[0], nx, 'p', 1, 0, 0, nb);
  if (lib) add_fd (fcntl (p[1], F_DUPFD, 500 + nf), nx, 'p', 0, 1, 0, nb); /* a number nobody gets again */
}
static const char *
kinds (char k) { return k == 'f' ? "file" : k == 'p' ? "pipe" : k == 'd' ? "dir" : k == 'u' ? "full" : "bad"; }
static void
cfg (void)
{
  char b[2000], c[4000]; int o = 0;
  for (int f = 1; f <= nf; f++)
    o += snprintf (b + o, sizeof b - o, "%s{\"k\":\"%s\",\"x\":%d,\"r\":%s,\"w\":%s,\"a\":%s,\"nb\":%s}", f > 1 ? "," : "", kinds (fs[f].kind), fs[f].x,
                   fs[f].r ? "true" : "false", fs[f].w ? "true" : "false", fs[f].a ? "true" : "false", fs[f].nb ? "true" : "false");
  data (c, sizeof c);
  ev ("{\"e\":\"cfg\",\"uring\":%s,\"fd\":[%s],\"data\":[%s]}", uring ? "true" : "false", b, c);
}

void
drv_run (Run *r)
{
  Rng *g = &r->rng;
  char leak[256];
  irng = *g; rng_next (&irng);
  if (r->script) { r->seed = g_str_hash (r->script); rng_seed (&irng, r->seed); }
  frng = irng; frng.s ^= 0x55aa55aa55; rng_next (&frng);
  hugebuf = mmap (NULL, ((gsize)1 << 32) + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  memset (hugebuf, 0xee, 64);
  nl = r->script ? 1 : 1 + rng_n (g, 2);
  faults = !r->script && rng_p (g, 50);
  if (r->script) { add_file (3 | 8 | 16); add_pipe (TRUE, FALSE); xfd[++nx] = -1; add_fd (-1, nx, 'B', 0, 0, 0, 0); }
  else
    {
      add_file (rng_n (g, 64));
      if (rng_p (g, 30)) add_file (rng_n (g, 16));
      if (rng_p (g, 60)) add_pipe (rng_p (g, 70), rng_p (g, 30) && !uring); /* io_uring waits all the same */
      if (nf < MAXF && rng_p (g, 20)) { xfd[++nx] = -1; add_fd (rng_p (g, 50) ? -1 : 900, nx, 'B', 0, 0, 0, 0); }
      if (nf < MAXF && rng_p (g, 15)) { xfd[++nx] = -1; add_fd (open ("/dev/full", O_WRONLY), nx, 'u', 0, 1, 0, 0); }
    }
  if (!r->script && nf < MAXF && rng_p (g, 4))
    {
      int fd = memfd_create ("big", 0);
      guchar c[100];
      for (int k = 0; k < 100; k++) c[k] = 101 + k;
      r_pwrite (fd, c, sizeof c, 0);
      xfd[++nx] = fd;
      add_fd (again (fd, O_RDONLY), nx, 'f', 1, 0, 0, 0);
      bigf = nf;
      faults = FALSE;
      burst = 30 + rng_n (g, 70);
    }
  DstConfig c;
  dst_config_from_seed (&c, r->seed);
#ifdef HAVE_LIBURING
  c.settle_ms = 1;
#endif
  drv_start_cfg (&c);
  pool_of (&later[0].head);
  drv_live_baseline ();
  cfg ();
  int rounds = r->script ? 1 : 1 + rng_n (g, 3);
  for (int rd = 0; rd < rounds; rd++)
    {
      budget = 3 + rng_n (g, 8);
      for (int k = 0; k < nl; k++)
        {
          left[k] = r->script ? 0 : 1 + rng_n (g, 6);
          idle[k] = FALSE;
          L[k] = (Looper) { .step = step, .last = last };
          looper_start (&L[k]);
          nstarted = k + 1;
        }
      if (r->script)
        for (const char *s = r->script; *s;)
          {
            char o = *s; int a, off, n;
            if (o == ' ') { s++; continue; }
            a = strtol (s + 1, (char **)&s, 10);
            off = *s == '.' ? strtol (s + 1, (char **)&s, 10) : 0; if (off == 9) off = -1;
            n = *s == '.' ? strtol (s + 1, (char **)&s, 10) : 0;
            switch (o)
              {
              case 'r': case 'w': ask (-1, o == 'r', a, off, n, 2); break;
              case 'x': give_up (-1, a); break;
              case 's': rest (); break;
              }
          }
      else
        {
          if (burst > 0 && rng_p (g, 50)) flood (-1);
          for (int n = rng_n (g, 5); n > 0; n--) act (-1);
        }
      gboolean quick = rng_p (g, 40); /* not to wait until all is quiet */
      if (!quick) rest ();
      else /* its programs are over */
        for (int k = 0, spin = 0; k < nl; k++)
          for (; !idle[k]; spin++) if (spin % 500 == 499) dst_quiesce (); else dst_point ();
      if (waiting) /* a loop that goes away takes what is still waiting with it */
        for (int x = 1; x <= nx; x++) shut (x);
      if (!quick) rest ();
      else
        {
          for (int spin = 0; spin < 20000; spin++)
            {
              gboolean w = FALSE;
              for (int k = 0; k < nl; k++) w |= !idle[k];
              for (int id = 1; id <= nq; id++) w |= qs[id].fiber && !qs[id].done;
              if (!w && drv_live (uring ? "DexUringFuture" : "DexPosixAioFuture") == 0) break;
              for (int id = 1; id <= nq; id++) /* nobody else looks at ours */
                if (qs[id].owner < 0 && qs[id].fut && !qs[id].done && dex_future_get_status (qs[id].fut) != DEX_FUTURE_STATUS_PENDING)
                  { report_future (&qs[id], qs[id].fut); dex_clear (&qs[id].fut); }
              dst_point ();
              if (spin % 2000 == 1999) dst_quiesce ();
            }
        }
      nstarted = 0;
      for (int k = 0; k < nl; k++) looper_stop (&L[k]);
    }
  rest ();
  for (int id = 1; id <= nq; id++) give_up (-1, id);
  rest ();
  int n = drv_live_delta (leak, sizeof leak);
  ev ("{\"e\":\"end\",\"leak\":%d,\"types\":\"%s\"}", n, leak);
}
