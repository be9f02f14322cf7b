/* Drives fibers: several loops with main schedulers (and sometimes the thread
 * pool), fibers spawned from outside and from each other, awaiting promises,
 * each other, or nothing; results completed from any thread; in mode "cancel"
 * the dependents of fibers are dropped at any time. */
#include "drv.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <alloca.h>

gboolean drv_fork_first = FALSE;
static gboolean m_cancel, m_stack;

/* the memory that the library maps itself: the stacks of fibers */
#define MAXM 512
static struct { char *base; gsize len; int id; } maps[MAXM];
static int nmaps, mapids, maps0;
extern char __executable_start[], etext[];
static gboolean
from_dex (void *ra)
{
  return (char *)ra >= __executable_start && (char *)ra < etext;
}
void *
mmap (void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
  char *p = (char *)syscall (SYS_mmap, addr, len, prot, flags, fd, off);
  if (p != MAP_FAILED && from_dex (__builtin_return_address (0)) && fd == -1 && nmaps < MAXM)
    { maps[nmaps].base = p; maps[nmaps].len = len; maps[nmaps++].id = ++mapids; }
  return p;
}
int
munmap (void *addr, size_t len)
{
  char *p = addr;
  for (int k = 0; k < nmaps; k++)
    if (p <= maps[k].base && p + len >= maps[k].base + maps[k].len) maps[k--] = maps[--nmaps];
    else if (p == maps[k].base) { maps[k].base += len; maps[k].len -= len; }
    else if (p > maps[k].base && p < maps[k].base + maps[k].len) maps[k].len = p - maps[k].base;
  return syscall (SYS_munmap, addr, len);
}
static gboolean
readable (const char *p)
{
  static int fd[2];
  char c;
  if (fd[1] == 0) g_assert (pipe (fd) == 0);
  if (syscall (SYS_write, fd[1], p, 1) != 1) return FALSE;
  return syscall (SYS_read, fd[0], &c, 1) == 1;
}
/* the stack we are on: which, how much of it there is below, is there a guard */
static int
which_stack (int *room, int *guard)
{
  char c[1], *p = (char *)__builtin_frame_address (0);
  *room = 1 << 30; *guard = 1; c[0] = 0;
  for (int k = 0; k < nmaps; k++)
    if (p > maps[k].base && p < maps[k].base + maps[k].len)
      {
        char *lo = maps[k].base;
        *guard = !readable (lo);
        while (!readable (lo) && lo < p) lo += 4096;
        *room = p - lo + 2048;
        return maps[k].id;
      }
  return 0;
}

void drv_init (const char *mode) { m_stack = !strcmp (mode, "stack"); dex_init (); g_type_class_ref (dex_fiber_get_type ()); m_cancel = !strcmp (mode, "cancel"); }

#define MAXF 128
typedef struct {
  int id, kind;                 /* 'p' or 'f' */
  DexFuture *f;                 /* known to everybody once set */
  gboolean claimed;
  DexFuture *deps[3]; int ndeps;
  int k, depth, pingpong, other, crowd;
  gsize size; volatile guint64 *deep; int ndeep;
  Rng g;
  GQueue cmds; gboolean fed;    /* scripts */
} F;
static F all[MAXF];
static int nids, nfib, nl, budget, nitems;
static Looper L[4];
static DexScheduler *pool;
static GMutex cm; static GCond cc;
static gboolean scripted, over;

static int
new_promise (void)
{
  if (nids + 1 >= MAXF) return 0;
  int id = ++nids;
  all[id].id = id; all[id].kind = 'p';
  DexFuture *p = DEX_FUTURE (dex_promise_new ());
  ev ("{\"e\":\"fut\",\"id\":%d}", id);
  all[id].f = p;
  return id;
}

static void
complete (int id, int how)
{
  F *p = &all[id];
  if (p->claimed || p->kind != 'p' || !p->f) return;
  p->claimed = TRUE;
  ev ("{\"e\":\"complete\",\"id\":%d,\"t\":%d,\"o\":\"%s%d\"}", id, dst_thread_id (), how ? "E:x" : "i", id);
  if (how) { char m[16]; snprintf (m, sizeof m, "x%d", id); dex_promise_reject (DEX_PROMISE (p->f), g_error_new_literal (G_IO_ERROR, 77, m)); }
  else dex_promise_resolve_int (DEX_PROMISE (p->f), id);
  ev ("{\"e\":\"completed\",\"id\":%d,\"t\":%d}", id, dst_thread_id ());
}

static void
err_str (const GError *e, char *b, gsize n)
{
  if (e == NULL) snprintf (b, n, "E:none");
  else if (e->domain == G_IO_ERROR && e->code == 77) snprintf (b, n, "E:%s", e->message);
  else snprintf (b, n, "E:%s", drv_err (e));
}

static void
outcome (DexFuture *f, char *b, gsize n)
{
  GError *e = NULL;
  drv_outcome (f, b, n);
  if (dex_future_get_status (f) == DEX_FUTURE_STATUS_REJECTED)
    { dex_future_get_value (f, &e); err_str (e, b, n); g_clear_error (&e); }
}

typedef struct { int id, k; } Item;
static void
item_func (gpointer d)
{
  Item *it = d;
  ev ("{\"e\":\"item\",\"id\":%d,\"t\":%d}", it->id, dst_thread_id ());
  g_free (it);
}
static void
push_item (int k)
{
  Item *it = g_new0 (Item, 1);
  int id = it->id = ++nitems;
  ev ("{\"e\":\"push\",\"id\":%d,\"k\":%d}", id, k + 1);
  dex_scheduler_push (L[k].sched, item_func, it);
  ev ("{\"e\":\"pushed\",\"id\":%d}", id);
}

static void
drop (int id)
{
  F *f = &all[id];
  if (f->ndeps == 0) return;
  DexFuture *d = f->deps[--f->ndeps];
  ev ("{\"e\":\"drop\",\"id\":%d,\"t\":%d}", id, dst_thread_id ());
  dex_unref (d);
  ev ("{\"e\":\"dropped\",\"id\":%d,\"t\":%d}", id, dst_thread_id ());
}

static void
dep (int id)
{
  F *f = &all[id];
  DexFuture *d;
  if (f->ndeps == 3 || !f->f) return;
  ev ("{\"e\":\"dep\",\"id\":%d,\"t\":%d}", id, dst_thread_id ());
  d = dex_future_all (dex_ref (f->f), NULL);
  ev ("{\"e\":\"depd\",\"id\":%d,\"t\":%d}", id, dst_thread_id ());
  f->deps[f->ndeps++] = d;
}

static DexFuture *fiber_func (gpointer d);
static void
fiber_destroy (gpointer d)
{
  F *f = d;
  ev ("{\"e\":\"destroy\",\"id\":%d,\"t\":%d}", f->id, dst_thread_id ());
}

static const gsize sizes[] = { 0, 0, 0, 65536, 131072, 1 << 20, 65537, 4096, 90000, 131073, 200704, 69632, 131000, 20480 };
static int next_size = -1;
static int
spawn (int k, int depth, Rng *g, int ndeps)
{
  int z = rng_n (g, m_stack ? 14 : 6);
  if (next_size >= 0) z = next_size;
  if (nids + 1 >= MAXF || nfib >= (m_stack ? 50 : 12)) return 0;
  int id = ++nids;
  F *f = &all[id];
  nfib++;
  f->size = sizes[z];
  f->id = id; f->kind = 'f'; f->k = k; f->depth = depth; f->g = *g; rng_next (g); rng_next (&f->g); rng_next (&f->g);
  ev ("{\"e\":\"spawn\",\"id\":%d,\"t\":%d,\"k\":%d}", id, dst_thread_id (), k + 1);
  DexFuture *fut = dex_scheduler_spawn (k < 0 ? pool : L[k].sched, f->size, fiber_func, f, fiber_destroy);
  ev ("{\"e\":\"spawned\",\"id\":%d,\"t\":%d}", id, dst_thread_id ());
  f->f = fut;
  for (int j = 0; j < ndeps; j++) dep (id);
  return id;
}

static void
check_deep (F *f)
{
  for (int k = 0; k < f->ndeep; k++)
    if (f->deep[k * 64] != (guint64)f->id * 0x1000193 + k) { ev ("{\"e\":\"corrupt\"}"); return; }
}

static int
await (F *f, int x)
{
  GError *e = NULL;
  char b[96], want[16];
  volatile guint64 canary[8];
  check_deep (f);
  for (int j = 0; j < 8; j++) canary[j] = (guint64)f->id * 0x10001 + j;
  ev ("{\"e\":\"await\",\"id\":%d,\"x\":%d,\"t\":%d}", f->id, x, dst_thread_id ());
  int v = dex_await_int (dex_ref (all[x].f), &e);
  for (int j = 0; j < 8; j++) if (canary[j] != (guint64)f->id * 0x10001 + j) ev ("{\"e\":\"corrupt\"}");
  check_deep (f);
  if (e) { err_str (e, b, sizeof b); if (v != 0) strcpy (b, "VALUE-AND-ERROR"); } else snprintf (b, sizeof b, "i%d", v);
  g_clear_error (&e);
  ev ("{\"e\":\"awaited\",\"id\":%d,\"t\":%d,\"o\":\"%s\"}", f->id, dst_thread_id (), b);
  (void)want;
  return 0;
}

static int
pick (Rng *g, int above)        /* a future to await: a promise, or a fiber spawned after `above` */
{
  for (int n = 0; n < 8; n++)
    {
      int x = 1 + rng_n (g, nids);
      if (all[x].f && (all[x].kind == 'p' || x > above)) return x;
    }
  return 0;
}

static DexFuture *
ret (F *f, int x, int how)
{
  DexFuture *r = NULL;
  if (x > 0)
    {
      ev ("{\"e\":\"return\",\"id\":%d,\"t\":%d,\"x\":%d,\"o\":\"\"}", f->id, dst_thread_id (), x);
      return dex_ref (all[x].f);
    }
  char o[24];
  snprintf (o, sizeof o, how == 0 ? "E:FIBER_EXITED" : how == 1 ? "E:x%d" : "i%d", f->id);
  ev ("{\"e\":\"return\",\"id\":%d,\"t\":%d,\"x\":0,\"o\":\"%s\"}", f->id, dst_thread_id (), o);
  if (how == 1) { char m[16]; snprintf (m, sizeof m, "x%d", f->id); r = dex_future_new_for_error (g_error_new_literal (G_IO_ERROR, 77, m)); }
  if (how == 2) r = dex_future_new_for_int (f->id);
  return r;
}

static DexFuture *
script_fiber (F *f)
{
  for (;;)
    {
      char *c;
      g_mutex_lock (&cm);
      while (!(c = g_queue_pop_head (&f->cmds))) g_cond_wait (&cc, &cm);
      g_mutex_unlock (&cm);
      int x = atoi (c + 1);
      if (*c == 'a') await (f, x);
      else if (*c == 'r') return ret (f, x, 0);
      else if (*c == 'R') return ret (f, 0, x);
    }
}

static DexFuture *
fiber_body (F *f)
{
  Rng *g = &f->g;
  if (scripted) return script_fiber (f);
  if (f->pingpong)
    for (int i = 0; i < 14; i++)
      {
        /* promises pingpong .. pingpong + 27 */
        int mine = f->pingpong + 2 * i + (f->other ? 1 : 0), his = f->pingpong + 2 * i + (f->other ? 0 : 1);
        if (f->other) { await (f, his); complete (mine, 0); }
        else { if (i == 3) push_item (f->k); complete (mine, 0); await (f, his); }
      }
  if (f->crowd) await (f, f->crowd);
  for (int n = 1 + rng_n (g, 4); n > 0 && !f->pingpong && !f->crowd; n--)
    {
      int x;
      switch (rng_n (g, 8))
        {
        case 0: case 1: case 2: if ((x = pick (g, f->id))) await (f, x); break;
        case 3: if ((x = pick (g, f->id))) complete (x, rng_p (g, 30)); break;
        case 4: if (f->depth > 0 && (x = spawn (rng_p (g, 50) && f->k >= 0 ? f->k : rng_n (g, nl), f->depth - 1, g, m_cancel ? rng_n (g, 2) : 0)) && rng_p (g, 60)) await (f, x); break;
        case 5: push_item (rng_n (g, nl)); break;
        case 6: for (x = rng_n (g, 6); x > 0; x--) dst_point (); break;
        case 7: if (m_cancel) drop (1 + rng_n (g, nids)); else if (rng_p (g, 50) && (x = new_promise ())) { if (rng_p (g, 30)) complete (x, 0); await (f, x); } break;
        }
    }
  int x = 0;
  if (rng_p (g, 40)) x = pick (g, f->id);
  return ret (f, x, rng_n (g, 3));
}

static DexFuture *
fiber_func (gpointer d)
{
  F *f = d;
  int room, guard, stk = which_stack (&room, &guard);
  ev ("{\"e\":\"start\",\"id\":%d,\"t\":%d,\"stk\":%d,\"want\":%d,\"room\":%d,\"guard\":%d}", f->id, dst_thread_id (), stk, f->size ? (int)f->size : 65536, room, guard);
  DexFuture *r;
  gsize use = f->size ? f->size : 65536;
  if ((m_stack || scripted) && use > 40960 && (f->id + f->g.s) % 3)
    {
      /* most of it is in use */
      use -= 32768;
      f->deep = alloca (use);
      f->ndeep = use / 512;
      for (int k = 0; k < f->ndeep; k++) f->deep[k * 64] = (guint64)f->id * 0x1000193 + k;
      r = fiber_body (f);
      check_deep (f);
      f->ndeep = 0;
      return r;
    }
  return fiber_body (f);
}

typedef struct { int n, spin; Rng g; } Job;
static void
one (Rng *g)
{
  int x;
  if (nids == 0) return;
  switch (rng_n (g, m_cancel ? 6 : 4))
    {
    case 0: case 1: if ((x = pick (g, 0))) complete (x, rng_p (g, 30)); break;
    case 2: push_item (rng_n (g, nl)); break;
    case 3: spawn (pool && rng_p (g, 40) ? -1 : rng_n (g, nl), 1, g, m_cancel ? rng_n (g, 3) : 0); break;
    default: drop (1 + rng_n (g, nids)); break;
    }
}
static gboolean
step (Looper *l)
{
  Job *j = l->data;
  if (j->n <= 0) return FALSE;
  j->n--;
  one (&j->g);
  if (rng_p (&j->g, 15))        /* not on a fiber */
    {
      int x = pick (&j->g, 0);
      GError *e = NULL;
      char b[96];
      if (x)
        {
          ev ("{\"e\":\"nofiber\",\"x\":%d,\"t\":%d}", x, dst_thread_id ());
          int v = dex_await_int (dex_ref (all[x].f), &e);
          if (e) err_str (e, b, sizeof b); else snprintf (b, sizeof b, "i%d", v);
          g_clear_error (&e);
          ev ("{\"e\":\"nofibered\",\"x\":%d,\"t\":%d,\"o\":\"%s\"}", x, dst_thread_id (), b);
        }
    }
  return j->n > 0;
}
static gpointer
worker (gpointer d)
{
  Job *j = d;
  while (j->n-- > 0)
    {
      one (&j->g);
      for (int s = 0; s < j->spin; s++) dst_point ();
    }
  return NULL;
}

static void
quiet (void)
{
  GString *s = g_string_new (NULL);
  drv_settle ();
  for (int k = 1; k <= nids; k++)
    {
      char b[96];
      outcome (all[k].f, b, sizeof b);
      g_string_append_printf (s, "%s\"%s\"", k > 1 ? "," : "", b);
    }
  /* in a script the fibers may be waiting for an order */
  ev ("{\"e\":\"%s\",\"stacks\":%d,\"o\":[%s]}", scripted && !over ? "still" : "quiet", nmaps - maps0, s->str);
}

static void
finish (void)
{
  char leak[256];
  for (int k = 1; k <= nids; k++)
    { while (all[k].ndeps) drop (k); dex_clear (&all[k].f); }
  for (int k = 0; k < nl; k++) looper_stop (&L[k]);
  drv_settle ();
  int n = (int)drv_live_delta (leak, sizeof leak);
  ev ("{\"e\":\"end\",\"leak\":%d,\"types\":\"%s\",\"stacks\":%d}", n, leak, pool ? 0 : nmaps - maps0);
}

static void
feed (int id, const char *c)
{
  g_mutex_lock (&cm);
  g_queue_push_tail (&all[id].cmds, g_strdup (c));
  g_cond_broadcast (&cc);
  g_mutex_unlock (&cm);
}

/* loops;ops   p new promise, f<k> new fiber on loop k, d<id> dependent, u<id> drop,
 * c<id> resolve, C<id> reject, a<id>.<x> fiber awaits, r<id>.<x> fiber returns a
 * future, R<id>.<how> fiber returns an outcome, s<k>.<z> new fiber with a stack of size z */
static void
run_script (Run *r)
{
  const char *s = r->script;
  char b[16];
  r->seed = g_str_hash (s);
  scripted = TRUE;
  nl = atoi (s);
  drv_start (r);
  for (int k = 0; k < nl; k++) looper_start (&L[k]);
  ev ("{\"e\":\"cfg\",\"loops\":[%d,%d,%d,%d]}", L[0].tid, nl > 1 ? L[1].tid : -1, nl > 2 ? L[2].tid : -2, -3);
  for (s = strchr (s, ';') + 1; *s; )
    {
      char op = *s++;
      int x = strtol (s, (char **)&s, 10), y = 0;
      if (*s == '.') y = strtol (s + 1, (char **)&s, 10);
      while (*s == ' ') s++;
      switch (op)
        {
        case 'p': new_promise (); break;
        case 'f': spawn (x - 1, 0, &r->rng, 0); break;
        case 's': next_size = y; spawn (x - 1, 0, &r->rng, 0); next_size = -1; break;
        case 'd': dep (x); break;
        case 'u': drop (x); break;
        case 'c': complete (x, 0); break;
        case 'C': complete (x, 1); break;
        default: snprintf (b, sizeof b, "%c%d", op, y); feed (x, b); break;
        }
      quiet ();
    }
  /* let everybody finish */
  for (int k = 1; k <= nids; k++) if (all[k].kind == 'f') feed (k, "R2");
  for (int k = 1; k <= nids; k++) complete (k, 0);
  over = TRUE;
  quiet ();
  finish ();
}

void
drv_run (Run *r)
{
  Rng *g = &r->rng;
  static Job j[4], pj[3];
  GThread *th[3];
  int np = rng_n (g, 3);
  drv_live_baseline ();
  maps0 = nmaps;
  if (r->script) { run_script (r); return; }
  nl = 1 + rng_n (g, 2);
  for (int k = 0; k < nl; k++) { j[k] = (Job) { rng_n (g, 5), 0, *g }; rng_next (&j[k].g); rng_next (g); }
  for (int k = 0; k < 3; k++) { pj[k] = (Job) { rng_n (g, 7), rng_n (g, 5), *g }; rng_next (&pj[k].g); rng_next (g); }
  dst_set_nprocs (4);
  drv_start (r);
  if (rng_p (g, 25)) { pool = dex_thread_pool_scheduler_new (); drv_settle (); drv_live_baseline (); }
  for (int k = 0; k < nl; k++) L[k].data = &j[k];
  for (int k = 0; k < nl; k++) looper_start (&L[k]);
  ev ("{\"e\":\"cfg\",\"loops\":[%d,%d,%d,%d]}", L[0].tid, nl > 1 ? L[1].tid : -1, nl > 2 ? L[2].tid : -2, -3);
  for (int n = 1 + rng_n (g, 4); n > 0; n--) { int x = new_promise (); if (rng_p (g, 15)) complete (x, rng_p (g, 40)); }
  if (rng_p (g, 20))
    {
      int base = nids + 1, k = rng_n (g, nl);
      for (int i = 0; i < 28; i++) new_promise ();
      for (int i = 0; i < 2; i++)
        {
          all[nids + 1].pingpong = base; all[nids + 1].other = i;
          spawn (k, 0, g, 0);
        }
    }
  if (m_stack && rng_p (g, 20))
    {
      int k = rng_n (g, nl), w = 1;
      if (rng_p (g, 60)) next_size = 0;
      for (int n = 20 + rng_n (g, 15); n > 0; n--) { int id = spawn (k, 0, g, 0); if (id) all[id].crowd = w; }
      next_size = -1;
    }
  for (int n = 1 + rng_n (g, 3); n > 0; n--) spawn (pool && rng_p (g, 40) ? -1 : rng_n (g, nl), 2, g, m_cancel ? 1 + rng_n (g, 2) : 0);
  for (int k = 0; k < nl; k++)
    {
      GSource *s = g_idle_source_new ();
      L[k].step = step;
      g_source_set_priority (s, rng_p (g, 50) ? G_PRIORITY_DEFAULT : G_PRIORITY_DEFAULT_IDLE);
      g_source_set_callback (s, (GSourceFunc)step, &L[k], NULL);
      g_source_attach (s, L[k].ctx);
      g_source_unref (s);
    }
  for (int i = 0; i < np; i++) th[i] = g_thread_new ("p", worker, &pj[i]);
  worker (&pj[2]);
  if (rng_p (g, 40)) quiet ();
  for (int i = 0; i < np; i++) g_thread_join (th[i]);
  quiet ();
  for (int m = 0; m != nids; )
    {
      m = nids;
      for (int k = 1; k <= nids; k++) complete (k, 0);
      drv_settle ();
    }
  quiet ();
  finish ();
}
