/* Drives timeouts on a virtual clock: created on loops of their own and by plain
 * threads, postponed, awaited and given up from any thread, while time passes. */
#include "drv.h"
#include "dex-object-private.h"
#include "dex-future-private.h"

gboolean drv_fork_first = FALSE;
typedef struct { DexFuture parent; int x, chaining; } Probe;
typedef struct { DexFutureClass parent_class; } ProbeClass;
static GType probe_type;
/* told of the end of a timeout: by the loop of the timeout, or at once by whoever awaits it too late */
static gboolean
probe_propagate (DexFuture *f, DexFuture *completed)
{
  Probe *p = (Probe *)f;
  int t = dst_thread_id ();
  if (p->x && p->chaining != t + 1) ev ("{\"e\":\"told\",\"x\":%d,\"t\":%d}", p->x, t);
  return FALSE;
}
static void probe_class_init (gpointer k, gpointer d) { ((DexFutureClass *)k)->propagate = probe_propagate; }
void
drv_init (const char *mode)
{
  dex_init ();
  probe_type = g_type_register_static_simple (DEX_TYPE_FUTURE, "VerifProbe", sizeof (ProbeClass), probe_class_init, sizeof (Probe), NULL, 0);
  DexObject *p = dex_object_create_instance (probe_type); dex_unref (p);
  DexFuture *t = dex_timeout_new_seconds (1000); p = dex_object_create_instance (probe_type);
  dex_future_chain (t, (DexFuture *)p); dex_future_discard (t, (DexFuture *)p); dex_unref (t); dex_unref (p);
}

#define MAXX 40
#define MAXD 4
static DexFuture *tm_[MAXX];
static DexFuture *dep[MAXX][MAXD];
static gboolean busy[MAXX][MAXD]; /* a dependent belongs to one thread at a time */
static int nx, nops, budget, nl;
static Looper L[4];
static Rng irng;
static gint64 base;
static gboolean awaited[MAXX];

/* what lies this far ahead (microseconds) never comes in a run; the specification counts with small numbers */
#define FAR_AWAY 2000000000
static int cap (gint64 n) { return (int)MIN (n, FAR_AWAY); }
static int now (void) { return (int)(dst_now () - base); }
static int home (void) { int t = dst_thread_id (); for (int k = 0; k < nl; k++) if (L[k].tid == t) return t; return 0; }
static void call (int id, const char *op, int x, int d, int abs_)
{ ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"%s\",\"x\":%d,\"d\":%d,\"abs\":%s}", id, dst_thread_id (), op, x, d, abs_ ? "true" : "false"); }
static void reto (int id, const char *o) { ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"%s\"}", id, o); }
static void ret (int id) { reto (id, ""); }

static void do_dep (int x, int d);
static void
do_new (int x, int kind, gint64 d)
{
  int id = ++nops;
  DexFuture *f;
  /* kind 0: usec, 1: msec, 2: seconds, 3: absolute */
  if (kind == 3) d += now ();
  if (kind == 1) d -= d % 1000;
  if (kind == 2) d -= d % 1000000;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"new\",\"x\":%d,\"d\":%d,\"abs\":%s,\"home\":%d}", id, dst_thread_id (), x, cap (d), kind == 3 || d > FAR_AWAY ? "true" : "false", home ());
  switch (kind)
    {
    case 0: f = dex_timeout_new_usec (d); break;
    case 1: f = dex_timeout_new_msec (d / 1000); break;
    case 2: f = dex_timeout_new_seconds (d / 1000000); break;
    default: f = dex_timeout_new_deadline (base + d); break;
    }
  ret (id);
  tm_[x] = f;
}
static void
do_post (int x, gint64 d)
{
  int id = ++nops; gint64 dl = d + now ();
  if (!tm_[x]) return;
  call (id, "post", x, cap (dl), 1);
  dex_timeout_postpone_until (DEX_TIMEOUT (tm_[x]), base + dl);
  ret (id);
}
static void
do_dep (int x, int d)
{
  if (!tm_[x] || dep[x][d] || busy[x][d]) return;
  busy[x][d] = TRUE;
  int id = ++nops;
  DexFuture *p = (DexFuture *)dex_object_create_instance (probe_type);
  call (id, "dep", x, d, 0);
  ((Probe *)p)->x = x; ((Probe *)p)->chaining = dst_thread_id () + 1;
  dex_future_chain (tm_[x], p);
  ((Probe *)p)->chaining = 0;
  ret (id);
  dep[x][d] = p; awaited[x] = TRUE;
  busy[x][d] = FALSE;
}
static void
do_undep (int x, int d)
{
  if (!dep[x][d] || busy[x][d]) return;
  busy[x][d] = TRUE;
  int id = ++nops;
  DexFuture *p = dep[x][d];
  dep[x][d] = NULL;
  call (id, "undep", x, d, 0);
  dex_future_discard (tm_[x], p);
  ret (id);
  dex_unref (p);
  busy[x][d] = FALSE;
}
static void
do_see (int x)
{
  char o[100];
  if (!tm_[x]) return;
  int id = ++nops;
  call (id, "see", x, 0, 0);
  drv_outcome (tm_[x], o, sizeof o);
  reto (id, o);
}
static void
do_tick (int d)
{
  int id = ++nops;
  call (id, "tick", 0, now () + d, 1);
  dst_advance (d);
  ret (id);
}
static gboolean race; /* due at once, and given up at once */
/* hours to decades: seconds and milliseconds up to the largest int */
static gint64
far_span (void)
{
  switch (rng_n (&irng, 5))
    {
    case 0: return G_MAXINT * (gint64)G_USEC_PER_SEC;
    case 1: return G_MAXINT * (gint64)1000;
    case 2: return (2200 + rng_n (&irng, 20000)) * (gint64)G_USEC_PER_SEC;
    case 3: return (2200000 + (gint64)rng_n (&irng, 1000000000) * 2) * (gint64)1000;
    default: return (gint64)(rng_next (&irng) >> 14) | 1ll << 40;
    }
}
static gint64 span (void) { if (!race && rng_p (&irng, 6)) return far_span (); if (race) return 0; static const int a[] = { 0, 1000, 1500, 2000, 5000, 999, 10, 1000000, -3000 }; return a[rng_n (&irng, 9)]; }
static void
act (gboolean main)
{
  if (budget <= 0) return;
  budget--;
  int w = rng_n (&irng, race ? 60 : 100), x = nx ? 1 + rng_n (&irng, nx) : 0, d = rng_n (&irng, MAXD);
  if ((race ? main : w < 25) || !x) { if (nx + 1 < MAXX) { x = ++nx; gint64 d_ = span (); d_ = ABS (d_); int k_ = rng_n (&irng, 4); if (k_ == 2 && d_ > G_MAXINT * (gint64)G_USEC_PER_SEC) k_ = 0; if (k_ == 1 && d_ > G_MAXINT * (gint64)1000) k_ = 2; do_new (x, k_, d_); if (rng_p (&irng, 70)) do_dep (x, d); } }
  else if (w < 40) do_dep (x, d);
  else if (w < 60) do_undep (x, d);
  else if (w < 72) do_post (x, span ());
  else if (w < 85 || !main) do_see (x);
  else do_tick (1000 * (1 + rng_n (&irng, 3)));
}
/* when some loop wakes up by itself */
static int
next_wake (void)
{
  gint64 n = -1;
  GMainContext *c[5] = { g_main_context_default (), };
  for (int k = 0; k < nl; k++) g_main_context_wakeup (L[k].ctx);
  dst_quiesce ();
  gint64 d = dst_next_deadline ();
  if (d >= 0) n = cap (d - base);
  if (g_main_context_acquire (c[0]))
    {
      int prio, tmo; GPollFD fds[8];
      g_main_context_prepare (c[0], &prio);
      g_main_context_query (c[0], prio, &tmo, fds, 8);
      g_main_context_release (c[0]);
      if (tmo >= 0 && (n < 0 || now () + tmo * (gint64)1000 < n)) n = cap (now () + tmo * (gint64)1000);
    }
  return (int)n;
}
static void
quiet (void)
{
  drv_settle ();
  /* a loop that computed how long to sleep just before time passed */
  for (int k = 0; k < nl; k++) g_main_context_wakeup (L[k].ctx);
  drv_settle ();
  GString *s = g_string_new ("");
  char o[100];
  for (int x = 1; x <= nx; x++)
    if (tm_[x]) { drv_outcome (tm_[x], o, sizeof o); g_string_append_printf (s, "%s[%d,\"%s\"]", s->len ? "," : "", x, o); }
  ev ("{\"e\":\"quiet\",\"next\":%d,\"r\":[%s]}", next_wake (), s->str);
  g_string_free (s, TRUE);
}
typedef struct { int n, spin; } Job;
static gboolean
step (Looper *l)
{
  Job *j = l->data;
  if (j->n <= 0) return FALSE;
  j->n--;
  act (FALSE);
  return j->n > 0;
}
static gpointer
plain (gpointer d)
{
  Job *j = d;
  while (j->n-- > 0)
    {
      act (FALSE);
      for (int s = 0; s < j->spin; s++) dst_point ();
    }
  return NULL;
}
static void
finish (void)
{
  char leak[256];
  budget = 0;
  /* everybody loses interest; what nobody ever awaited is awaited first */
  for (int x = 1; x <= nx; x++)
    {
      if (!awaited[x]) do_dep (x, 0);
      for (int d = 0; d < MAXD; d++) do_undep (x, d);
    }
  quiet ();
  for (int x = 1; x <= nx; x++) dex_clear (&tm_[x]);
  for (int k = 0; k < nl; k++) looper_stop (&L[k]);
  int n = (int)drv_live_delta (leak, sizeof leak);
  ev ("{\"e\":\"end\",\"leak\":%d,\"types\":\"%s\"}", n, leak);
}
typedef struct { char c; int a, b; } Cmd;
static void
cmd_func (gpointer d)
{
  Cmd *c = d;
  switch (c->c)
    {
    case 'n': nx = MAX (nx, c->a); do_new (c->a, rng_n (&irng, 2) ? 3 : rng_n (&irng, 2), c->b * 1000); break;
    case 'p': do_post (c->a, c->b * 1000); break;
    case 'd': do_dep (c->a, c->b); break;
    case 'u': do_undep (c->a, c->b); break;
    }
}
void
drv_run (Run *r)
{
  Rng *g = &r->rng;
  static Job j[4], pj[3];
  GThread *th[3];
  int np = rng_n (g, 3);
  irng = *g; rng_next (&irng);
  race = !r->script && rng_p (g, 25);
  if (r->script) { r->seed = g_str_hash (r->script); rng_seed (&irng, r->seed); }
  drv_live_baseline ();
  nl = r->script ? 1 : rng_n (g, 3);
  budget = 8 + rng_n (g, 26);
  for (int k = 0; k < nl; k++) j[k] = (Job) { rng_n (g, 10), 0 };
  for (int k = 0; k < 3; k++) pj[k] = (Job) { rng_n (g, 8), rng_n (g, 4) };
  drv_start (r);
  base = dst_now ();
  for (int k = 0; k < nl; k++) { L[k].data = &j[k]; if (!r->script) L[k].step = step; looper_start (&L[k]); }
  if (r->script)
    {
      for (const char *s = strchr (r->script, ';') + 1; *s; s++)
        {
          Cmd c = { *s, 0, 0 };
          if (*s == ' ') continue;
          c.a = strtol (s + 1, (char **)&s, 10); c.b = strtol (s + 1, (char **)&s, 10);
          if (c.c == 'a') do_tick (c.a * 1000);
          else if (rng_p (&irng, 50)) dex_scheduler_push (L[0].sched, cmd_func, &c);
          else cmd_func (&c);
          quiet ();
          if (*s == 0) break;
        }
      finish ();
      return;
    }
  for (int i = 0; i < np; i++) th[i] = g_thread_new ("p", plain, &pj[i]);
  for (int n = 4 + rng_n (g, 10) + (race ? 10 : 0); n > 0; n--)
    {
      act (TRUE);
      if (rng_p (g, race ? 90 : 20)) g_main_context_iteration (NULL, FALSE);
      if (rng_p (g, 10)) { drv_settle (); }
    }
  for (int i = 0; i < np; i++) g_thread_join (th[i]);
  quiet ();
  for (int n = rng_n (g, 4); n > 0; n--) { do_tick (1000 * (1 + rng_n (g, 4))); act (TRUE); quiet (); }
  finish ();
}
