/* Drives DexCancellable (from GCancellables) and DexUnixSignal: created,
 * cancelled, raised, looked at and dropped from anywhere, also from within the
 * propagation of another one. */
#include "drv.h"
#include <signal.h>
#include <glib-unix.h>
#include "dex-object-private.h"
#include "dex-future-private.h"

gboolean drv_fork_first = FALSE;
typedef struct { DexFuture parent; int x; } Probe;
typedef struct { DexFutureClass parent_class; } ProbeClass;
static GType probe_type;
static void act (void);
static void drop_others (int x);
#define MAXF 40
#define NC 3
#define NS 2
typedef struct { DexFuture *f, *probe; int src, busy, beh; gboolean gone; } F;
static F fs[MAXF];
static GCancellable *cs[NC + 1];
static int nf, nops, budget;
static Rng irng;
static gboolean over;
static const int signums[6] = { SIGHUP, SIGINT, SIGTERM, SIGUSR1, SIGUSR2, SIGWINCH };
static int sigs[NS + 1];

static gboolean
probe_propagate (DexFuture *f, DexFuture *completed)
{
  char o[100];
  drv_outcome (completed, o, sizeof o);
  int x = ((Probe *)f)->x;
  ev ("{\"e\":\"told\",\"x\":%d,\"t\":%d,\"o\":\"%s\"}", x, dst_thread_id (), o);
  if (fs[x].beh) drop_others (x);
  if (rng_p (&irng, 35)) act ();
  return FALSE;
}
static void probe_class_init (gpointer k, gpointer d) { ((DexFutureClass *)k)->propagate = probe_propagate; }
void
drv_init (const char *mode)
{
  dex_init ();
  probe_type = g_type_register_static_simple (DEX_TYPE_FUTURE, "VerifProbe", sizeof (ProbeClass), probe_class_init, sizeof (Probe), NULL, 0);
  dex_unref (dex_object_create_instance (probe_type));
  dex_unref (dex_cancellable_new ());
  g_type_class_ref (dex_unix_signal_get_type ());
  g_object_unref (g_cancellable_new ());
}
/* sources: 1..NC the cancellables, 11.. the signals */
static void
do_new (int src, int beh)
{
  if (nf + 1 >= MAXF) return;
  int x = ++nf, id = ++nops;
  F *f = &fs[x];
  f->src = src; f->beh = beh; f->busy = 1;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"new\",\"x\":%d,\"s\":%d,\"o\":\"i%d\"}", id, dst_thread_id (), x, src, src > 10 ? sigs[src - 10] : 0);
  /* a signal is watched by the main loop, whatever loop is the default of this thread */
  GMainContext *other = src > 10 && rng_p (&irng, 30) ? g_main_context_new () : NULL;
  if (other) g_main_context_push_thread_default (other);
  DexFuture *d = src > 10 ? dex_unix_signal_new (sigs[src - 10]) : dex_cancellable_new_from_cancellable (cs[src]);
  if (other) { g_main_context_pop_thread_default (other); g_main_context_unref (other); }
  Probe *p = (Probe *)dex_object_create_instance (probe_type);
  p->x = x;
  f->f = d; f->probe = (DexFuture *)p;
  dex_future_chain (d, (DexFuture *)p);
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
  f->busy--;
}
static void
do_cancel (int c)
{
  int id = ++nops;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"cancel\",\"s\":%d}", id, dst_thread_id (), c);
  g_cancellable_cancel (cs[c]);
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
}
static void
do_raise (int s)
{
  int id = ++nops;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"raise\",\"s\":%d}", id, dst_thread_id (), s);
  raise (sigs[s - 10]);
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
}
static void
do_self (int x)
{
  F *f = &fs[x];
  if (f->gone || !f->f || f->src > 10) return;
  int id = ++nops;
  f->busy++;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"self\",\"x\":%d}", id, dst_thread_id (), x);
  dex_cancellable_cancel (DEX_CANCELLABLE (f->f));
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
  f->busy--;
}
static void
do_see (int x)
{
  F *f = &fs[x];
  char o[100];
  if (f->gone || !f->f) return;
  int id = ++nops;
  f->busy++;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"see\",\"x\":%d}", id, dst_thread_id (), x);
  drv_outcome (f->f, o, sizeof o);
  ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"%s\"}", id, o);
  f->busy--;
}
static void
do_drop (int x)
{
  F *f = &fs[x];
  if (f->gone || !f->f || f->busy) return;
  int id = ++nops;
  gboolean keep = rng_p (&irng, 50);
  f->gone = TRUE;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"drop\",\"x\":%d}", id, dst_thread_id (), x);
  if (!keep) dex_clear (&f->probe);
  dex_clear (&f->f);
  if (keep) dex_clear (&f->probe);
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
}
static void drop_others (int x) { for (int y = 1; y <= nf; y++) if (y != x && fs[y].src == fs[x].src) do_drop (y); }
static void
act (void)
{
  if (budget <= 0 || over) return;
  budget--;
  int w = rng_n (&irng, 100), x = nf ? 1 + rng_n (&irng, nf) : 0;
  if (w < 30 || !x) do_new (rng_p (&irng, 75) ? 1 + rng_n (&irng, NC) : 11 + rng_n (&irng, NS), rng_p (&irng, 20));
  else if (w < 45) do_see (x);
  else if (w < 62) do_drop (x);
  else if (w < 68) do_self (x);
  else if (w < 88) do_cancel (1 + rng_n (&irng, NC));
  else do_raise (11 + rng_n (&irng, NS));
}
static int
handlers (int c)
{
  int n = 0;
  gulong h[MAXF];
  guint sig = g_signal_lookup ("cancelled", G_TYPE_CANCELLABLE);
  while (n < MAXF && (h[n] = g_signal_handler_find (cs[c], G_SIGNAL_MATCH_ID | G_SIGNAL_MATCH_UNBLOCKED, sig, 0, NULL, NULL, NULL)))
    g_signal_handler_block (cs[c], h[n++]);
  for (int k = 0; k < n; k++) g_signal_handler_unblock (cs[c], h[k]);
  return n;
}
static void
quiet (void)
{
  drv_settle ();
  ev ("{\"e\":\"quiet\",\"hs\":[%d,%d,%d]}", handlers (1), handlers (2), handlers (3));
}
typedef struct { int n, spin, iter; } Job;
static gpointer
plain (gpointer d)
{
  Job *j = d;
  while (j->n-- > 0)
    {
      act ();
      for (int s = 0; s < j->spin; s++) dst_point ();
      if (j->iter && rng_p (&irng, 30)) g_main_context_iteration (NULL, FALSE);
    }
  return NULL;
}
static gboolean swallow (gpointer d) { return G_SOURCE_CONTINUE; }
void
drv_run (Run *r)
{
  Rng *g = &r->rng;
  static Job j[4];
  GThread *th[4];
  char leak[256];
  irng = *g; rng_next (&irng);
  if (r->script) { r->seed = g_str_hash (r->script); rng_seed (&irng, r->seed); }
  int np = 1 + rng_n (&irng, 3), rounds = 1 + rng_n (&irng, 2);
  int k0 = rng_n (&irng, 6);
  drv_live_baseline ();
  for (int c = 1; c <= NC; c++) cs[c] = g_cancellable_new ();
  for (int s = 1; s <= NS; s++) sigs[s] = signums[(k0 + s) % 6];
  drv_start (r);
  guint sw[NS + 1];
  for (int s = 1; s <= NS; s++) sw[s] = g_unix_signal_add (sigs[s], swallow, NULL); /* so that it never kills us */
  drv_settle ();
  ev ("{\"e\":\"cfg\",\"main\":%d}", dst_thread_id ());
  if (r->script)
    for (const char *s = r->script; *s;)
      {
        char c = *s; int a, b = 0;
        if (c == ' ') { s++; continue; }
        a = strtol (s + 1, (char **)&s, 10);
        if (*s == '.') b = strtol (s + 1, (char **)&s, 10);
        switch (c)
          {
          case 'n': do_new (a, b); break;
          case 'x': do_cancel (a); break;
          case 'r': do_raise (a); break;
          case 'd': do_self (a); break;
          case 'k': do_drop (a); break;
          }
        quiet ();
        for (int x = 1; x <= nf; x++) do_see (x);
      }
  else
    while (rounds-- > 0)
      {
        budget = 8 + rng_n (&irng, 25);
        for (int k = 0; k < np; k++)
          {
            j[k] = (Job) { 1 + rng_n (&irng, 12), rng_n (&irng, 4), k == 0 };
            if (k) th[k] = g_thread_new ("p", plain, &j[k]);
          }
        plain (&j[0]);
        for (int k = 1; k < np; k++) g_thread_join (th[k]);
        quiet ();
        for (int x = 1; x <= nf; x++) do_see (x);
      }
  over = TRUE;
  for (int x = 1; x <= nf; x++) do_drop (x);
  quiet ();
  for (int c = 1; c <= NC; c++) g_clear_object (&cs[c]);
  drv_settle ();
  int n = (int)drv_live_delta (leak, sizeof leak), watched = 0;
  for (int s = 1; s <= NS; s++) g_source_remove (sw[s]);
  for (int s = 1; s <= NS; s++) { struct sigaction sa; sigaction (sigs[s], NULL, &sa); if (sa.sa_handler != SIG_DFL) watched++; }
  ev ("{\"e\":\"end\",\"leak\":%d,\"watched\":%d,\"types\":\"%s\"}", n, watched, leak);
}
