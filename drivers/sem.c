/* Drives DexSemaphore (waits on several loops, posts from anywhere, also from
 * within callbacks) and DexWorkQueue (runners on several loops). */
#include "drv.h"
#include "dex-object-private.h"
#include "dex-future-private.h"
#include "dex-scheduler-private.h"
#include "dex-semaphore-private.h"
#include "dex-work-queue-private.h"

gboolean drv_fork_first = FALSE;

/* a dependent that reports on which thread it hears of what */
typedef struct { DexFuture parent; int id; } Probe;
typedef struct { DexFutureClass parent_class; } ProbeClass;
static GType probe_type;
static void act (int depth);
static int budget, nl, nops, ndone;
static Rng irng;
static Looper L[4];

static gboolean
probe_propagate (DexFuture *f, DexFuture *completed)
{
  char o[100];
  drv_outcome (completed, o, sizeof o);
  int id = ((Probe *)f)->id;
  ndone++;
  ev ("{\"e\":\"done\",\"id\":%d,\"t\":%d,\"o\":\"%s\"}", id, dst_thread_id (), o);
  if (rng_p (&irng, 25)) act (1);
  return FALSE;
}
static void probe_class_init (gpointer k, gpointer d) { ((DexFutureClass *)k)->propagate = probe_propagate; }

void
drv_init (const char *mode)
{
  dex_init ();
  probe_type = g_type_register_static_simple (DEX_TYPE_FUTURE, "VerifProbe", sizeof (ProbeClass), probe_class_init, sizeof (Probe), NULL, 0);
  dex_unref (dex_semaphore_new ());
  DexObject *p = dex_object_create_instance (probe_type); dex_unref (p);
}

#define MAXW 300
static DexSemaphore *sem;
typedef struct { DexFuture *f, *probe; int k, waiting; } W;
static W ws[MAXW];
static int nposts, nwaits;
static gboolean queueing; /* a work queue on top */
static int nids;
static gboolean counting; /* in an eventfd, by the kernel */

static int
me (void)
{
  for (int k = 0; k < nl; k++) if (L[k].tid == dst_thread_id ()) return k;
  return -1;
}
static void
do_wait (int id)
{
  char o[100];
  nwaits++;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"wait\"}", id, dst_thread_id ());
  DexFuture *f = dex_semaphore_wait (sem);
  drv_outcome (f, o, sizeof o);
  ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"%s\"}", id, o);
  Probe *p = (Probe *)dex_object_create_instance (probe_type);
  p->id = id;
  ws[id].f = f; ws[id].probe = (DexFuture *)p; ws[id].k = me ();
  dex_future_chain (f, (DexFuture *)p);
}
static void
do_post (int id, int n)
{
  nposts += n;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"post\",\"n\":%d}", id, dst_thread_id (), n);
  if (n == 1) dex_semaphore_post (sem); else dex_semaphore_post_many (sem, n);
  ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"\"}", id);
}
static void
do_close (int id)
{
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"close\"}", id, dst_thread_id ());
  dex_semaphore_close (sem);
  ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"\"}", id);
}
static void
do_drop (int id, int w)
{
  DexFuture *f = ws[w].f, *p = ws[w].probe;
  if (!f) return;
  ws[w].f = ws[w].probe = NULL;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"drop\",\"n\":%d}", id, dst_thread_id (), w);
  dex_future_discard (f, p);
  dex_unref (p);
  dex_unref (f);
  ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"\"}", id);
}
static int closing_ok, many;
static gboolean waits_many;
static void
act (int depth)
{
  int k = me ();
  if (budget <= 0 || nops + 1 >= MAXW || !sem) return;
  budget--;
  if (k >= 0 && depth == 0 && many > 0)
    for (; many > 0; many--) do_wait (++nops);
  int id = ++nops, x = rng_n (&irng, 100);
  if (k >= 0 && x < 50) do_wait (id);
  else if (!counting && k >= 0 && depth == 0 && x < 58) { for (int w = 1; w < MAXW; w++) if (ws[w].f && ws[w].k == k && rng_p (&irng, 50)) { do_drop (id, w); break; } }
  else if (x < 62 && closing_ok) do_close (id);
  else do_post (id, rng_p (&irng, 60) ? 1 : waits_many && rng_p (&irng, 60) ? rng_n (&irng, 70) : rng_n (&irng, 4));
}

typedef struct { int n, spin; Rng g; } Job;
static gboolean
step (Looper *l)
{
  Job *j = l->data;
  if (j->n <= 0) return FALSE;
  j->n--;
  act (0);
  return j->n > 0;
}
static gpointer
poster (gpointer d)
{
  Job *j = d;
  while (j->n-- > 0)
    {
      act (0);
      for (int s = 0; s < j->spin; s++) dst_point ();
    }
  return NULL;
}
static void
last (Looper *l)
{
  for (int w = 1; w < MAXW; w++)
    if (ws[w].f && ws[w].k == (int)(l - L)) do_drop (++nops, w);
}

static void
quiet (void)
{
  drv_settle ();
  for (int k = 0; counting && k < 3000; k++)
    { /* the kernel takes its time */
      if (k > 2 && (queueing ? ndone >= nids : ndone >= MIN (nposts, nwaits))) break;
      usleep (k < 20 ? 50 : 500);
      drv_settle ();
    }
  ev ("{\"e\":\"quiet\"}");
}
typedef struct { char c; int id, n; } Cmd;
static void
cmd_func (gpointer d)
{
  Cmd *c = d;
  switch (c->c) { case 'w': do_wait (c->id); break; case 'd': do_drop (c->id, c->n); break; case 'p': do_post (c->id, c->n); break; case 'c': do_close (c->id); break; }
}
static void
finish (void)
{
  char leak[256];
  budget = 0;
  int id = ++nops;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"free\"}", id, dst_thread_id ());
  dex_clear (&sem);
  ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"\"}", id);
  quiet ();
  for (int k = 0; k < nl; k++) looper_stop (&L[k]);
  drv_settle ();
  int n = (int)drv_live_delta (leak, sizeof leak);
  ev ("{\"e\":\"end\",\"leak\":%d,\"types\":\"%s\"}", n, leak);
}
static void
run_script (Run *r)
{
  const char *s = r->script;
  r->seed = g_str_hash (s); rng_seed (&irng, r->seed);
  nl = atoi (s); budget = 0;
  drv_start (r);
  for (int k = 0; k < nl; k++) { L[k].last = last; looper_start (&L[k]); }
  sem = dex_semaphore_new ();
  nops = MAXW; /* ids of waits come from the script */
  int op = 0;
  for (s = strchr (s, ';') + 1; *s; s++)
    {
      char c = *s;
      if (c == ' ') continue;
      int k = strtol (s + 1, (char **)&s, 10), w = 0;
      if (*s == '.') w = strtol (s + 1, (char **)&s, 10);
      Cmd cmd = { c, c == 'w' ? w : ++nops, c == 'p' ? k : w };
      op++;
      /* posts and closes: from a loop every other time */
      int on = c == 'w' || c == 'd' ? k - 1 : op % 2 ? -1 : rng_n (&irng, nl);
      if (on < 0) cmd_func (&cmd); else dex_scheduler_push (L[on].sched, cmd_func, &cmd);
      quiet ();
    }
  finish ();
}

/* ------------------------------------------------------------ work queue */
typedef struct { int id, nkids, spin; } Item;
static DexWorkQueue *wq;
static void push_item (int depth);
static void
item_func (gpointer d)
{
  Item *it = d;
  ev ("{\"e\":\"run\",\"q\":1,\"id\":%d,\"t\":%d}", it->id, dst_thread_id ());
  for (int k = 0; k < it->spin; k++) dst_point ();
  for (int k = 0; k < it->nkids; k++) push_item (0);
  ev ("{\"e\":\"done\",\"q\":1,\"id\":%d,\"t\":%d}", it->id, dst_thread_id ());
  ndone++;
  g_free (it);
}
static void
push_item (int depth)
{
  if (budget-- <= 0) return;
  Item *it = g_new0 (Item, 1);
  int id = it->id = ++nids;
  if (depth > 0) it->nkids = rng_n (&irng, 3);
  it->spin = rng_p (&irng, 25) ? rng_n (&irng, 5) : 0;
  ev ("{\"e\":\"push\",\"q\":1,\"id\":%d,\"t\":%d,\"k\":\"global\"}", id, dst_thread_id ());
  dex_work_queue_push (wq, (DexWorkItem) { item_func, it });
  ev ("{\"e\":\"pushed\",\"q\":1,\"id\":%d,\"t\":%d}", id, dst_thread_id ());
}
static DexFuture *runners[4];
static gboolean
step_queue (Looper *l)
{
  int k = l - L;
  Job *j = l->data;
  if (!runners[k]) runners[k] = dex_work_queue_run (wq);
  else push_item (1);
  return j->n-- > 0;
}
static void last_queue (Looper *l) { dex_clear (&runners[l - L]); }
static gpointer
queue_pusher (gpointer d)
{
  Job *j = d;
  ev ("{\"e\":\"other\",\"t\":%d}", dst_thread_id ());
  while (j->n-- > 0)
    {
      push_item (1);
      for (int s = 0; s < j->spin; s++) dst_point ();
    }
  return NULL;
}

void
drv_run (Run *r)
{
  Rng *g = &r->rng;
  static Job j[4], pj[3];
  GThread *th[3];
  gboolean q = queueing = g_str_has_prefix (r->mode, "queue");
  counting = !strcmp (r->mode, "eventfd") || !strcmp (r->mode, "queue-eventfd");
  char leak[256];
  int np = rng_n (g, 3);
  irng = *g; rng_next (&irng);
  drv_live_baseline ();
  if (r->script) { run_script (r); return; }
  nl = 1 + rng_n (g, 3);
  budget = 6 + rng_n (g, 34);
  closing_ok = rng_p (g, 50);
  if (!q && rng_p (g, 3)) { many = 20 + rng_n (g, 120); waits_many = TRUE; closing_ok = FALSE; nl = 1; }
  for (int k = 0; k < nl; k++) { j[k] = (Job) { rng_n (g, 8), rng_n (g, 3), *g }; rng_next (g); }
  for (int k = 0; k < 3; k++) { pj[k] = (Job) { rng_n (g, 6), rng_n (g, 4), *g }; rng_next (g); }
  if (counting)
    {
      DstConfig c;
      dst_config_from_seed (&c, r->seed);
      c.settle_ms = 1;
      closing_ok = FALSE;
      drv_start_cfg (&c);
    }
  else drv_start (r);
  for (int k = 0; k < nl; k++) { L[k].data = &j[k]; L[k].last = q ? last_queue : last; }
  if (q)
    {
      ev ("{\"e\":\"cfg\",\"workers\":%d,\"pools\":1}", nl);
      wq = dex_work_queue_new ();
    }
  else sem = dex_semaphore_new ();
  for (int k = 0; k < nl; k++) { L[k].step = q ? step_queue : step; looper_start (&L[k]); }
  for (int i = 0; i < np; i++) th[i] = g_thread_new ("p", q ? queue_pusher : poster, &pj[i]);
  (q ? queue_pusher : poster) (&pj[2]);
  if (rng_p (g, 30)) quiet ();
  for (int i = 0; i < np; i++) g_thread_join (th[i]);
  quiet ();
  if (q && counting)
    { /* the reads of the runners stay with the kernel */
      ev ("{\"e\":\"end\",\"leak\":0,\"others\":0,\"types\":\"\"}");
      return;
    }
  if (counting)
    { /* the kernel does not give up a read */
      budget = 0;
      if (nposts < nwaits) do_post (++nops, nwaits - nposts);
      quiet ();
    }
  if (!q) { finish (); return; }
  budget = 0;
  if (rng_p (g, 50)) dex_clear (&wq);
  for (int k = 0; k < nl; k++) looper_stop (&L[k]);
  dex_clear (&wq);
  drv_settle ();
  int n = (int)drv_live_delta (leak, sizeof leak);
  ev ("{\"e\":\"end\",\"leak\":%d,\"others\":0,\"types\":\"%s\"}", n, leak);
}
