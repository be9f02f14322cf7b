/* Drives DexMainScheduler: several loops on threads of their own, items pushed
 * to them by plain threads, by each other's items, by the loops' own programs;
 * finally the loops stop, possibly with items still queued. */
#include "drv.h"

gboolean drv_fork_first = FALSE;
void drv_init (const char *mode) { dex_init (); }

typedef struct { int id, k, nkids, depth, spin; gboolean burst; } Item;
static int nids, budget, nl;
static Rng irng;
static Looper L[4];
static gboolean closing;

static void push_to (int k, int depth);

static void
run_kids (Item *it)
{
  for (int k = 0; k < it->spin; k++) dst_point ();
  for (int k = 0; k < it->nkids; k++)
    {
      int to = closing || it->burst ? it->k : rng_n (&irng, nl);
      push_to (to, it->depth - 1);
    }
}

static void
item_func (gpointer d)
{
  Item *it = d;
  ev ("{\"e\":\"run\",\"id\":%d,\"t\":%d}", it->id, dst_thread_id ());
  run_kids (it);
  ev ("{\"e\":\"done\",\"id\":%d,\"t\":%d}", it->id, dst_thread_id ());
  g_free (it);
}

static void
push_to (int k, int depth)
{
  if (budget <= 0) return;
  budget--;
  Item *it = g_new0 (Item, 1);
  int id = it->id = ++nids;
  it->k = k; it->depth = depth;
  it->nkids = depth > 0 ? rng_n (&irng, 3) : 0;
  it->spin = rng_p (&irng, 25) ? rng_n (&irng, 5) : 0;
  ev ("{\"e\":\"push\",\"id\":%d,\"t\":%d,\"k\":%d}", id, dst_thread_id (), k + 1);
  dex_scheduler_push (L[k].sched, item_func, it);
  ev ("{\"e\":\"pushed\",\"id\":%d,\"t\":%d}", id, dst_thread_id ());
}

/* an item that pushes many, the first of which push more */
static void
push_burst (int k, int n)
{
  Item *it = g_new0 (Item, 1);
  budget += n + 20;
  int id = it->id = ++nids;
  it->k = k; it->nkids = n; it->depth = 2; it->burst = TRUE;
  ev ("{\"e\":\"push\",\"id\":%d,\"t\":%d,\"k\":%d}", id, dst_thread_id (), k + 1);
  dex_scheduler_push (L[k].sched, item_func, it);
  ev ("{\"e\":\"pushed\",\"id\":%d,\"t\":%d}", id, dst_thread_id ());
}

typedef struct { int n, depth, spin; Rng g; } Job;
static gboolean
step (Looper *l)
{
  Job *j = l->data;
  if (j->n <= 0) return FALSE;
  j->n--;
  push_to (rng_n (&j->g, nl), j->depth);
  return j->n > 0;
}

static gpointer
pusher (gpointer d)
{
  Job *j = d;
  while (j->n-- > 0)
    {
      push_to (rng_n (&j->g, nl), j->depth);
      for (int s = 0; s < j->spin; s++) dst_point ();
    }
  return NULL;
}

static void
last (Looper *l)
{
  Job *j = l->data;
  ev ("{\"e\":\"stop\",\"k\":%d,\"t\":%d}", (int)(l - L) + 1, dst_thread_id ());
  for (int n = rng_n (&j->g, 4); n > 0; n--) push_to ((int)(l - L), 2); /* while nobody iterates */
}

static void
quiet (void)
{
  drv_settle ();
  ev ("{\"e\":\"quiet\"}");
}

static void
run_script (Run *r)
{
  static Job j[4];
  const char *s = r->script;
  r->seed = g_str_hash (s); rng_seed (&irng, r->seed);
  nl = atoi (s);
  drv_start (r);
  for (int k = 0; k < nl; k++) { L[k].data = &j[k]; looper_start (&L[k]); }
  ev ("{\"e\":\"cfg\",\"loops\":[%d,%d,%d,%d]}", L[0].tid, nl > 1 ? L[1].tid : -1, nl > 2 ? L[2].tid : -2, -3);
  budget = 60;
  for (s = strchr (s, ';') + 1; *s; s++)
    if (*s == 'q') quiet ();
    else if (*s == 'p')
      {
        /* p<loop><number of items it pushes to its own loop> */
        Item *it = g_new0 (Item, 1);
        int id = it->id = ++nids;
        it->k = *++s - '1'; it->nkids = *++s - '0'; it->depth = 1;
        closing = TRUE;
        ev ("{\"e\":\"push\",\"id\":%d,\"t\":%d,\"k\":%d}", id, dst_thread_id (), it->k + 1);
        dex_scheduler_push (L[it->k].sched, item_func, it);
        ev ("{\"e\":\"pushed\",\"id\":%d,\"t\":%d}", id, dst_thread_id ());
      }
  quiet ();
  ev ("{\"e\":\"end\",\"leak\":0}");
}

void
drv_run (Run *r)
{
  Rng *g = &r->rng;
  static Job j[4], pj[3];
  GThread *th[3];
  char leak[256];
  int np = rng_n (g, 3);
  irng = *g; rng_next (&irng);
  drv_live_baseline ();
  if (r->script) { run_script (r); return; }
  nl = 1 + rng_n (g, 3);
  budget = 6 + rng_n (g, 30);
  for (int k = 0; k < nl; k++) { j[k] = (Job) { rng_n (g, 5), rng_n (g, 3), 0, *g }; rng_next (&j[k].g); rng_next (g); }
  for (int k = 0; k < 3; k++) { pj[k] = (Job) { rng_n (g, 6), rng_n (g, 3), rng_n (g, 4), *g }; rng_next (&pj[k].g); rng_next (g); }
  drv_start (r);
  int n0 = 0;
  (void)n0;
  for (int k = 0; k < nl; k++) { L[k].data = &j[k]; L[k].last = last; }
  /* every loop exists before anybody pushes */
  for (int k = 0; k < nl; k++) looper_start (&L[k]);
  ev ("{\"e\":\"cfg\",\"loops\":[%d,%d,%d,%d]}", L[0].tid, nl > 1 ? L[1].tid : -1, nl > 2 ? L[2].tid : -2, -3);
  for (int k = 0; k < nl; k++)
    {
      GSource *s = g_idle_source_new ();
      L[k].step = step;
      g_source_set_priority (s, rng_p (g, 50) ? G_PRIORITY_DEFAULT : G_PRIORITY_DEFAULT_IDLE);
      g_source_set_callback (s, (GSourceFunc)step, &L[k], NULL);
      g_source_attach (s, L[k].ctx);
      g_source_unref (s);
    }
  for (int i = 0; i < np; i++) th[i] = g_thread_new ("p", pusher, &pj[i]);
  if (rng_p (g, 3)) push_burst (rng_n (g, nl), 20 + rng_n (g, rng_p (g, 30) ? 300 : 80));
  pusher (&pj[2]);
  if (rng_p (g, 40)) quiet ();
  for (int i = 0; i < np; i++) g_thread_join (th[i]);
  quiet ();
  closing = TRUE;
  budget += 5;
  for (int k = 0; k < nl; k++) looper_stop (&L[k]);
  drv_settle ();
  ev ("{\"e\":\"quiet\"}");
  int n = (int)drv_live_delta (leak, sizeof leak);
  ev ("{\"e\":\"end\",\"leak\":%d,\"types\":\"%s\"}", n, leak);
}
