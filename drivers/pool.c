/* Drives DexThreadPoolScheduler: items pushed by the main thread, by other
 * threads and by items themselves, pinned callbacks and fibers; then either
 * waits for everything or releases the pool right in the middle of it. With
 * two pools, items of one also push to the other. */
#include "drv.h"

gboolean drv_fork_first = FALSE;
void drv_init (const char *mode) { dex_init (); }

typedef struct { int id, spin, nkids, depth, q; char kind; DexPromise *p; } Item;
static DexScheduler *pool[2];
static int npools;
static __thread int mine;              /* the pool of this thread */
static gboolean rel;
static int nids, ndone, budget;
static gboolean kernel;                /* wake-ups go through an eventfd and its ring */
static Rng irng;
static GPtrArray *fibers;
static GPtrArray *gates;               /* promises the main thread resolves */

static void push_item (char kind, int depth);

static void
run_item (Item *it)
{
  mine = it->q;
  for (int k = 0; k < it->spin; k++) dst_point ();
  for (int k = 0; k < it->nkids; k++)
    push_item (it->depth > 0 && rng_p (&irng, 75) ? 'p' : (rel ? "pplf" : "pplcf")[rng_n (&irng, rel ? 4 : 5)], it->depth - 1);
}

static void
item_func (gpointer d)
{
  Item *it = d;
  ev ("{\"e\":\"run\",\"q\":%d,\"id\":%d,\"t\":%d}", it->q + 1, it->id, dst_thread_id ());
  run_item (it);
  ndone++;
  ev ("{\"e\":\"done\",\"q\":%d,\"id\":%d,\"t\":%d}", it->q + 1, it->id, dst_thread_id ());
  g_free (it);
}

static DexFuture *
then_func (DexFuture *f, gpointer d)
{
  Item *it = d;
  ev ("{\"e\":\"run\",\"q\":%d,\"id\":%d,\"t\":%d}", it->q + 1, it->id, dst_thread_id ());
  run_item (it);
  ndone++;
  ev ("{\"e\":\"done\",\"q\":%d,\"id\":%d,\"t\":%d}", it->q + 1, it->id, dst_thread_id ());
  return NULL;
}

static DexFuture *
fiber_func (gpointer d)
{
  Item *it = d;
  ev ("{\"e\":\"run\",\"q\":%d,\"id\":%d,\"t\":%d}", it->q + 1, it->id, dst_thread_id ());
  run_item (it);
  if (it->p)
    {
      ev ("{\"e\":\"susp\",\"q\":%d,\"id\":%d,\"t\":%d}", it->q + 1, it->id, dst_thread_id ());
      dex_await (dex_ref (it->p), NULL);
      ev ("{\"e\":\"cont\",\"q\":%d,\"id\":%d,\"t\":%d}", it->q + 1, it->id, dst_thread_id ());
      dex_clear (&it->p);
    }
  ndone++;
  ev ("{\"e\":\"done\",\"q\":%d,\"id\":%d,\"t\":%d}", it->q + 1, it->id, dst_thread_id ());
  return NULL;
}

static void
push_ev (const char *e, Item *it, const char *k)
{
  ev ("{\"e\":\"%s\",\"q\":%d,\"id\":%d,\"t\":%d,\"k\":\"%s\"}", e, it->q + 1, it->id, dst_thread_id (), k);
}

static DexPromise *
gate (void)
{
  DexPromise *p = dex_promise_new ();
  g_ptr_array_add (gates, dex_ref (p));
  return p;
}

/* p: through the pool, l: through the thread's own scheduler, c: a callback
 * bound to this thread, f: a fiber */
static void
push_item (char kind, int depth)
{
  Item *it;
  DexScheduler *own = dex_scheduler_get_thread_default ();
  gboolean worker = own && own != dex_scheduler_get_default ();
  if (budget <= 0) return;
  budget--;
  it = g_new0 (Item, 1);
  it->id = ++nids; it->depth = depth; it->kind = kind;
  it->spin = rng_p (&irng, 30) ? rng_n (&irng, 6) : 0;
  if (depth > 0) it->nkids = rng_n (&irng, 4);
  if (!worker && (kind == 'l' || kind == 'c')) kind = 'p';
  if (rel && worker && kind == 'p') kind = 'l'; /* the pool may be gone */
  it->q = kind == 'l' || kind == 'c' ? mine : npools > 1 ? (int)rng_n (&irng, npools) : 0;
  push_ev ("push", it, kind == 'c' ? "here" : kind == 'f' ? "fiber" : worker && it->q == mine ? "local" : "global");
  Item id = *it;
  switch (kind)
    {
    case 'l': dex_scheduler_push (own, item_func, it); break;
    case 'c':
      {
        DexPromise *p = gate ();
        dex_future_disown (dex_future_then (DEX_FUTURE (p), then_func, it, g_free));
        break;
      }
    case 'f':
      if (!rel && rng_p (&irng, 50)) it->p = gate ();
      g_ptr_array_add (fibers, dex_scheduler_spawn (rel && worker ? own : pool[it->q], 0, fiber_func, it, g_free));
      break;
    default: dex_scheduler_push (pool[it->q], item_func, it); break;
    }
  push_ev ("pushed", &id, "");
}

typedef struct { int n, depth, mix, spin; } Job;
static gpointer
pusher (gpointer d)
{
  Job *j = d;
  ev ("{\"e\":\"other\",\"t\":%d}", dst_thread_id ());
  for (int k = 0; k < j->n; k++)
    {
      push_item (j->mix && rng_p (&irng, j->mix) ? 'f' : 'p', j->depth);
      for (int s = 0; s < j->spin; s++) dst_point ();
    }
  return NULL;
}

/* one item which pushes very many */
static void
flood_func (gpointer d)
{
  Item *it = d;
  ev ("{\"e\":\"run\",\"q\":%d,\"id\":%d,\"t\":%d}", it->q + 1, it->id, dst_thread_id ());
  for (int k = 0; k < it->nkids; k++) push_item ('p', 0);
  ndone++;
  ev ("{\"e\":\"done\",\"q\":%d,\"id\":%d,\"t\":%d}", it->q + 1, it->id, dst_thread_id ());
  g_free (it);
}

static void
open_gates (void)
{
  while (gates->len > 0)
    {
      DexPromise *p = g_ptr_array_steal_index_fast (gates, rng_n (&irng, gates->len));
      dex_promise_resolve_int (p, 1);
      dex_unref (p);
    }
}

static void
quiet (void)
{
  int n;
  do { n = nids; drv_settle (); open_gates (); drv_settle (); } while (gates->len || n != nids);
  for (int k = 0; kernel && k < 3000; k++)
    { /* the kernel takes its time */
      if (k > 2 && ndone >= nids && !gates->len) break;
      usleep (k < 20 ? 50 : 500);
      drv_settle ();
      open_gates ();
    }
  ev ("{\"e\":\"quiet\"}");
}

/* a program of the model: W;g<kids> ... q ... */
static void
run_script (Run *r)
{
  int workers = atoi (r->script);
  r->seed = g_str_hash (r->script); /* the same schedule again */
  rng_seed (&irng, r->seed);
  dst_set_nprocs (workers * 2);
  drv_start (r);
  npools = 1;
  ev ("{\"e\":\"cfg\",\"workers\":%d,\"pools\":1}", workers);
  pool[0] = dex_thread_pool_scheduler_new ();
  ev ("{\"e\":\"other\",\"t\":%d}", dst_thread_id ());
  budget = 64;
  for (const char *s = strchr (r->script, ';') + 1; *s; s++)
    if (*s == 'g')
      {
        Item *it = g_new0 (Item, 1);
        it->id = ++nids; it->nkids = *++s - '0'; it->depth = 1;
        Item id = *it;
        push_ev ("push", it, "global");
        dex_scheduler_push (pool[0], item_func, it);
        push_ev ("pushed", &id, "");
      }
    else if (*s == 'q') quiet ();
  quiet ();
  ev ("{\"e\":\"end\",\"leak\":0}");
}

void
drv_run (Run *r)
{
  Rng *g = &r->rng;
  gboolean flood;
  rel = strstr (r->mode, "release") != NULL; flood = !rel && rng_p (g, 3);
  GThread *th[3];
  Job j[3];
  int np = rng_n (g, 3), workers = 1 + rng_n (g, 3);
  char leak[256];

  irng = *g; rng_next (&irng);
  gates = g_ptr_array_new ();
  fibers = g_ptr_array_new_with_free_func (dex_unref);
  if (r->script) { run_script (r); return; }
  dst_set_nprocs (workers * 2);
  drv_live_baseline ();
  kernel = strstr (r->mode, "eventfd") != NULL;
  if (kernel)
    {
      DstConfig c;
      dst_config_from_seed (&c, r->seed);
      c.settle_ms = 1;
      drv_start_cfg (&c);
    }
  else drv_start (r);
  npools = rel || flood ? 1 : 1 + rng_p (g, 40);
  ev ("{\"e\":\"cfg\",\"workers\":%d,\"pools\":%d}", workers, npools);
  for (int k = 0; k < npools; k++) pool[k] = dex_thread_pool_scheduler_new ();
  ev ("{\"e\":\"other\",\"t\":%d}", dst_thread_id ());
  budget = flood ? 2000 : 4 + rng_n (g, 26);
  for (int i = 0; i < 3; i++)
    j[i] = (Job) { rng_n (g, 5), rng_n (g, 3), rel ? 0 : rng_p (g, 30) ? 50 : 0, rng_n (g, 4) };
  if (flood)
    {
      Item *it = g_new0 (Item, 1);
      it->id = ++nids; it->nkids = 254 + rng_n (g, 6) + (rng_p (g, 50) ? 256 : 0);
      Item id = *it;
      push_ev ("push", it, "global");
      dex_scheduler_push (pool[0], flood_func, it);
      push_ev ("pushed", &id, "");
    }
  for (int i = 0; i < np; i++) th[i] = g_thread_new ("p", pusher, &j[i]);
  for (int round = 0; round < 2; round++)
    {
      pusher (&j[2]);
      if (rng_p (g, 50)) quiet ();
      if (rng_p (g, 50)) open_gates ();
    }
  for (int i = 0; i < np; i++) g_thread_join (th[i]);
  if (!rel || rng_p (g, 30)) quiet ();
  if (!rel) { ev ("{\"e\":\"end\",\"leak\":0}"); return; }
  ev ("{\"e\":\"release\"}");
  dex_unref (pool[0]);
  ev ("{\"e\":\"released\",\"threads\":%d}", dst_threads () - 1);
  open_gates ();
  drv_settle ();
  g_ptr_array_unref (fibers);
  drv_settle ();
  int n = (int)drv_live_delta (leak, sizeof leak), others = 0;
  gboolean own = FALSE;
  char *save, *w;
  char *copy = g_strdup (leak);
  /* what belongs to the pool and its workers, and everything else */
  for (w = strtok_r (copy, " ", &save); w; w = strtok_r (NULL, " ", &save), own = FALSE)
    {
      static const char *mine[] = { "DexWorkQueue:", "DexSemaphore:", "DexThreadPoolWorker:", "DexSemaphoreWaiter:", "DexBlock:", "DexStaticFuture:" };
      for (guint k = 0; k < G_N_ELEMENTS (mine); k++) own |= g_str_has_prefix (w, mine[k]);
      if (!own) others++;
    }
  ev ("{\"e\":\"end\",\"leak\":%d,\"others\":%d,\"types\":\"%s\"}", n, others, leak);
}
