/* Drives DexWorkStealingQueue directly: one owner, several thieves, small
 * capacities so that the array grows and wraps around. */
#include "drv.h"
#include "dex-work-stealing-queue-private.h"

gboolean drv_fork_first = FALSE;
static DexWorkStealingQueue *q;
static int nids;
typedef struct { char op; int id; } Op;
typedef struct { Op ops[96]; int n, tid; } Prog;

void drv_init (const char *mode) { dex_init (); drv_tso = TRUE; }
static void item_func (gpointer d) { }

__attribute__((no_sanitize ("thread"))) static void
exec_op (Prog *p, Op *o)
{
  DexWorkItem w = { item_func, GINT_TO_POINTER (-1) };
  gboolean r = FALSE;
  switch (o->op)
    {
    case 'p':
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"push\",\"id\":%d}", p->tid, o->id);
      dst_point ();
      w.func_data = GINT_TO_POINTER (o->id);
      dex_work_stealing_queue_push (q, w);
      dst_point ();
      ev ("{\"e\":\"ret\",\"t\":%d,\"v\":0}", p->tid);
      return;
    case 'o':
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"pop\",\"id\":0}", p->tid);
      dst_point ();
      r = dex_work_stealing_queue_pop (q, &w);
      break;
    case 's':
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"steal\",\"id\":0}", p->tid);
      dst_point ();
      r = dex_work_stealing_queue_steal (q, &w);
      break;
    }
  dst_point ();
  ev ("{\"e\":\"ret\",\"t\":%d,\"v\":%d}", p->tid, !r ? 0 : w.func != item_func ? -2 : GPOINTER_TO_INT (w.func_data));
}

static gpointer worker (gpointer d) { Prog *p = d; for (int i = 0; i < p->n; i++) exec_op (p, &p->ops[i]); return NULL; }

static void
finish (void)
{
  Prog p = { .tid = 1 };
  Op o = { 'o' };
  ev ("{\"e\":\"size\",\"v\":%d,\"empty\":%s}", (int)dex_work_stealing_queue_size (q), dex_work_stealing_queue_empty (q) ? "true" : "false");
  for (int k = 0; k < 400 && !dex_work_stealing_queue_empty (q); k++) exec_op (&p, &o);
  exec_op (&p, &o);
  dex_work_stealing_queue_unref (q);
  ev ("{\"e\":\"end\"}");
}

void
drv_run (Run *r)
{
  Rng *g = &r->rng;
  static Prog p[4];
  if (r->script)
    {
      DstConfig c = { .seed = 1, .max_points = 1000000 };
      drv_start_cfg (&c);
      ev ("{\"e\":\"cfg\",\"lazy\":false}");
      q = dex_work_stealing_queue_new (atoi (r->script));
      p[0].tid = 1; p[1].tid = 2;
      for (const char *s = strchr (r->script, ';') + 1; *s; s++)
        {
          if (*s == ' ') continue;
          Op o = { *s };
          if (*s == 'p') o.id = ++nids;
          exec_op (&p[*s == 's'], &o);
        }
    }
  else
    {
      GThread *th[4];
      int nt = 2 + rng_n (g, 2), pushw = 35 + rng_n (g, 40), n = 3 + rng_n (g, 16);
      gboolean bursts = rng_p (g, 60);     /* the queue keeps running empty */
      for (int k = 0; k < n && bursts; )
        {
          for (int b = 1 + rng_n (g, 3); b > 0; b--, k++) { Op *o = &p[0].ops[p[0].n++]; o->op = 'p'; o->id = ++nids; }
          for (int b = 1 + rng_n (g, 4); b > 0; b--, k++) { Op *o = &p[0].ops[p[0].n++]; o->op = 'o'; }
        }
      for (int k = 0; k < n && !bursts; k++)
        { Op *o = &p[0].ops[p[0].n++]; if (rng_p (g, pushw)) { o->op = 'p'; o->id = ++nids; } else o->op = 'o'; }
      for (int i = 1; i < nt; i++)
        for (int k = 1 + rng_n (g, 5); k > 0; k--) p[i].ops[p[i].n++].op = 's';
      drv_start (r);
      ev ("{\"e\":\"cfg\",\"lazy\":%s}", drv_is_tso ? "true" : "false");
      q = dex_work_stealing_queue_new (1 << rng_n (g, 3));
      for (int i = 0; i < nt; i++) { p[i].tid = i + 1; th[i] = g_thread_new ("w", worker, &p[i]); }
      for (int i = 0; i < nt; i++) g_thread_join (th[i]);
    }
  finish ();
}
