/* Drives DexAsyncPair: made from an asynchronous function or on its own; its
 * result delivered, returned by hand, cancelled, discarded, released, from
 * anywhere, with values of every type. */
#include "vals.h"
#include "dex-object-private.h"
#include "dex-future-private.h"
#include "dex-async-pair-private.h"

gboolean drv_fork_first = FALSE;
void
drv_init (const char *mode)
{
  dex_init ();
  vals_init ();
  g_object_unref (g_cancellable_new ());
  g_object_unref (g_object_new (g_task_get_type (), NULL));
  g_type_class_ref (DEX_TYPE_ASYNC_PAIR);
  dex_unref (dex_object_create_instance (DEX_TYPE_ASYNC_PAIR));
  dex_unref (dex_future_any (dex_future_new_for_int (1), NULL));
}
#define MAXX 12
#define MAXD 40
typedef struct {
  DexFuture *f; GCancellable *c; GObject *inst; int busy, gone, ready;
  GAsyncReadyCallback cb; gpointer data; /* of the operation, until delivered */
  char type; GType gtype; gboolean sync; int deps;
} X;
static X xs[MAXX + 1];
typedef struct { DexFuture *f; int x, busy; } D;
static D ds[MAXD + 1];
static int nx, nd, nops, budget, maxx;
static Rng irng;
static gboolean over;

/* the asynchronous operation: a GTask carries the result, its finish function
 * takes it from there */
typedef struct { Val v; GError *e; gpointer p; } Res;
static void res_free (gpointer d) { Res *r = d; if (r->e) g_error_free (r->e); val_release (&r->v, r->p); g_free (r); }
static void deliver (int x, GAsyncReadyCallback cb, gpointer data);
static __thread int starting;
static void
op_async (gpointer inst, GCancellable *c, GAsyncReadyCallback cb, gpointer data)
{
  X *x = &xs[starting];
  x->c = g_object_ref (c);
  if (inst != x->inst) ev ("{\"e\":\"bad\",\"what\":\"instance\"}");
  if (x->sync) deliver (starting, cb, data); else { x->cb = cb; x->data = data; }
}
static Res *
res_take (gpointer inst, GAsyncResult *r, GError **e)
{
  Res *x = g_task_get_task_data (G_TASK (r));
  if (g_task_get_source_object (G_TASK (r)) != inst) ev ("{\"e\":\"bad\",\"what\":\"finish\"}");
  if (x->e) { g_propagate_error (e, x->e); x->e = NULL; return NULL; }
  return x;
}
#define FINISH(N, T) static T fin_##N (gpointer i, GAsyncResult *r, GError **e) { Res *x = res_take (i, r, e); return x ? (T)x->v.n : (T)0; }
FINISH (b, gboolean) FINISH (i, int) FINISH (u, guint) FINISH (l, gint64) FINISH (m, guint64) FINISH (L, glong) FINISH (U, gulong) FINISH (e, guint)
static gpointer fin_p (gpointer i, GAsyncResult *r, GError **e) { Res *x = res_take (i, r, e); return x ? g_steal_pointer (&x->p) : NULL; }
static double fin_d (gpointer i, GAsyncResult *r, GError **e) { ev ("{\"e\":\"bad\",\"what\":\"finished\"}"); return 0; }
static gpointer
finish_for (char t)
{
  switch (t)
    {
    case 'b': return fin_b; case 'i': return fin_i; case 'u': return fin_u; case 'l': return fin_l; case 'm': return fin_m;
    case 'L': return fin_L; case 'U': return fin_U; case 'e': case 'g': return fin_e;
    case 'd': case 'O': return fin_d;
    default: return fin_p;
    }
}
static void
deliver (int x, GAsyncReadyCallback cb, gpointer data)
{
  int id = ++nops;
  Res *r = g_new0 (Res, 1);
  GTask *t = g_task_new (xs[x].inst, NULL, NULL, NULL);
  const char *o;
  char text[80];
  gboolean err = rng_p (&irng, 30);
  r->v = val_make (&irng, xs[x].type);
  if (err) { r->v.null = TRUE; r->e = val_error (id); } else r->p = strchr ("spoOxv", xs[x].type) ? val_own (&r->v) : NULL;
  snprintf (text, sizeof text, "%s", err ? "" : r->v.text);
  if (err) snprintf (text, sizeof text, "E:x%d", id);
  if (strchr ("dO", xs[x].type)) snprintf (text, sizeof text, "E:TYPE_NOT_SUPPORTED");
  o = text;
  g_task_set_task_data (t, r, res_free);
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"deliver\",\"x\":%d,\"o\":\"%s\"}", id, dst_thread_id (), x, o);
  cb (xs[x].inst, G_ASYNC_RESULT (t), data);
  g_object_unref (t);
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
}
static void
do_new (int bare, gboolean sync)
{
  if (nx >= maxx) return;
  int x = ++nx, id = ++nops;
  X *p = &xs[x];
  p->busy = 1;
  p->type = "biulmLUspoOegxd"[rng_n (&irng, 15)];
  p->gtype = val_make (&irng, p->type).type;
  p->sync = sync;
  p->inst = rng_p (&irng, 70) ? g_object_new (G_TYPE_OBJECT, NULL) : NULL;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"new\",\"x\":%d}", id, dst_thread_id (), x);
  if (bare)
    {
      p->f = (DexFuture *)dex_object_create_instance (DEX_TYPE_ASYNC_PAIR);
      p->c = g_object_ref (dex_async_pair_get_cancellable (DEX_ASYNC_PAIR (p->f)));
    }
  else
    {
      DexAsyncPairInfo info = DEX_ASYNC_PAIR_INFO (op_async, finish_for (p->type), p->gtype);
      starting = x;
      p->f = dex_async_pair_new (p->inst, &info);
      if (p->c != dex_async_pair_get_cancellable (DEX_ASYNC_PAIR (p->f))) ev ("{\"e\":\"bad\",\"what\":\"cancellable\"}");
      memset (&info, 0, sizeof info);
    }
  p->ready = TRUE;
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
  p->busy--;
}
static X *use (int x) { return xs[x].ready && !xs[x].gone ? &xs[x] : NULL; }
static void
do_deliver (int x)
{
  X *p = &xs[x];
  GAsyncReadyCallback cb = p->cb;
  if (!cb || !p->ready) return; /* also after the owner has dropped it */
  p->cb = NULL;
  deliver (x, cb, p->data);
}
static void
do_return (int x)
{
  X *p = use (x);
  if (!p) return;
  int id = ++nops;
  gpointer v;
  p->busy++;
  DexAsyncPair *ap = DEX_ASYNC_PAIR (p->f);
  char k = "osblmxvE"[rng_n (&irng, 8)];
  if (k == 'E')
    {
      ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"return\",\"x\":%d,\"o\":\"E:x%d\"}", id, dst_thread_id (), x, id);
      dex_async_pair_return_error (ap, val_error (id));
    }
  else
    {
      Val w = val_make (&irng, k);
      if (k == 'o') { w.null = FALSE; w.type = vobj_type; snprintf (w.text, sizeof w.text, "VerifObj:%d", (int)w.n); }
      v = strchr ("osxv", k) ? val_own (&w) : NULL;
      ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"return\",\"x\":%d,\"o\":\"%s\"}", id, dst_thread_id (), x, w.text);
      switch (k)
        {
        case 'o': dex_async_pair_return_object (ap, v); break;
        case 's': dex_async_pair_return_string (ap, v); break;
        case 'b': dex_async_pair_return_boolean (ap, w.n); break;
        case 'l': dex_async_pair_return_int64 (ap, w.n); break;
        case 'm': dex_async_pair_return_uint64 (ap, w.n); break;
        case 'x': dex_async_pair_return_boxed (ap, vbox_type, v); break;
        case 'v': dex_async_pair_return_variant (ap, v); break;
        }
    }
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
  p->busy--;
}
static void
simple (int x, const char *op, int b)
{
  X *p = use (x);
  char o[100] = "";
  if (!p) return;
  int id = ++nops;
  p->busy++;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"%s\",\"x\":%d,\"b\":%d}", id, dst_thread_id (), op, x, b);
  if (op[0] == 'c' && op[1] == 'a') g_cancellable_cancel (p->c);
  else if (op[0] == 'c') dex_async_pair_set_cancel_on_discard (DEX_ASYNC_PAIR (p->f), b);
  else if (op[0] == 's') vals_outcome (p->f, o, sizeof o);
  else { dst_point (); snprintf (o, sizeof o, "%d", g_cancellable_is_cancelled (p->c)); }
  ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"%s\"}", id, o);
  p->busy--;
}
/* is it cancelled?  The cancellable outlives the pair */
static void
do_look (int x)
{
  X *p = &xs[x];
  if (!p->ready) return;
  int id = ++nops;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"look\",\"x\":%d}", id, dst_thread_id (), x);
  int c = g_cancellable_is_cancelled (p->c);
  ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"%d\"}", id, c);
}
static void
do_want (int x)
{
  X *p = use (x);
  if (!p || nd >= MAXD) return;
  int id = ++nops, d = ++nd;
  p->busy++; ds[d].busy++; ds[d].x = x;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"want\",\"x\":%d,\"d\":%d}", id, dst_thread_id (), x, d);
  ds[d].f = dex_future_first (dex_ref (p->f), NULL);
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
  p->busy--; ds[d].busy--;
}
static void
do_unwant (int d)
{
  if (!ds[d].f || ds[d].busy) return;
  int id = ++nops;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"unwant\",\"x\":%d,\"d\":%d}", id, dst_thread_id (), ds[d].x, d);
  dex_clear (&ds[d].f);
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
}
static void
do_drop (int x)
{
  X *p = use (x);
  if (!p || p->busy) return;
  int id = ++nops;
  p->gone = TRUE;
  DexFuture *f = p->f;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"drop\",\"x\":%d}", id, dst_thread_id (), x);
  dex_unref (f);
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
}
static void
act (void)
{
  if (budget <= 0 || over) return;
  budget--;
  int w = rng_n (&irng, 100), x = nx ? 1 + rng_n (&irng, nx) : 0, d = nd ? 1 + rng_n (&irng, nd) : 0;
  if (!x || w < 20) do_new (rng_p (&irng, 30), rng_p (&irng, 15));
  else if (w < 38) do_deliver (x);
  else if (w < 46) do_return (x);
  else if (w < 52) simple (x, "cancel", 0);
  else if (w < 58) simple (x, "cod", rng_p (&irng, 30));
  else if (w < 68) simple (x, "see", 0);
  else if (w < 74) do_look (x);
  else if (w < 85) do_want (x);
  else if (w < 94) { if (d) do_unwant (d); }
  else do_drop (x);
}
static void
look_all (void)
{
  for (int x = 1; x <= nx; x++) { simple (x, "see", 0); do_look (x); }
}
typedef struct { int n, spin; } Job;
static gpointer
plain (gpointer d)
{
  Job *j = d;
  while (j->n-- > 0)
    {
      act ();
      for (int s = 0; s < j->spin; s++) dst_point ();
    }
  return NULL;
}
void
drv_run (Run *r)
{
  Rng *g = &r->rng;
  static Job j[4];
  GThread *th[4];
  char leak[256];
  irng = *g; rng_next (&irng);
  if (r->script) { r->seed = g_str_hash (r->script); rng_seed (&irng, r->seed); }
  int np = 1 + rng_n (&irng, 3), rounds = 1 + rng_n (&irng, 2);
  maxx = r->script ? MAXX : 2 + rng_n (&irng, MAXX - 2);
  drv_live_baseline ();
  drv_start (r);
  if (r->script)
    for (const char *s = r->script; *s;)
      {
        char c = *s; int a;
        if (c == ' ') { s++; continue; }
        a = strtol (s + 1, (char **)&s, 10);
        switch (c)
          {
          case 'n': do_new (a == 0, a == 2); break;
          case 'd': do_deliver (a); break;
          case 'r': do_return (a); break;
          case 'x': simple (a, "cancel", 0); break;
          case 'o': simple (a, "cod", 0); break;
          case 'O': simple (a, "cod", 1); break;
          case 'w': do_want (a); break;
          case 'u': do_unwant (a); break;
          case 'k': do_drop (a); break;
          }
        look_all ();
      }
  else
    while (rounds-- > 0)
      {
        budget = 10 + rng_n (&irng, 30);
        for (int k = 0; k < np; k++)
          {
            j[k] = (Job) { 1 + rng_n (&irng, 14), rng_n (&irng, 4) };
            if (k) th[k] = g_thread_new ("p", plain, &j[k]);
          }
        plain (&j[0]);
        for (int k = 1; k < np; k++) g_thread_join (th[k]);
        look_all ();
      }
  over = TRUE;
  for (int x = 1; x <= nx; x++) do_deliver (x);
  look_all ();
  for (int d = 1; d <= nd; d++) do_unwant (d);
  look_all ();
  for (int x = 1; x <= nx; x++) do_drop (x);
  for (int x = 1; x <= nx; x++) { g_clear_object (&xs[x].c); g_clear_object (&xs[x].inst); }
  drv_settle ();
  int n = vals_end (leak, sizeof leak);
  ev ("{\"e\":\"end\",\"leak\":%d,\"types\":\"%s\"}", n, leak);
}
