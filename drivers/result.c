/* Drives DexAsyncResult: made on one loop, awaiting on another, its future and
 * its cancellable completed from anywhere, also from within callbacks. */
#include "vals.h"
#include "dex-object-private.h"
#include "dex-future-private.h"

gboolean drv_fork_first = FALSE;
void
drv_init (const char *mode)
{
  dex_init ();
  g_type_ensure (DEX_TYPE_ASYNC_RESULT);
  g_object_unref (g_object_new (DEX_TYPE_ASYNC_RESULT, NULL));
  g_object_unref (g_cancellable_new ());
  g_object_unref (g_object_new (G_TYPE_OBJECT, NULL));
  vals_init ();
}
#define MAXR 24
#define NP 6
#define NC 4
typedef struct { DexAsyncResult *res; int on, p, c; gboolean claimed, late; GObject *src; } R;
static R rs[MAXR];
static DexPromise *ps[NP + 1];
static char kinds[NP + 1];
static gboolean done[NP + 1];
static GObject *objs[NP + 1];
static GCancellable *cs[NC + 1];
static int nr, nops, nl, budget;
static Looper L[4];
static Rng irng;
static gboolean over;
static void act (void);
static void do_dup (int r);

static int me (void) { for (int k = 0; k < nl; k++) if (L[k].tid == dst_thread_id ()) return k; return -1; }
static void
callback (GObject *src, GAsyncResult *res, gpointer d)
{
  int r = GPOINTER_TO_INT (d);
  GError *e = NULL;
  char o[100] = "?";
  int p = rs[r].p;
  DexAsyncResult *ar = DEX_ASYNC_RESULT (res);
  gboolean same = src == rs[r].src;
  switch (kinds[p])
    {
    case 'b': { gboolean v = dex_async_result_propagate_boolean (ar, &e); snprintf (o, sizeof o, v ? "i%d" : "false", p); break; }
    case 'd': { double v = dex_async_result_propagate_double (ar, &e); snprintf (o, sizeof o, v == p + .5 ? "i%d" : "double", p); break; }
    case 'o': { GObject *v = dex_async_result_propagate_pointer (ar, &e); snprintf (o, sizeof o, v == objs[p] ? "i%d" : "object", p); g_clear_object (&v); break; }
    case 'f': { double v = dex_async_result_propagate_double (ar, &e); snprintf (o, sizeof o, v == p + .25 ? "i%d" : "float", p); break; }
    case 'x':
      {
        VBox *v = dex_async_result_propagate_pointer (ar, &e);
        snprintf (o, sizeof o, v && v->check == 4711 && v->n == p ? "i%d" : "boxed", p);
        if (v) vbox_free (v);
        break;
      }
    case 'v':
      {
        GVariant *v = dex_async_result_propagate_pointer (ar, &e);
        snprintf (o, sizeof o, v && g_variant_get_int32 (v) == p ? "i%d" : "variant", p);
        if (v) g_variant_unref (v);
        break;
      }
    case 'p': { gpointer v = dex_async_result_propagate_pointer (ar, &e); snprintf (o, sizeof o, v == &ps[p] ? "i%d" : "pointer", p); break; }
    default: { gssize v = dex_async_result_propagate_int (ar, &e); snprintf (o, sizeof o, "i%d", (int)v); break; }
    }
  if (e)
    {
      err_format (e, o, sizeof o);
      g_clear_error (&e);
    }
  if (!same) g_strlcat (o, " for another object", sizeof o);
  ev ("{\"e\":\"cb\",\"r\":%d,\"t\":%d,\"o\":\"%s\"}", r, dst_thread_id (), o);
  if (rng_p (&irng, 30)) act ();
  if (rs[r].late) g_clear_object (&rs[r].res);
}
static void
do_new (int c)
{
  if (nr + 1 >= MAXR) return;
  int r = ++nr;
  R *x = &rs[r];
  x->c = c; x->on = me ();
  x->src = rng_p (&irng, 50) ? g_object_new (G_TYPE_OBJECT, NULL) : NULL;
  x->late = rng_p (&irng, 40);
  DexAsyncResult *res = dex_async_result_new (x->src, c ? cs[c] : NULL, callback, GINT_TO_POINTER (r));
  if (rng_p (&irng, 20)) dex_async_result_set_static_name (res, "static");
  if (rng_p (&irng, 20)) dex_async_result_set_name (res, "some name");
  if (rng_p (&irng, 20)) dex_async_result_set_priority (res, 100);
  ev ("{\"e\":\"new\",\"r\":%d,\"t\":%d,\"c\":%d}", r, dst_thread_id (), c);
  x->res = res;
}
static void
do_await (int r, int p)
{
  R *x = &rs[r];
  if (!x->res || x->claimed) return;
  x->claimed = TRUE; x->p = p;
  DexAsyncResult *res = x->res;
  int id = ++nops;
  DexFuture *f = p ? dex_ref (ps[p]) : NULL;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"await\",\"r\":%d,\"p\":%d}", id, dst_thread_id (), r, p);
  if (x->late) g_object_ref (res); else x->res = NULL;
  dex_async_result_await (res, f);
  g_object_unref (res);
  ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"\"}", id);
}
static void
do_complete (int p, int how)
{
  if (done[p]) return;
  done[p] = TRUE;
  int id = ++nops;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"complete\",\"p\":%d,\"o\":\"%s%d\"}", id, dst_thread_id (), p, how ? "E:x" : "i", p);
  if (how) dex_promise_reject (ps[p], val_error (p));
  else switch (kinds[p])
    {
    case 'b': dex_promise_resolve_boolean (ps[p], TRUE); break;
    case 'd': dex_promise_resolve_double (ps[p], p + .5); break;
    case 'o': dex_promise_resolve_object (ps[p], g_object_ref (objs[p])); break;
    case 'u': dex_promise_resolve_uint (ps[p], p); break;
    case 'l': dex_promise_resolve_int64 (ps[p], p); break;
    case 'm': dex_promise_resolve_uint64 (ps[p], p); break;
    case 'f': dex_promise_resolve_float (ps[p], p + .25); break;
    case 'v': dex_promise_resolve_variant (ps[p], g_variant_new_int32 (p)); break;
    case 'L': case 'U': case 'p': case 'x':
      {
        GValue v = G_VALUE_INIT;
        if (kinds[p] == 'L') { g_value_init (&v, G_TYPE_LONG); g_value_set_long (&v, p); }
        else if (kinds[p] == 'U') { g_value_init (&v, G_TYPE_ULONG); g_value_set_ulong (&v, p); }
        else if (kinds[p] == 'x') { g_value_init (&v, vbox_type); g_value_take_boxed (&v, vbox_new (p)); }
        else { g_value_init (&v, G_TYPE_POINTER); g_value_set_pointer (&v, &ps[p]); }
        dex_promise_resolve (ps[p], &v);
        g_value_unset (&v);
        break;
      }
    default: dex_promise_resolve_int (ps[p], p); break;
    }
  ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"\"}", id);
}
static void
do_cancel (int c)
{
  int id = ++nops;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"cancel\",\"c\":%d}", id, dst_thread_id (), c);
  gboolean was = g_cancellable_is_cancelled (cs[c]);
  g_cancellable_cancel (cs[c]);
  if (was) dst_point ();
  ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"\"}", id);
}
static gboolean cused[NC + 1];
static void
act (void)
{
  if (budget <= 0 || over) return;
  budget--;
  int k = me (), w = rng_n (&irng, 100), p = 1 + rng_n (&irng, NP), c = 1 + rng_n (&irng, NC), r = nr ? 1 + rng_n (&irng, nr) : 0;
  if (k >= 0 && (w < 25 || !r)) { do_new (rng_p (&irng, 60) ? c : 0); if (rng_p (&irng, 50)) do_await (nr, p); }
  else if (k >= 0 && r && w < 60) do_await (r, p);
  else if (r && w < 70) for (int t = 1 + rng_n (&irng, 12), q = rng_n (&irng, 6); t > 0; t--) { for (int z = q; z > 0; z--) dst_point (); do_dup (r); }
  else if (w < 82) do_complete (p, rng_p (&irng, 30));
  else if (!cused[c]) { cused[c] = TRUE; do_cancel (c); }
}
static void
quiet (void)
{
  drv_settle ();
  ev ("{\"e\":\"quiet\"}");
}
/* looks at the future of a result, which goes when the callback has been run */
static void
do_dup (int r)
{
  R *x = &rs[r];
  char o[100] = "none";
  if (!x->res) return;
  DexAsyncResult *res = g_object_ref (x->res);
  int id = ++nops;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"dup\",\"r\":%d}", id, dst_thread_id (), r);
  DexFuture *f = dex_async_result_dup_future (res);
  if (f != NULL)
    {
      GError *e = NULL;
      const GValue *v = dex_future_get_value (f, &e);
      int p = x->p;
      if (v == NULL)
        {
          if (e->domain == DEX_ERROR && e->code == DEX_ERROR_PENDING) snprintf (o, sizeof o, "P");
          else err_format (e, o, sizeof o);
          g_clear_error (&e);
        }
      else
        {
          gboolean ok = FALSE;
          switch (kinds[p])
            {
            case 'b': ok = G_VALUE_HOLDS_BOOLEAN (v) && g_value_get_boolean (v); break;
            case 'd': ok = G_VALUE_HOLDS_DOUBLE (v) && g_value_get_double (v) == p + .5; break;
            case 'o': ok = G_VALUE_HOLDS_OBJECT (v) && g_value_get_object (v) == objs[p]; break;
            case 'u': ok = G_VALUE_HOLDS_UINT (v) && (int)g_value_get_uint (v) == p; break;
            case 'l': ok = G_VALUE_HOLDS_INT64 (v) && g_value_get_int64 (v) == p; break;
            case 'm': ok = G_VALUE_HOLDS_UINT64 (v) && (int)g_value_get_uint64 (v) == p; break;
            case 'f': ok = G_VALUE_HOLDS_FLOAT (v) && g_value_get_float (v) == p + .25f; break;
            case 'v': ok = G_VALUE_HOLDS_VARIANT (v) && g_variant_get_int32 (g_value_get_variant (v)) == p; break;
            case 'x': ok = G_VALUE_HOLDS (v, vbox_type) && ((VBox *)g_value_get_boxed (v))->n == p; break;
            case 'L': ok = G_VALUE_HOLDS_LONG (v) && g_value_get_long (v) == p; break;
            case 'U': ok = G_VALUE_HOLDS_ULONG (v) && (int)g_value_get_ulong (v) == p; break;
            case 'p': ok = G_VALUE_HOLDS_POINTER (v) && g_value_get_pointer (v) == &ps[p]; break;
            default: ok = G_VALUE_HOLDS_INT (v) && g_value_get_int (v) == p; break;
            }
          snprintf (o, sizeof o, ok ? "i%d" : "another value", p);
        }
      dex_unref (f);
    }
  g_object_unref (res);
  ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"%s\"}", id, o);
}
typedef struct { int n, spin; } Job;
static gboolean
step (Looper *l)
{
  Job *j = l->data;
  if (j->n <= 0) return FALSE;
  j->n--;
  act ();
  return j->n > 0;
}
static gpointer
plain (gpointer d)
{
  Job *j = d;
  while (j->n-- > 0)
    {
      act ();
      for (int s = 0; s < j->spin; s++) dst_point ();
    }
  return NULL;
}
typedef struct { char c; int a, b, d; } Cmd;
static void
cmd_func (gpointer d)
{
  Cmd *c = d;
  switch (c->c)
    {
    case 'n': do_new (c->b); break;
    case 'a': do_await (c->a, c->d); break;
    case 'c': do_complete (c->a, 0); break;
    case 'e': do_complete (c->a, 1); break;
    case 'd': do_dup (c->a); break;
    case 'x': do_cancel (c->a); break;
    }
}
static void
finish (void)
{
  char leak[256];
  over = TRUE;
  for (int p = 1; p <= NP; p++) do_complete (p, 0);
  quiet ();
  for (int k = 0; k < nl; k++) looper_stop (&L[k]);
  for (int r = 1; r <= nr; r++) { g_clear_object (&rs[r].res); g_clear_object (&rs[r].src); }
  for (int p = 1; p <= NP; p++) { dex_clear (&ps[p]); g_clear_object (&objs[p]); }
  for (int c = 1; c <= NC; c++) g_clear_object (&cs[c]);
  drv_settle ();
  int n = vals_end (leak, sizeof leak);
  ev ("{\"e\":\"end\",\"leak\":%d,\"types\":\"%s\"}", n, leak);
}
void
drv_run (Run *r)
{
  Rng *g = &r->rng;
  static Job j[4], pj[3];
  GThread *th[3];
  int np = rng_n (g, 3);
  irng = *g; rng_next (&irng);
  if (r->script) { r->seed = g_str_hash (r->script); rng_seed (&irng, r->seed); }
  drv_live_baseline ();
  nl = r->script ? atoi (r->script) : 1 + rng_n (g, 3);
  for (int p = 1; p <= NP; p++) { ps[p] = dex_promise_new (); kinds[p] = "ibdoumlLUfxvp"[rng_n (&irng, 13)]; objs[p] = g_object_new (vobj_type, NULL); }
  for (int c = 1; c <= NC; c++) cs[c] = g_cancellable_new ();
  budget = 10 + rng_n (g, 30);
  for (int k = 0; k < nl; k++) j[k] = (Job) { 1 + rng_n (g, 12), 0 };
  for (int k = 0; k < 3; k++) pj[k] = (Job) { rng_n (g, 8), rng_n (g, 4) };
  drv_start (r);
  for (int k = 0; k < nl; k++) { L[k].data = &j[k]; if (!r->script) L[k].step = step; looper_start (&L[k]); }
  if (r->script)
    {
      budget = 0;
      for (const char *s = strchr (r->script, ';') + 1; *s; s++)
        {
          Cmd c = { *s, 0, 0, 0 };
          if (*s == ' ') continue;
          c.a = strtol (s + 1, (char **)&s, 10);
          if (*s == '.') c.b = strtol (s + 1, (char **)&s, 10);
          if (*s == '.') c.d = strtol (s + 1, (char **)&s, 10);
          int on = c.c == 'n' ? c.a - 1 : c.c == 'a' ? c.b - 1 : rng_n (&irng, nl + 1) - 1;
          if (on >= 0) dex_scheduler_push (L[on].sched, cmd_func, &c); else cmd_func (&c);
          quiet ();
          if (*s == 0) break;
        }
      finish ();
      return;
    }
  for (int i = 0; i < np; i++) th[i] = g_thread_new ("p", plain, &pj[i]);
  plain (&pj[2]);
  for (int i = 0; i < np; i++) g_thread_join (th[i]);
  quiet ();
  finish ();
}
