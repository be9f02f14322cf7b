/* Drives graphs of futures: promises, cancellables, blocks, sets, delayed and
 * disowned futures.  Node ids are positions in the program. */
#include "drv.h"
#include "dex-block-private.h"
#include "dex-fiber-private.h"
#include "dex-future-private.h"
#include "dex-future-set-private.h"
#include "dex-main-scheduler-private.h"

gboolean drv_fork_first = FALSE;
#define MAXN 240
#define MAXA 80
typedef struct _Op Op;
struct _Op { char op; int id, n, a[MAXA]; char beh[8]; char nop; int nid, na; };
typedef struct { Op ops[256]; int n, tid; } Prog;
typedef struct { DexFuture *f; char kind; GCancellable *c; int live; } Node;
static Node node[MAXN];
static int have[8][MAXN];            /* references of each thread */
static int nids, depth[8];
static gboolean seq;
static char last_seen[MAXN][32];
static __thread int self;            /* logical thread */
static GQuark T;

void
drv_init (const char *mode)
{
  dex_init ();
  T = g_quark_from_static_string ("T");
  dex_unref (dex_future_new_for_int (1));
  dex_unref (dex_future_new_true ());
  g_type_class_ref (dex_fiber_get_type ());
}

static void
on_free (gpointer p)
{
  for (int i = 1; i <= nids; i++) if (node[i].live && node[i].f == p) node[i].live = 0;
}

static int
id_of (gpointer p)
{
  for (int i = 1; i <= nids; i++) if (node[i].live && node[i].f == p) return i;
  return 0;
}

static void exec_op (int pt, Op *o);

typedef struct { int id, inv; char beh[8]; DexFuture *ret[10]; Op nest; DexFuture *nestf; } Clos;

static DexFuture *
cb (DexFuture *f, gpointer data)
{
  Clos *c = data;
  char b[100], see[100];
  char k = c->inv < (int)strlen (c->beh) ? c->beh[c->inv] : 'N';
  int x = c->id * 100 + c->inv;
  DexFuture *r = NULL;
  drv_outcome (f, see, sizeof see);
  ev ("{\"e\":\"cb\",\"t\":%d,\"n\":%d,\"see\":\"%s\",\"src\":%d}", self, c->id, see, id_of (f));
  dst_point ();
  if (c->inv++ == 0 && c->nest.op)
    {
      Op o = c->nest;
      depth[self]++;
      exec_op (self + 10 * depth[self], &o);
      depth[self]--;
    }
  dst_point ();
  g_strlcpy (b, "P", sizeof b);
  switch (k)
    {
    case 'N': ev ("{\"e\":\"cbret\",\"n\":%d,\"ret\":0,\"o\":\"P\"}", c->id); break;
    case 'V': r = dex_future_new_for_int (x); ev ("{\"e\":\"cbret\",\"n\":%d,\"ret\":-1,\"o\":\"i%d\"}", c->id, x); break;
    case 'E': r = dex_future_new_for_error (g_error_new_literal (T, x, "x")); ev ("{\"e\":\"cbret\",\"n\":%d,\"ret\":-1,\"o\":\"E:T.%d\"}", c->id, x); break;
    default: r = dex_ref (c->ret[k - '0']); ev ("{\"e\":\"cbret\",\"n\":%d,\"ret\":%d,\"o\":\"P\"}", c->id, k - '0'); break;
    }
  return r;
}

static void
clos_free (gpointer data)
{
  Clos *c = data;
  ev ("{\"e\":\"destroy\",\"n\":%d}", c->id);
  dst_point ();
  for (int i = 0; i < 10; i++) dex_clear (&c->ret[i]);
  dex_clear (&c->nestf);
  g_free (c);
}

static DexFuture *
new_set (Op *o)
{
  DexFuture *m[MAXA]; int n = o->n;
  gboolean va = o->id % 2 && n <= 4;
  for (int i = 0; i < n; i++) m[i] = va ? dex_ref (node[o->a[i]].f) : node[o->a[i]].f;
#define VA(f) (n == 1 ? f (m[0], NULL) : n == 2 ? f (m[0], m[1], NULL) : n == 3 ? f (m[0], m[1], m[2], NULL) : f (m[0], m[1], m[2], m[3], NULL))
  switch (o->op)
    {
    case 'A': return va ? VA (dex_future_all) : dex_future_allv (m, n);
    case 'Y': return va ? VA (dex_future_any) : dex_future_anyv (m, n);
    case '1': return va ? VA (dex_future_first) : dex_future_firstv (m, n);
    default: return va ? VA (dex_future_all_race) : dex_future_all_racev (m, n);
    }
}

static DexFuture *
new_block (Op *o)
{
  Clos *c = g_new0 (Clos, 1);
  DexFuture *in = dex_ref (node[o->a[0]].f);
  c->id = o->id;
  g_strlcpy (c->beh, o->beh, sizeof c->beh);
  for (char *s = c->beh; *s; s++)
    if (*s >= '1' && *s <= '9' && !c->ret[*s - '0']) c->ret[*s - '0'] = dex_ref (node[*s - '0'].f);
  if (o->nop)
    {
      c->nest.op = o->nop; c->nest.id = o->nid; c->nest.n = 1; c->nest.a[0] = o->na;
      if (o->nop != 'u') c->nestf = dex_ref (node[o->na].f);
    }
  switch (o->op)
    {
    case 'T': return dex_future_then (in, cb, c, clos_free);
    case 'C': return dex_future_catch (in, cb, c, clos_free);
    case 'F': return dex_future_finally (in, cb, c, clos_free);
    case 't': return dex_future_then_loop (in, cb, c, clos_free);
    case 'k': return dex_future_catch_loop (in, cb, c, clos_free);
    default: return dex_future_finally_loop (in, cb, c, clos_free);
    }
}

static const char *
kind_name (char k)
{
  switch (k)
    {
    case 'p': return "promise"; case 'P': return "cpromise"; case 'c': return "cancel"; case 'i': return "infinite";
    case 'v': case 'e': return "static";
    case 'T': return "then"; case 'C': return "catch"; case 'F': return "finally";
    case 't': return "thenloop"; case 'k': return "catchloop"; case 'f': return "finallyloop";
    case 'A': return "all"; case 'Y': return "any"; case '1': return "first"; case 'R': return "race";
    case 'D': return "delayed"; case 'd': return "disown";
    case 'r': return "resolve"; case 'x': return "reject"; case 'z': return "cancel1"; case 'o': return "release";
    case 'u': return "drop"; case 'q': return "read"; case '+': return "ref"; case 'y': return "dup";
    default: return "?";
    }
}

static gboolean
usable (int t, int n)
{
  return have[t][n] > 0;
}

static void
exec_op (int pt, Op *o)
{
  char b[200] = "P";
  DexFuture *f = NULL;
  GString *s;
  int v = 0;
  gboolean nested = pt != self;

  /* a nested operation works on a future its closure holds */
  for (int i = 0; i < o->n; i++)
    if (o->a[i] && !usable (self, o->a[i]) && !(nested && o->op != 'u')) return;
  for (char *x = o->beh; *x; x++) if (*x >= '1' && *x <= '9' && !usable (self, *x - '0')) *x = 'V';
  if (o->nop && o->nop != 'u' && !usable (self, o->na)) o->nop = 0;
  s = g_string_new (NULL);
  g_string_append_printf (s, "{\"e\":\"call\",\"t\":%d,\"op\":\"%s\",\"id\":%d", pt, kind_name (o->op), o->id);
  if (strchr ("rxzouq+y", o->op)) g_string_append_printf (s, ",\"n\":%d", o->a[0]);
  else
    {
      GString *d = g_string_new (NULL);
      g_string_append (s, ",\"mem\":[");
      for (int i = 0; i < o->n; i++) g_string_append_printf (s, "%s%d", i ? "," : "", o->a[i]);
      for (char *x = o->beh; *x; x++) if (*x >= '1' && *x <= '9') g_string_append_printf (d, "%s%c", d->len ? "," : "", *x);
      if (o->nop && o->nop != 'u') g_string_append_printf (d, "%s%d", d->len ? "," : "", o->na);
      g_string_append_printf (s, "],\"data\":[%s],\"home\":%d,\"val\":\"", d->str, self);
      g_string_free (d, TRUE);
      if (o->op == 'v') g_string_append_printf (s, "i%d", o->id);
      else if (o->op == 'e') g_string_append_printf (s, "E:T.%d", o->id);
      else g_string_append (s, "P");
      g_string_append_c (s, '"');
    }
  ev ("%s}", s->str);
  g_string_free (s, TRUE);
  dst_point ();
  switch (o->op)
    {
    case 'p': f = DEX_FUTURE (dex_promise_new ()); break;
    case 'P': f = DEX_FUTURE (dex_promise_new_cancellable ()); node[o->id].c = g_object_ref (dex_promise_get_cancellable (DEX_PROMISE (f))); break;
    case 'c': f = DEX_FUTURE (dex_cancellable_new ()); break;
    case 'i': f = dex_future_new_infinite (); break;
    case 'v': f = dex_future_new_for_int (o->id); break;
    case 'e': f = dex_future_new_for_error (g_error_new_literal (T, o->id, "x")); break;
    case 'T': case 'C': case 'F': case 't': case 'k': case 'f': f = new_block (o); break;
    case 'A': case 'Y': case '1': case 'R': f = new_set (o); break;
    case 'D': f = dex_delayed_new (node[o->a[0]].f); break;
    case 'd': dex_future_disown (dex_ref (node[o->a[0]].f)); break;
    case 'r': dex_promise_resolve_int (DEX_PROMISE (node[o->a[0]].f), o->id); break;
    case 'x': dex_promise_reject (DEX_PROMISE (node[o->a[0]].f), g_error_new_literal (T, o->id, "x")); break;
    case 'z': dex_cancellable_cancel (DEX_CANCELLABLE (node[o->a[0]].f)); break;
    case 'o': dex_delayed_release (DEX_DELAYED (node[o->a[0]].f)); break;
    case 'u': have[self][o->a[0]]--; dex_unref (node[o->a[0]].f); break;
    case '+': dex_ref (node[o->a[0]].f); break;
    case 'q': drv_outcome (node[o->a[0]].f, b, sizeof b); break;
    case 'y':
      { DexFuture *d = dex_delayed_dup_future (DEX_DELAYED (node[o->a[0]].f)); v = d ? id_of (d) : 0; dst_point (); if (d) dex_unref (d); }
      break;
    }
  if (f != NULL)
    {
      node[o->id].kind = o->op;
      node[o->id].f = f;
      node[o->id].live = 1;
      have[self][o->id] = 1;
    }
  dst_point ();
  s = g_string_new (NULL);
  if (seq)
    {
      g_string_append (s, ",\"told\":[");
      for (int i = 1; i <= nids; i++) if (node[i].c && g_cancellable_is_cancelled (node[i].c)) g_string_append_printf (s, "%s%d", s->str[s->len - 1] == '[' ? "" : ",", i);
      g_string_append (s, "],\"now\":[");
      for (int i = 1; i <= nids; i++)
        if (have[0][i] > 0)
          {
            char n[100];
            drv_outcome (node[i].f, n, sizeof n);
            if (!strcmp (n, last_seen[i][0] ? last_seen[i] : "P")) continue;
            g_strlcpy (last_seen[i], n, 32);
            g_string_append_printf (s, "%s[%d,\"%s\"]", s->str[s->len - 1] == '[' ? "" : ",", i, n);
          }
      g_string_append (s, "]");
    }
  ev ("{\"e\":\"ret\",\"t\":%d,\"o\":\"%s\",\"v\":%d%s}", pt, b, v, s->str);
  g_string_free (s, TRUE);
}

/* everything that can be seen from outside */
static void
snap (void)
{
  GString *r = g_string_new (NULL), *a = g_string_new (NULL), *c = g_string_new (NULL), *m = g_string_new (NULL);
  char b[200];
  for (int i = 1; i <= nids; i++)
    {
      gboolean held = FALSE;
      for (int t = 0; t < 8; t++) held |= have[t][i] > 0;
      if (held)
        {
          drv_outcome (node[i].f, b, sizeof b);
          g_string_append_printf (r, "%s[%d,\"%s\"]", r->len ? "," : "", i, b);
          if (DEX_IS_FUTURE_SET (node[i].f))
            {
              guint n = dex_future_set_get_size (DEX_FUTURE_SET (node[i].f));
              g_string_append_printf (m, "%s[%d,[", m->len ? "," : "", i);
              for (guint k = 0; k < n; k++) g_string_append_printf (m, "%s%d", k ? "," : "", id_of (dex_future_set_get_future_at (DEX_FUTURE_SET (node[i].f), k)));
              g_string_append (m, "]]");
            }
        }
      if (node[i].live) g_string_append_printf (a, "%s%d", a->len ? "," : "", i);
      if (node[i].c && g_cancellable_is_cancelled (node[i].c)) g_string_append_printf (c, "%s%d", c->len ? "," : "", i);
    }
  ev ("{\"e\":\"snap\",\"r\":[%s],\"alive\":[%s],\"told\":[%s],\"mem\":[%s]}", r->str, a->str, c->str, m->str);
  g_string_free (r, TRUE); g_string_free (a, TRUE); g_string_free (c, TRUE); g_string_free (m, TRUE);
}

static void
inherit (void)
{
  for (int t = 1; t < 8; t++) for (int i = 1; i <= nids; i++) { have[0][i] += have[t][i]; have[t][i] = 0; }
}

static void
drop_all (void)
{
  for (int i = 1; i <= nids; i++)
    while (have[0][i] > 0)
      { Op o = { .op = 'u', .id = 0, .n = 1, .a = { i } }; exec_op (0, &o); }
  drv_settle ();
  snap ();
  for (int i = 1; i <= nids; i++) g_clear_object (&node[i].c);
}

static void
end (void)
{
  char b[300];
  gint64 d = drv_live_delta (b, sizeof b);
  ev ("{\"e\":\"end\",\"leak\":%d,\"what\":\"%s\"}", (int)d, b);
}

static void
parse (Prog *p, const char *s)
{
  while (*s)
    {
      char *e; Op *o = &p->ops[p->n];
      if (*s == ' ') { s++; continue; }
      memset (o, 0, sizeof *o);
      o->op = *s++; o->id = strtol (s, &e, 10); s = e;
      while (*s == '.') { o->a[o->n++] = strtol (s + 1, &e, 10); s = e; }
      if (*s == ':') { int k = 0; s++; while (*s && *s != ' ' && k < 7) o->beh[k++] = *s++; }
      if (o->id > nids) nids = o->id;
      p->n++;
    }
}

/* ------------------------------------------------------- random programs */
static GMainContext *loop_ctx;
static volatile int loop_stop;

static gpointer
worker (gpointer d)
{
  Prog *p = d;
  self = p->tid;
  for (int i = 0; i < p->n; i++) exec_op (self, &p->ops[i]);
  return NULL;
}

static gpointer
looper (gpointer d)
{
  Prog *p = d;
  DexScheduler *sched;
  self = p->tid;
  g_main_context_push_thread_default (loop_ctx);
  sched = DEX_SCHEDULER (dex_main_scheduler_new (loop_ctx));
  for (int i = 0; i < p->n; i++)
    {
      if (p->ops[i].op == 'm') g_main_context_iteration (loop_ctx, FALSE);
      else exec_op (self, &p->ops[i]);
    }
  while (!g_atomic_int_get (&loop_stop)) g_main_context_iteration (loop_ctx, TRUE);
  while (g_main_context_iteration (loop_ctx, FALSE)) ;
  dex_unref (sched);
  g_main_context_pop_thread_default (loop_ctx);
  return NULL;
}

static char
pick (Rng *g, const char *s)
{
  return s[rng_n (g, strlen (s))];
}

typedef struct { int id; char kind; int owner; } Known; /* owner -1: made before the race */

typedef struct { int promise, block, set, delayed, disown, read, drop, race, maxn; const char *prims, *blocks; } Mix;
static const Mix mixes[] = {
  /* C01 */ { 1, 15, 10, 5, 0, 60, 10, 3, 6, "pPc", "TCF" },
  /* C02 */ { 2, 60, 30, 5, 5, 10, 25, 3, 9, "pPc", "TCF" },
  /* C03 */ { 2, 80, 10, 5, 3, 5, 20, 2, 9, "pc", "TCFTCFtkf" },
  /* C04 */ { 3, 5, 85, 5, 0, 25, 10, 3, 8, "pPc", "F" },
  /* C05 */ { 2, 15, 70, 25, 10, 0, 45, 3, 9, "PPpi", "FT" },
  /* C06 */ { 2, 10, 20, 80, 0, 25, 15, 3, 8, "pPc", "F" },
};

static int next_id;

static gboolean
gen_node (Rng *g, const Mix *m, Known *k, int nk, int t, Op *o, gboolean loop, gboolean nest)
{
  int x, c[64], n = 0, tot = m->block + m->set + m->delayed + m->disown;
  for (int i = 0; i < nk; i++) if (k[i].owner == -1 || k[i].owner == t) c[n++] = k[i].id;
  if (n == 0 || tot == 0) return FALSE;
  memset (o, 0, sizeof *o);
  x = rng_n (g, tot);
  if (x < m->block)
    {
      if (!loop) return FALSE;
      o->op = pick (g, m->blocks); o->n = 1; o->a[0] = c[rng_n (g, n)];
      for (int i = 0, l = 1 + rng_n (g, 2); i < l; i++)
        {
          int y = rng_n (g, 100), z = c[rng_n (g, n)];
          o->beh[i] = y < 35 ? 'N' : y < 50 ? 'V' : y < 62 ? 'E' : (z < 10 ? '0' + z : 'V');
          /* loops over a future that is complete would never end */
        }
    }
  else if (x < m->block + m->set)
    {
      o->op = pick (g, "AY1R"); o->n = 1 + rng_n (g, 3);
      if (rng_p (g, 6)) o->n = 4 + rng_n (g, 2);
      for (int i = 0; i < o->n; i++) o->a[i] = c[rng_n (g, n)];
    }
  else if (x < m->block + m->set + m->delayed) { o->op = 'D'; o->n = 1; o->a[0] = c[rng_n (g, n)]; }
  else { if (!loop) return FALSE; o->op = 'd'; o->n = 1; o->a[0] = c[rng_n (g, n)]; }
  o->id = ++next_id;
  if (o->op != 'd' && nest && rng_p (g, 25))
    {
      int q = k[rng_n (g, nk)].id; char kd = 0;
      for (int i = 0; i < nk; i++) if (k[i].id == q && (k[i].owner == -1 || k[i].owner == t)) kd = k[i].kind;
      if (strchr ("TCFtkf", o->op) && kd)
        {
          o->na = q;
          if (kd == 'p' || kd == 'P') o->nop = pick (g, "rxu");
          else if (kd == 'c') o->nop = 'z';
          else if (kd == 'D') o->nop = 'o';
          else o->nop = 'u';
          o->nid = ++next_id;
          if (o->nop == 'u' && rng_p (g, 40)) o->na = o->id;
        }
    }
  return TRUE;
}

/* a source, a chain of blocks upon it, and a fiber with little stack that completes it */
typedef struct { int n, ran; } Deep;
static DexFuture *deep_value (DexFuture *f, gpointer d) { ((Deep *)d)->ran++; return dex_future_new_for_int (7); }
static DexFuture *deep_fiber (gpointer d) { dex_promise_resolve_int (d, 7); return NULL; }
static void
run_deep (Rng *g)
{
  Deep d = { 500 + rng_n (g, 3000), 0 };
  DexPromise *p = dex_promise_new ();
  DexFuture *f = dex_ref (DEX_FUTURE (p));
  char b[100];
  gboolean fin = rng_p (g, 50);
  for (int i = 0; i < d.n; i++)
    f = fin ? dex_future_finally (f, deep_value, &d, NULL) : dex_future_then (f, deep_value, &d, NULL);
  dex_unref (dex_scheduler_spawn (NULL, 0, deep_fiber, dex_ref (DEX_FUTURE (p)), dex_unref));
  drv_settle ();
  drv_outcome (f, b, sizeof b);
  ev ("{\"e\":\"deep\",\"n\":%d,\"ran\":%d,\"val\":\"i7\",\"o\":\"%s\"}", d.n, d.ran, b);
  dex_unref (f); dex_unref (p);
  drv_settle ();
}

/* programs of one thread, with wide sets, many dependents and long chains */
static void
big_op (Prog *p, Op o) { p->ops[p->n++] = o; }
static void
run_big (Run *r)
{
  Rng *g = &r->rng;
  const Mix *m = &mixes[CLAMP (atoi (r->mode) - 1, 0, 5)];
  static Prog p;
  int what = rng_n (g, m->block > 30 ? 4 : 3), pr[64], np = 0, ot[128], no = 0;
  gboolean deep = what == 3 && m->block > 30;
  if (what == 3) what = 2;
  if (what == 0) /* wide sets */
    {
      int n = 6 + rng_n (g, rng_p (g, 60) ? 12 : 34);
      for (int i = 0; i < n; i++) { big_op (&p, (Op){ .op = pick (g, "pppppPcve"), .id = ++next_id }); pr[np++] = next_id; }
      for (int j = 1 + rng_n (g, 3); j > 0; j--)
        {
          Op o = { .op = pick (g, "AY1R"), .n = n, .id = ++next_id };
          for (int i = 0; i < n; i++) o.a[i] = pr[i];
          for (int i = n - 1; i > 0; i--) { int z = rng_n (g, i + 1), t = o.a[i]; o.a[i] = o.a[z]; o.a[z] = t; }
          if (rng_p (g, 20)) o.a[rng_n (g, n)] = o.a[rng_n (g, n)];
          big_op (&p, o); ot[no++] = next_id;
        }
    }
  else if (what == 1) /* many dependents */
    {
      for (int i = 0; i < 2; i++) { big_op (&p, (Op){ .op = pick (g, m->prims), .id = ++next_id }); pr[np++] = next_id; }
      for (int n = 5 + rng_n (g, 30); n > 0; n--)
        {
          int x = rng_n (g, 100);
          Op o = { .op = x < m->block ? pick (g, m->blocks) : x < 80 ? pick (g, "AY1R") : 'D', .n = 1, .id = ++next_id, .a = { pr[rng_n (g, 2)] } };
          if (strchr ("AY1R", o.op) && rng_p (g, 50)) { o.n = 2; o.a[1] = pr[rng_n (g, 2)]; }
          o.beh[0] = pick (g, "NNVE");
          big_op (&p, o); ot[no++] = next_id;
        }
    }
  else /* long chains */
    {
      big_op (&p, (Op){ .op = pick (g, m->prims), .id = ++next_id }); pr[np++] = next_id;
      for (int n = 4 + rng_n (g, 26), last = next_id; n > 0; n--)
        {
          int x = rng_n (g, 100);
          Op o = { .op = x < 70 ? pick (g, "TCF") : x < 95 ? pick (g, "AY1R") : 'D', .n = 1, .id = ++next_id, .a = { last } };
          o.beh[0] = pick (g, "NNNVE");
          big_op (&p, o); ot[no++] = next_id;
          if (rng_p (g, 60)) { big_op (&p, (Op){ .op = 'u', .id = ++next_id, .n = 1, .a = { last } }); }
          last = o.id;
        }
    }
  for (int k = 3 + rng_n (g, np > 3 ? np : 6); k > 0; k--)
    {
      int x = rng_n (g, 100), q = pr[rng_n (g, np)], d = ot[rng_n (g, no)];
      char kd = 0, kq = 0;
      for (int i = 0; i < p.n; i++) { if (p.ops[i].id == d) kd = p.ops[i].op; if (p.ops[i].id == q) kq = p.ops[i].op; }
      if (x < 10) big_op (&p, (Op){ .op = 'm' });
      else if (x < 20) big_op (&p, (Op){ .op = 'q', .id = ++next_id, .n = 1, .a = { d } });
      else if (x < 20 + m->drop) big_op (&p, (Op){ .op = 'u', .id = ++next_id, .n = 1, .a = { d } });
      else if (kd == 'D' && rng_p (g, 40)) big_op (&p, (Op){ .op = 'o', .id = ++next_id, .n = 1, .a = { d } });
      else if (kq == 'c') big_op (&p, (Op){ .op = 'z', .id = ++next_id, .n = 1, .a = { q } });
      else if (kq == 'p' || kq == 'P') big_op (&p, (Op){ .op = pick (g, "rrx"), .id = ++next_id, .n = 1, .a = { q } });
    }
  nids = next_id;
  drv_start (r);
  seq = TRUE;
  ev ("{\"e\":\"cfg\",\"seq\":true}");
  if (deep) run_deep (g);
  for (int i = 0; i < p.n; i++)
    {
      if (p.ops[i].op == 'm') g_main_context_iteration (NULL, FALSE);
      else exec_op (0, &p.ops[i]);
    }
  drv_settle ();
  snap ();
  drop_all ();
  end ();
}

static void
run_random (Run *r)
{
  if (rng_n (&r->rng, 50) == 0) { run_big (r); return; }
  static Prog p[5];
  Rng *g = &r->rng;
  const Mix *m = &mixes[CLAMP (atoi (r->mode) - 1, 0, 5)];
  Known k[MAXN]; int nk = 0;
  static Prog setup;
  int nw = 1 + rng_n (g, m->race), wl = 0;
  gboolean withloop = m->block + m->disown > 0 && rng_p (g, 35);
  GThread *th[5];
  DstConfig unused; (void)unused;
  int np = m->promise + rng_n (g, 2), nd;

  if (nw > 3) nw = 3;
  if (withloop) { wl = nw; if (nw > 2) nw = wl = 2; }
  for (int i = 0; i < np; i++)
    {
      Op o = { .op = pick (g, m->prims), .id = ++next_id };
      if (i > 0 && rng_p (g, 15)) o.op = pick (g, "ve");
      k[nk++] = (Known){ o.id, o.op, -1 };
      setup.ops[setup.n++] = o;
    }
  nd = rng_n (g, 4);
  for (int i = 0; i < nd; i++)
    {
      Op o;
      if (!gen_node (g, m, k, nk, 0, &o, TRUE, TRUE)) continue;
      if (o.op != 'd') k[nk++] = (Known){ o.id, o.op, -1 };
      setup.ops[setup.n++] = o;
    }
  /* the race */
  for (int t = 0; t <= nw; t++)
    {
      int n = 1 + rng_n (g, t == 0 ? 4 : 5);
      p[t].tid = t;
      for (int j = 0; j < n && next_id < 40; j++)
        {
          Op *o = &p[t].ops[p[t].n];
          int x = rng_n (g, 100);
          gboolean loop = t == 0 || (withloop && t == wl);
          if (x < 25 && nk < m->maxn)
            {
              if (!gen_node (g, m, k, nk, t, o, loop, TRUE)) continue;
              if (o->op != 'd') k[nk++] = (Known){ o->id, o->op, t };
              p[t].n++;
              continue;
            }
          if (loop && x < 40) { *o = (Op){ .op = 'm' }; p[t].n++; continue; }
          {
            Known *q = &k[rng_n (g, nk)];
            int y = rng_n (g, 40 + m->read + m->drop);
            if (q->owner != -1 && q->owner != t) continue;
            memset (o, 0, sizeof *o);
            o->id = ++next_id; o->n = 1; o->a[0] = q->id;
            if (y < m->read) o->op = 'q';
            else if (y < m->read + m->drop) o->op = 'u';
            else if (q->kind == 'p' || q->kind == 'P') o->op = pick (g, "rrx");
            else if (q->kind == 'c') o->op = 'z';
            else if (q->kind == 'D') o->op = pick (g, "oooy");
            else o->op = m->read > m->drop ? 'q' : 'u';
            p[t].n++;
          }
        }
    }
  nids = next_id;
  drv_start (r);
  ev ("{\"e\":\"cfg\",\"seq\":false}");
  for (int i = 0; i < setup.n; i++) exec_op (0, &setup.ops[i]);
  if (rng_p (g, 50)) while (g_main_context_iteration (NULL, FALSE)) ;
  /* share what was made */
  for (int t = 1; t <= nw; t++)
    for (int i = 0; i < nk; i++)
      if (k[i].owner == -1 && have[0][k[i].id])
        {
          gboolean used = FALSE;
          for (int j = 0; j < p[t].n; j++)
            {
              for (int z = 0; z < p[t].ops[j].n; z++) used |= p[t].ops[j].a[z] == k[i].id;
              for (char *z = p[t].ops[j].beh; *z; z++) used |= *z - '0' == k[i].id;
              used |= p[t].ops[j].nop && p[t].ops[j].na == k[i].id;
            }
          if (used) { Op o = { .op = '+', .id = 0, .n = 1, .a = { k[i].id } }; exec_op (0, &o); have[t][k[i].id]++; }
        }
  /* the creating thread often keeps nothing but what it needs itself */
  for (int i = 0; i < nk; i++)
    if (k[i].owner == -1 && have[0][k[i].id] && rng_p (g, m->drop))
      {
        gboolean used = FALSE;
        for (int j = 0; j < p[0].n; j++)
          {
            for (int z = 0; z < p[0].ops[j].n; z++) used |= p[0].ops[j].a[z] == k[i].id;
            for (char *z = p[0].ops[j].beh; *z; z++) used |= *z - '0' == k[i].id;
            used |= p[0].ops[j].nop && p[0].ops[j].na == k[i].id;
          }
        if (!used) { Op o = { .op = 'u', .id = 0, .n = 1, .a = { k[i].id } }; exec_op (0, &o); }
      }
  loop_ctx = g_main_context_new ();
  for (int t = 1; t <= nw; t++) th[t] = g_thread_new ("w", withloop && t == wl ? looper : worker, &p[t]);
  for (int i = 0; i < p[0].n; i++)
    {
      if (p[0].ops[i].op == 'm') g_main_context_iteration (NULL, FALSE);
      else exec_op (0, &p[0].ops[i]);
    }
  for (int t = 1; t <= nw; t++) if (!(withloop && t == wl)) g_thread_join (th[t]);
  drv_settle ();
  snap ();
  inherit ();
  for (int i = 0; i < nk; i++)
    if (strchr ("pPc", k[i].kind))
      {
        Op o = { .op = k[i].kind == 'c' ? 'z' : 'r', .id = ++next_id, .n = 1, .a = { k[i].id } };
        if (rng_p (g, 60)) exec_op (0, &o);
      }
  nids = next_id;
  drv_settle ();
  snap ();
  /* the looping thread's own references are dropped by main from here on */
  drop_all ();
  if (withloop)
    {
      g_atomic_int_set (&loop_stop, 1);
      g_main_context_wakeup (loop_ctx);
      g_thread_join (th[wl]);
    }
  g_main_context_unref (loop_ctx);
  end ();
}

void
drv_run (Run *r)
{
  drv_on_free = on_free;
  drv_live_baseline ();
  if (r->script)
    {
      static Prog p;
      DstConfig c = { .seed = 1, .max_points = 1000000 };
      parse (&p, strchr (r->script, ';') + 1);
      drv_start_cfg (&c);
      ev ("{\"e\":\"cfg\",\"seq\":false}");
      for (int i = 0; i < p.n; i++) { exec_op (0, &p.ops[i]); drv_settle (); snap (); }
      drop_all ();
      end ();
    }
  else
    run_random (r);
}
