/* Drives DexObject reference counting and DexWeakRef. */
#include "drv.h"
#include "dex-object-private.h"

gboolean drv_fork_first = FALSE;
typedef struct { DexObject parent; int id; guint8 canary[64]; } Obj;
typedef struct { DexObjectClass parent_class; } ObjClass;
static GType obj_type;
static DexObjectClass *parent_class;

static void
obj_finalize (DexObject *o)
{
  if (((Obj *)o)->id) ev ("{\"e\":\"fin\",\"o\":%d}", ((Obj *)o)->id);
  memset (((Obj *)o)->canary, 0xdd, 64);
  parent_class->finalize (o);
}
static void obj_class_init (gpointer k, gpointer d) { parent_class = g_type_class_peek_parent (k); ((DexObjectClass *)k)->finalize = obj_finalize; }

#define NO 4
#define NW 40
static DexWeakRef weak[NW + 1];
static gboolean weak_live[NW + 1];
static Obj *obj[NO + 1];
static int nobj, nweak;

void
drv_init (const char *mode)
{
  dex_init ();
  obj_type = g_type_register_static_simple (DEX_TYPE_OBJECT, "VerifObj", sizeof (ObjClass), obj_class_init, sizeof (Obj), NULL, 0);
  dex_unref (dex_object_create_instance (obj_type));
}

typedef struct { char op; int a, b; } Op;
typedef struct { Op ops[64]; int n, tid, have[NO + 1]; } Prog;

static void
ret (Prog *p, int v)
{
  dst_point ();
  ev ("{\"e\":\"ret\",\"t\":%d,\"v\":%d}", p->tid, v);
}

static int
check (Obj *o)
{
  if (o == NULL) return 0;
  for (int i = 0; i < 64; i++) if (o->canary[i] != 0x5a) return -1;
  return o->id;
}

static void
exec_op (Prog *p, Op *o)
{
  Obj *x;
  switch (o->op)
    {
    case 'R':
      if (!p->have[o->a]) return;
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"ref\",\"o\":%d}", p->tid, o->a); dst_point ();
      x = dex_ref (obj[o->a]); p->have[o->a]++; ret (p, x == obj[o->a] ? 0 : -2);
      break;
    case 'U':
      if (!p->have[o->a]) return;
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"unref\",\"o\":%d}", p->tid, o->a); dst_point ();
      p->have[o->a]--; dex_unref (obj[o->a]); ret (p, 0);
      break;
    case 'G':
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"get\",\"w\":%d}", p->tid, o->a); dst_point ();
      x = dex_weak_ref_get (&weak[o->a]);
      { int v = check (x); if (v > 0) p->have[v]++; ret (p, v); }
      break;
    case 'S':
      if (o->b && !p->have[o->b]) return;
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"set\",\"w\":%d,\"o\":%d}", p->tid, o->a, o->b); dst_point ();
      if (!weak_live[o->a]) { dex_weak_ref_init (&weak[o->a], o->b ? obj[o->b] : NULL); weak_live[o->a] = TRUE; }
      else dex_weak_ref_set (&weak[o->a], o->b ? obj[o->b] : NULL);
      ret (p, 0);
      break;
    case 'C':
      if (!weak_live[o->a]) return;
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"clear\",\"w\":%d,\"o\":0}", p->tid, o->a); dst_point ();
      dex_weak_ref_clear (&weak[o->a]); memset (&weak[o->a], 0, sizeof weak[0]); dex_weak_ref_init (&weak[o->a], NULL);
      ret (p, 0);
      break;
    }
}

static void
snap (void)
{
  GString *s = g_string_new ("{\"e\":\"snap\",\"w\":[");
  int v[NW + 1] = { 0 }; 
  for (int i = 1; i <= nweak; i++)
    {
      Obj *o = weak_live[i] ? dex_weak_ref_get (&weak[i]) : NULL;
      v[i] = check (o);
      if (o) dex_unref (o);
    }
  for (int i = 1; i <= nweak; i++) g_string_append_printf (s, "%s%d", i > 1 ? "," : "", v[i]);
  g_string_append (s, "]}");
  ev ("%s", s->str);
  g_string_free (s, TRUE);
}

static gpointer
worker (gpointer d)
{
  Prog *p = d;
  for (int i = 0; i < p->n; i++) exec_op (p, &p->ops[i]);
  for (int o = 1; o <= nobj; o++) while (p->have[o] > 0) { Op u = { 'U', o, 0 }; exec_op (p, &u); }
  return NULL;
}

static void
make (void)
{
  for (int i = 1; i <= nobj; i++)
    {
      obj[i] = (Obj *)dex_object_create_instance (obj_type);
      obj[i]->id = i; memset (obj[i]->canary, 0x5a, 64);
    }
  ev ("{\"e\":\"cfg\",\"objs\":%d,\"weaks\":%d}", nobj, nweak);
}

static void
finish (void)
{
  char b[300];
  for (int i = 1; i <= nweak; i++) if (weak_live[i]) dex_weak_ref_clear (&weak[i]);
  gint64 d = drv_live_delta (b, sizeof b);
  ev ("{\"e\":\"end\",\"leak\":%d,\"what\":\"%s\"}", (int)d, b);
}

void
drv_run (Run *r)
{
  drv_live_baseline ();
  nweak = 2;
  if (r->script)
    {
      Prog p = { .tid = 1 };
      DstConfig c = { .seed = 1, .max_points = 1000000 };
      const char *s = strchr (r->script, ';') + 1;
      nobj = atoi (r->script); nweak = 3;
      drv_start_cfg (&c);
      make ();
      for (int i = 1; i <= nobj; i++) p.have[i] = 1;
      while (*s)
        {
          char *e; Op o = { 0 };
          if (*s == ' ') { s++; continue; }
          o.op = *s++; o.a = strtol (s, &e, 10); s = e;
          if (*s == '.') { o.b = strtol (s + 1, &e, 10); s = e; }
          exec_op (&p, &o);
          snap ();
        }
      p.n = 0;
      worker (&p);
      snap ();
      finish ();
      return;
    }
  static Prog p[4], m = { .tid = 9 };
  Rng *g = &r->rng;
  int nt = 2 + rng_n (g, 2);
  GThread *th[4];
  nobj = 1 + rng_p (g, 30); nweak = 1 + rng_n (g, 3);
  gboolean many = rng_p (g, 4);
  if (many) nweak = 5 + rng_n (g, NW - 4);
  /* threads own different weak references for set and clear; gets go to any that is never cleared */
  gboolean cleared[NW + 1] = { 0 };
  for (int w = 1; w <= nweak; w++) cleared[w] = rng_p (g, 40);
  for (int t = 0; t < nt; t++)
    {
      int n = 1 + rng_n (g, many ? 40 : 5);
      p[t].tid = t + 1;
      for (int k = 0; k < n; k++)
        {
          Op *o = &p[t].ops[p[t].n];
          int x = rng_n (g, 100), w = 1 + rng_n (g, nweak), own = (w % nt) == t;
          if (x < 12) *o = (Op){ 'R', 1 + rng_n (g, nobj), 0 };
          else if (x < 42) *o = (Op){ 'U', 1 + rng_n (g, nobj), 0 };
          else if (x < 70 && (!cleared[w] || own)) *o = (Op){ 'G', w, 0 };
          else if (x < 85 && own) *o = (Op){ 'S', w, rng_n (g, nobj + 1) };
          else if (own && cleared[w]) *o = (Op){ 'C', w, 0 };
          else if (!cleared[w]) *o = (Op){ 'G', w, 0 };
          else *o = (Op){ 'U', 1 + rng_n (g, nobj), 0 };
          p[t].n++;
        }
    }
  drv_start (r);
  make ();
  /* set up before the race */
  for (int i = 1; i <= nobj; i++) m.have[i] = 1;
  for (int w = 1; w <= nweak; w++) { Op o = { 'S', w, 1 + rng_n (g, nobj) }; exec_op (&m, &o); }
  for (int t = 0; t < nt; t++)
    for (int i = 1; i <= nobj; i++)
      {
        int n = rng_n (g, 3);
        if (t == 0 && rng_p (g, 40)) n = 1;
        for (int k = 0; k < n; k++) { Op o = { 'R', i, 0 }; exec_op (&m, &o); m.have[i]--; p[t].have[i]++; }
      }
  for (int i = 1; i <= nobj; i++) if (rng_p (g, 70)) { Op o = { 'U', i, 0 }; exec_op (&m, &o); }
  for (int t = 0; t < nt; t++) th[t] = g_thread_new ("w", worker, &p[t]);
  for (int t = 0; t < nt; t++) g_thread_join (th[t]);
  snap ();
  worker (&m);
  snap ();
  finish ();
}
