/* Drives DexChannel: scripted single-thread programs and random concurrent
 * ones.  Ids are positions in the program; an item sent by op n carries int n. */
#include "drv.h"

gboolean drv_fork_first = FALSE;
#define MAXOPS 400
typedef struct { char op; int id; int arg; } Op;
typedef struct { Op ops[320]; int n; int tid; } Prog;

static DexChannel *ch;
static DexFuture *res[MAXOPS];     /* what op n returned */
static DexPromise *later[MAXOPS];  /* item of op n, still to be fulfilled */
static char kind[MAXOPS];
static int nids;
static gboolean log_calls;

void drv_init (const char *mode) { dex_init (); DexChannel *c = dex_channel_new (1); dex_unref (dex_channel_send (c, dex_future_new_for_int (1))); dex_unref (dex_channel_receive (c)); dex_unref (dex_channel_receive_all (c)); dex_unref (c); dex_unref (dex_promise_new ()); }

/* what the future returned by op i shows now */
static void
outcome (int i, char *b, gsize n)
{
  drv_outcome (res[i], b, n);
  if (kind[i] == 'a' && DEX_IS_FUTURE_SET (res[i]) && !g_str_has_prefix (b, "E:"))
    {
      DexFutureSet *fs = DEX_FUTURE_SET (res[i]);
      GString *x = g_string_new (b[0] == 'P' ? "P" : "A");
      guint m = dex_future_set_get_size (fs);
      for (guint k = 0; b[0] != 'P' && k < m; k++)
        {
          char c[100];
          drv_outcome (dex_future_set_get_future_at (fs, k), c, sizeof c);
          g_string_append_printf (x, ":%s", c);
        }
      g_strlcpy (b, x->str, n);
      g_string_free (x, TRUE);
    }
}

static void
exec_op (Prog *p, Op *o)
{
  DexFuture *f = NULL;
  switch (o->op)
    {
    case 's': case 'l': case 'x':
      if (o->op == 'x') f = dex_future_new_for_error (g_error_new (G_IO_ERROR, 1000 + o->id, "item %d", o->id));
      else if (o->op == 's') f = dex_future_new_for_int (o->id);
      else { later[o->id] = dex_promise_new (); f = DEX_FUTURE (dex_ref (later[o->id])); }
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"send\",\"id\":%d,\"ready\":%s,\"bad\":%s}", p->tid, o->id, o->op != 'l' ? "true" : "false", o->op == 'x' ? "true" : "false");
      dst_point ();
      res[o->id] = dex_channel_send (ch, f); kind[o->id] = 's';
      break;
    case 'r':
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"recv\",\"id\":%d}", p->tid, o->id);
      dst_point ();
      res[o->id] = dex_channel_receive (ch); kind[o->id] = 'r';
      break;
    case 'a':
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"all\",\"id\":%d}", p->tid, o->id);
      dst_point ();
      res[o->id] = dex_channel_receive_all (ch); kind[o->id] = 'a';
      break;
    case 'C':
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"closesend\",\"id\":%d}", p->tid, o->id);
      dst_point ();
      dex_channel_close_send (ch);
      break;
    case 'D':
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"closerecv\",\"id\":%d}", p->tid, o->id);
      dst_point ();
      dex_channel_close_receive (ch);
      break;
    case 'q':
      {
        ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"query\",\"id\":%d}", p->tid, o->id);
        dst_point ();
        gboolean a = o->arg ? dex_channel_can_receive (ch) : dex_channel_can_send (ch);
        dst_point ();
        ev ("{\"e\":\"ret\",\"t\":%d,\"id\":%d,\"o\":\"P\",\"which\":%d,\"v\":%s}", p->tid, o->id, o->arg, a ? "true" : "false");
        return;
      }
    case 'f':
      if (later[o->arg] == NULL) return;
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"fulfil\",\"id\":%d,\"arg\":%d}", p->tid, o->id, o->arg);
      dst_point ();
      { DexPromise *pr = g_steal_pointer (&later[o->arg]); dex_promise_resolve_int (pr, o->arg); dex_unref (pr); }
      break;
    case 'g':
      if (later[o->arg] == NULL) return;
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"spoil\",\"id\":%d,\"arg\":%d}", p->tid, o->id, o->arg);
      dst_point ();
      { DexPromise *pr = g_steal_pointer (&later[o->arg]); dex_promise_reject (pr, g_error_new (G_IO_ERROR, 1000 + o->arg, "item %d", o->arg)); dex_unref (pr); }
      break;
    case 'u': /* the caller loses interest in a result */
      if (res[o->arg] == NULL) return;
      ev ("{\"e\":\"call\",\"t\":%d,\"op\":\"drop\",\"id\":%d,\"arg\":%d}", p->tid, o->id, o->arg);
      dst_point ();
      { DexFuture *x = g_steal_pointer (&res[o->arg]); dex_unref (x); }
      break;
    }
  dst_point ();
  char b[8000] = "P";
  if (strchr ("sxlra", o->op)) outcome (o->id, b, sizeof b);
  ev ("{\"e\":\"ret\",\"t\":%d,\"id\":%d,\"o\":\"%s\"}", p->tid, o->id, b);
}

static void
snap (void)
{
  GString *s = g_string_new ("{\"e\":\"snap\",\"r\":[");
  gboolean first = TRUE;
  char b[8000];
  for (int i = 1; i <= nids; i++)
    {
      if (!res[i]) continue;
      outcome (i, b, sizeof b);
      g_string_append_printf (s, "%s[%d,\"%s\"]", first ? "" : ",", i, b);
      first = FALSE;
    }
  g_string_append (s, "]}");
  ev ("%s", s->str);
  g_string_free (s, TRUE);
}

static gpointer
worker (gpointer d)
{
  Prog *p = d;
  for (int i = 0; i < p->n; i++) exec_op (p, &p->ops[i]);
  return NULL;
}

static void
finish (void)
{
  char b[8000];
  /* the channel goes away while results are still held: every one must settle */
  ev ("{\"e\":\"call\",\"t\":0,\"op\":\"free\",\"id\":0}");
  dex_unref (ch); ch = NULL;
  ev ("{\"e\":\"ret\",\"t\":0,\"id\":0,\"o\":\"P\"}");
  snap ();
  for (int i = 1; i <= nids; i++) { dex_clear (&res[i]); dex_clear (&later[i]); }
  drv_settle ();
  gint64 d = drv_live_delta (b, sizeof b);
  ev ("{\"e\":\"end\",\"leak\":%d,\"what\":\"%s\"}", (int)d, b);
}

/* program text: "cap;ops" with ops like s1 l2 r3 a4 C5 D6 f7.2 q8.1 u9.3 */
static int
parse_ops (const char *s, Op *o)
{
  int n = 0;
  while (*s)
    {
      if (*s == ' ') { s++; continue; }
      char *e;
      o[n].op = *s++;
      o[n].id = strtol (s, &e, 10); s = e; o[n].arg = 0;
      if (*s == '.') { o[n].arg = strtol (s + 1, &e, 10); s = e; }
      if (o[n].id > nids) nids = o[n].id;
      n++;
    }
  return n;
}

static void
gen (Run *r, Prog *p, int nt, const char *mode, gboolean big)
{
  Rng *g = &r->rng;
  gboolean close = strstr (mode, "close") != NULL && !(big && nt > 1);
  gboolean all = strstr (mode, "all") != NULL && !(big && nt > 1);
  int total = big ? 40 + rng_n (g, 120) : 4 + rng_n (g, 9), id = 0;
  int sendw = 20 + rng_n (g, 60);
  int dedicated = big ? nt == 2 : rng_p (g, 30);
  int own[4][MAXOPS], nown[4] = { 0 };
  int pend[MAXOPS], npend = 0, rs[MAXOPS], nr = 0;
  for (int k = 0; k < total; k++)
    {
      int t = rng_n (g, nt);
      Op *o = &p[t].ops[p[t].n];
      int x = rng_n (g, 100);
      o->id = ++id; o->arg = 0;
      if (close && k > (big ? total / 2 : 1) && rng_p (g, big ? 3 : 22)) o->op = rng_p (g, 65) ? 'C' : 'D';
      else if (close && rng_p (g, 8)) { o->op = 'q'; o->arg = rng_n (g, 2); }
      else if (all && rng_p (g, big ? 4 : 25)) o->op = 'a';
      else if (nown[t] && rng_p (g, 8)) { o->op = 'u'; o->arg = own[t][rng_n (g, nown[t])]; }
      else if (npend && rng_p (g, 15)) { o->op = rng_p (g, 70) ? 'f' : 'g'; o->arg = pend[--npend]; }
      else if (dedicated ? (t * 2 < nt) : (x < sendw))
        {
          if (rng_p (g, 20)) { o->op = 'l'; }
          else o->op = rng_p (g, 85) ? 's' : 'x';
        }
      else { o->op = 'r'; rs[nr++] = o->id; }
      /* only the thread that sent an item fulfils it, later in its own program */
      if (o->op == 'f' || o->op == 'g')
        {
          int found = -1;
          for (int i = 0; i < p[t].n; i++) if (p[t].ops[i].op == 'l' && p[t].ops[i].id == o->arg) found = i;
          if (found < 0) { pend[npend++] = o->arg; o->op = 'r'; o->arg = 0; }
        }
      if (o->op == 'l') pend[npend++] = o->id;
      if (strchr ("sxlra", o->op)) own[t][nown[t]++] = o->id;
      p[t].n++;
    }
  nids = id;
}

void
drv_run (Run *r)
{
  drv_live_baseline ();
  if (r->script)
    {
      static Op ops[MAXOPS];
      Prog p = { .tid = 1 };
      const char *semi = strchr (r->script, ';');
      int cap = atoi (r->script);
      DstConfig c = { .seed = 1, .max_points = 1000000 };
      int n = parse_ops (semi + 1, ops);
      drv_start_cfg (&c);
      ch = dex_channel_new (cap);
      ev ("{\"e\":\"cfg\",\"cap\":%d}", cap);
      for (int i = 0; i < n; i++) { exec_op (&p, &ops[i]); snap (); }
      finish ();
    }
  else
    {
      static Prog p[4];
      int nt = 2 + rng_n (&r->rng, 2), cap = rng_n (&r->rng, 3);
      GThread *th[4];
      gboolean big = rng_n (&r->rng, 40) == 0;
      if (big) nt = 1 + rng_p (&r->rng, 30);
      gen (r, p, nt, r->mode, big);
      if (big) cap = rng_p (&r->rng, 50) ? 0 : 1 + rng_n (&r->rng, 40);
      if (cap == 0 && rng_p (&r->rng, 50)) cap = 1;
      drv_start (r);
      ch = dex_channel_new (cap);
      ev ("{\"e\":\"cfg\",\"cap\":%d}", cap);
      for (int i = 0; i < nt; i++) { p[i].tid = i + 1; th[i] = g_thread_new ("w", worker, &p[i]); }
      for (int i = 0; i < nt; i++) g_thread_join (th[i]);
      snap ();
      for (int i = 1; i <= nids; i++)
        if (later[i])
          { Op o = { rng_p (&r->rng, 80) ? 'f' : 'g', 100, i }; Prog q = { .tid = 0 }; exec_op (&q, &o); }
      snap ();
      finish ();
    }
}
