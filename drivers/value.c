#define _GNU_SOURCE
/* Drives typed results (mode ""): every constructor and resolver against every
 * await, ready, pending, rejected, on threads and in fibers; and descriptors
 * (mode "fd"): boxes, promises, futures derived from them, awaits, duplicates. */
#include "vals.h"
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "dex-object-private.h"
#include "dex-future-private.h"
#include "dex-fd-private.h"

gboolean drv_fork_first = FALSE;
static gboolean m_fd;
static guint tmp_flags;
void
drv_init (const char *mode)
{
  m_fd = !strcmp (mode, "fd");
  dex_init ();
  vals_init ();
  g_object_unref (g_cancellable_new ());
  dex_unref (dex_promise_new ());
  g_type_ensure (DEX_TYPE_FD);
  dex_unref (dex_future_new_for_boolean (TRUE)); /* made once, kept */
  dex_unref (dex_future_first (dex_future_new_for_int (1), NULL));
  g_type_class_ref (dex_fiber_get_type ());
}
#define MAXF 40
typedef struct { DexFuture *f; gboolean promise, claimed; int busy, ready; } F;
static F fs[MAXF + 1];
static DexFuture *fibers[400];
static int nf, nfib, nops, budget, nl;
static Rng irng;
static gboolean over;
static Looper L[3];

/* ------------------------------------------------------------ typed results */
static const char ctors[] = "biulmfdsSpoOxvVECR";
static const char resolvers[] = "biulmLUfdsovVC";
static const char awaits[] = "piulmdfxvobsegDG";  /* D: dex_await, G: dex_future_get_value */

static GValue *
val_gvalue (const Val *v, GValue *g)
{
  gpointer p;
  g_value_init (g, v->type);
  switch (v->kind)
    {
    case 'b': g_value_set_boolean (g, v->n); break;
    case 'i': g_value_set_int (g, v->n); break;
    case 'u': g_value_set_uint (g, v->n); break;
    case 'l': g_value_set_int64 (g, v->n); break;
    case 'm': g_value_set_uint64 (g, v->n); break;
    case 'L': g_value_set_long (g, v->n); break;
    case 'U': g_value_set_ulong (g, v->n); break;
    case 'f': g_value_set_float (g, v->d); break;
    case 'd': g_value_set_double (g, v->d); break;
    case 'e': g_value_set_enum (g, v->n); break;
    case 'g': g_value_set_flags (g, v->n); break;
    case 'p': g_value_set_pointer (g, (gpointer)(gsize)v->n); break;
    case 's': p = val_own (v); g_value_take_string (g, p); break;
    case 'o': case 'O': p = val_own (v); g_value_take_object (g, p); break;
    case 'x': p = val_own (v); g_value_take_boxed (g, p); break;
    case 'v': p = val_own (v); g_value_take_variant (g, p); break;
    }
  return g;
}
static const char *content (const Val *v) { return strchr (v->text, ':') + 1; }
/* logs, with op in front, the type and content a future is given */
static void
given (int id, const char *op, int f, const char *ty, const char *c)
{
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"%s\",\"f\":%d,\"ty\":\"%s\",\"c\":\"%s\"}", id, dst_thread_id (), op, f, ty, c);
}
static void
do_new (char how)
{
  if (nf >= MAXF) return;
  int f = ++nf, id = ++nops;
  F *x = &fs[f];
  Val v;
  char k = how;
  char buf[64];
  DexFuture *r = NULL;
  x->busy = 1;
  if (how == 'P')
    {
      ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"promise\",\"f\":%d}", id, dst_thread_id (), f);
      r = (DexFuture *)(rng_p (&irng, 50) ? dex_promise_new () : dex_promise_new_cancellable ());
      x->promise = TRUE;
    }
  else if (how == 'E')
    {
      snprintf (buf, sizeof buf, "E:x%d", id);
      given (id, "new", f, "error", buf);
      r = dex_future_new_for_error (val_error (id));
    }
  else if (how == 'C')
    {
      int e = ((int[]) { ENOENT, EPERM, EINVAL, EPIPE, EEXIST, ECANCELED })[rng_n (&irng, 6)];
      GError *ge = g_error_new_literal (G_IO_ERROR, g_io_error_from_errno (e), "");
      err_format (ge, buf, sizeof buf);
      g_error_free (ge);
      given (id, "new", f, "error", buf);
      r = dex_future_new_for_errno (e);
    }
  else if (how == 'R')
    {
      snprintf (buf, sizeof buf, "E:x%d", id);
      given (id, "new", f, "error", buf);
      int code;
      GQuark q = val_error_code (id, &code);
      r = dex_future_new_reject (q, code, "x%d", id);
    }
  else
    {
      if (k == 'V') k = 0; else if (k == 'S') k = 's'; else if (k == 'O') k = 'o';
      v = val_make (&irng, k);
      if (how == 'o') v.null = FALSE;
      if (how == 'o' || how == 'O')
        {
          if (!v.null) v.type = vobj_type;
          if (v.null) snprintf (v.text, sizeof v.text, "GObject:null"); else snprintf (v.text, sizeof v.text, "VerifObj:%d", (int)v.n);
        }
      if (how == 'v' && v.null) v.null = FALSE;
      given (id, "new", f, g_type_name (v.type), content (&v));
      switch (how)
        {
        case 'b': r = dex_future_new_for_boolean (v.n); break;
        case 'i': r = dex_future_new_for_int (v.n); break;
        case 'u': r = dex_future_new_for_uint (v.n); break;
        case 'l': r = dex_future_new_for_int64 (v.n); break;
        case 'm': r = dex_future_new_for_uint64 (v.n); break;
        case 'f': r = dex_future_new_for_float (v.d); break;
        case 'd': r = dex_future_new_for_double (v.d); break;
        case 's': { char *s = val_own (&v); r = dex_future_new_for_string (s); if (s) memset (s, '#', strlen (s)); g_free (s); break; }
        case 'S': r = dex_future_new_take_string (val_own (&v)); break;
        case 'p': r = dex_future_new_for_pointer ((gpointer)(gsize)v.n); break;
        case 'o': { gpointer o = val_own (&v); r = dex_future_new_for_object (o); g_object_unref (o); break; }
        case 'O': r = dex_future_new_take_object (val_own (&v)); break;
        case 'x': r = dex_future_new_take_boxed (vbox_type, val_own (&v)); break;
        case 'v': r = dex_future_new_take_variant (val_own (&v)); break;
        case 'V': { GValue g = G_VALUE_INIT; r = dex_future_new_for_value (val_gvalue (&v, &g)); g_value_unset (&g); break; }
        }
    }
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
  x->f = r; x->busy = 0; x->ready = 1;
}
static void
do_resolve (int f, char how)
{
  F *x = &fs[f];
  if (!x->ready || !x->promise || !x->f) return;
  int id = ++nops;
  DexPromise *p = DEX_PROMISE (x->f);
  Val v;
  char k = how;
  char buf[64];
  x->busy++;
  if (how == 'C')
    {
      snprintf (buf, sizeof buf, "E:x%d", id);
      given (id, "resolve", f, "error", buf);
      dex_promise_reject (p, val_error (id));
    }
  else
    {
      v = val_make (&irng, k == 'V' ? 0 : k);
      if (how == 'o')
        {
          if (!v.null) v.type = vobj_type;
          if (v.null) snprintf (v.text, sizeof v.text, "GObject:null"); else snprintf (v.text, sizeof v.text, "VerifObj:%d", (int)v.n);
        }
      given (id, "resolve", f, g_type_name (v.type), content (&v));
      switch (how)
        {
        case 'b': dex_promise_resolve_boolean (p, v.n); break;
        case 'i': dex_promise_resolve_int (p, v.n); break;
        case 'u': dex_promise_resolve_uint (p, v.n); break;
        case 'l': dex_promise_resolve_int64 (p, v.n); break;
        case 'm': dex_promise_resolve_uint64 (p, v.n); break;
        case 'L': dex_promise_resolve_long (p, v.n); break;
        case 'U': dex_promise_resolve_ulong (p, v.n); break;
        case 'f': dex_promise_resolve_float (p, v.d); break;
        case 'd': dex_promise_resolve_double (p, v.d); break;
        case 's': dex_promise_resolve_string (p, val_own (&v)); break;
        case 'o': dex_promise_resolve_object (p, val_own (&v)); break;
        case 'v': dex_promise_resolve_variant (p, val_own (&v)); break;
        case 'V': { GValue g = G_VALUE_INIT; dex_promise_resolve (p, val_gvalue (&v, &g)); g_value_unset (&g); break; }
        }
    }
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
  x->busy--;
}
static void
await_now (int id, int f, DexFuture *fut, char k, gboolean in_fiber)
{
  GError *e = NULL;
  char r[80] = "", es[80] = "";
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"await\",\"f\":%d,\"k\":\"%c\",\"fiber\":%d}", id, dst_thread_id (), f, k, in_fiber && k != 'G'); /* G never waits */
  switch (k)
    {
    case 'p': snprintf (r, sizeof r, "%llu", (unsigned long long)(gsize)dex_await_pointer (fut, &e)); break;
    case 'i': snprintf (r, sizeof r, "%d", dex_await_int (fut, &e)); break;
    case 'u': snprintf (r, sizeof r, "%u", dex_await_uint (fut, &e)); break;
    case 'l': snprintf (r, sizeof r, "%lld", (long long)dex_await_int64 (fut, &e)); break;
    case 'm': snprintf (r, sizeof r, "%llu", (unsigned long long)dex_await_uint64 (fut, &e)); break;
    case 'd': snprintf (r, sizeof r, "%.17g", dex_await_double (fut, &e)); break;
    case 'f': snprintf (r, sizeof r, "%.9g", dex_await_float (fut, &e)); break;
    case 'x': { VBox *b = dex_await_boxed (fut, &e); if (b) snprintf (r, sizeof r, "%d", b->check == 4711 ? b->n : -1); else strcpy (r, "null"); if (b) vbox_free (b); break; }
    case 'v': { GVariant *v = dex_await_variant (fut, &e); if (v) snprintf (r, sizeof r, "%d", g_variant_get_int32 (v)); else strcpy (r, "null"); g_clear_pointer (&v, g_variant_unref); break; }
    case 'o': { GObject *o = dex_await_object (fut, &e); if (o) snprintf (r, sizeof r, "%d", G_OBJECT_TYPE (o) == vobj_type ? ((VObj *)o)->n : -1); else strcpy (r, "null"); g_clear_object (&o); break; }
    case 'b': snprintf (r, sizeof r, "%d", dex_await_boolean (fut, &e)); break;
    case 's': { char *s = dex_await_string (fut, &e); snprintf (r, sizeof r, "%s", s ? s : "null"); g_free (s); break; }
    case 'e': snprintf (r, sizeof r, "%d", (int)dex_await_enum (fut, &e)); break;
    case 'g': snprintf (r, sizeof r, "%u", dex_await_flags (fut, &e)); break;
    case 'F': snprintf (r, sizeof r, "%d", dex_await_fd (fut, &e)); break;
    case 'D': snprintf (r, sizeof r, "%d", dex_await (fut, &e)); break;
    case 'G':
      { const GValue *v = dex_future_get_value (fut, &e);
        if (v) { char t[80]; val_format (v, t, sizeof t); snprintf (r, sizeof r, "%s", t); } else strcpy (r, "null");
        dex_unref (fut); break; }
    }
  if (e) err_format (e, es, sizeof es);
  g_clear_error (&e);
  ev ("{\"e\":\"ret\",\"id\":%d,\"r\":\"%s\",\"err\":\"%s\"}", id, r, es);
}
typedef struct { int id, f; DexFuture *fut; char k; } Aw;
static DexFuture *
fiber_func (gpointer d)
{
  Aw *a = d;
  await_now (a->id, a->f, g_steal_pointer (&a->fut), a->k, TRUE);
  return NULL;
}
static void
do_await (int f, char k, gboolean fiber)
{
  F *x = &fs[f];
  if (!x->ready || !x->f) return;
  x->busy++;
  DexFuture *fut = dex_ref (x->f);
  int id = ++nops;
  if (!fiber || nfib + 1 >= (int)G_N_ELEMENTS (fibers)) await_now (id, f, fut, k, FALSE);
  else
    {
      Aw *a = g_new (Aw, 1);
      *a = (Aw) { id, f, fut, k };
      int n = nfib++;
      fibers[n] = dex_scheduler_spawn (L[rng_n (&irng, nl)].sched, 0, fiber_func, a, g_free);
    }
  x->busy--;
}
static void
do_drop (int f)
{
  F *x = &fs[f];
  if (!x->ready || !x->f || x->busy) return;
  x->busy++;
  gboolean pending = x->promise && dex_future_get_status (x->f) == DEX_FUTURE_STATUS_PENDING;
  x->busy--;
  if (pending) return; /* a fiber may await it */
  if (!x->f || x->busy) return;
  DexFuture *g = g_steal_pointer (&x->f);
  dex_unref (g);
}
static void
act (void)
{
  if (budget <= 0 || over) return;
  budget--;
  int w = rng_n (&irng, 100), f = nf ? 1 + rng_n (&irng, nf) : 0;
  if (!f || w < 25) do_new (rng_p (&irng, 40) ? 'P' : ctors[rng_n (&irng, sizeof ctors - 1)]);
  else if (w < 40) do_resolve (f, resolvers[rng_n (&irng, sizeof resolvers - 1)]);
  else if (w < 93) do_await (f, awaits[rng_n (&irng, sizeof awaits - 1)], rng_p (&irng, 50));
  else if (rng_p (&irng, 50)) do_drop (f);
}
/* ---------------------------------------------------------------- descriptors */
#define MAXK 10
#define MAXB 30
static ino_t inos[MAXK + 1];
static int nk;
typedef struct { DexFD *b; gboolean ready; int busy; } B;
static B bs[MAXB + 1];
static int nb;
static int (*r_close) (int);
int
close (int fd)
{
  int r = r_close ? r_close (fd) : syscall (3 /* close */, fd), e = errno;
  if (r < 0 && e == EBADF && m_fd && nk) ev ("{\"e\":\"bad\",\"what\":\"closed %d which is not open\"}", fd);
  errno = e;
  return r;
}
static int which (int fd) { struct stat s; if (fd < 0 || fstat (fd, &s)) return 0; for (int k = 1; k <= nk; k++) if (inos[k] == s.st_ino) return k; return 0; }
static int
fd_open (void)
{
  struct stat s;
  if (nk >= MAXK) return -1;
  if (nk == 0 && rng_p (&irng, 25)) close (0); /* 0 is a descriptor like any other */
  int fd = memfd_create ("verif", 0);
  fstat (fd, &s);
  inos[++nk] = s.st_ino;
  return fd;
}
static void
fd_count (void)
{
  char b[200]; int n[MAXK + 1] = { 0 }; gsize o = 0;
  for (int fd = 0; fd < 300; fd++) n[which (fd)]++;
  b[0] = 0;
  for (int k = 1; k <= nk; k++) o += snprintf (b + o, sizeof b - o, "%s%d", k > 1 ? "," : "", n[k]);
  ev ("{\"e\":\"count\",\"n\":[%s]}", b);
}
/* a raw descriptor that some thread owns is closed straight away */
static void
fd_close (int fd)
{
  int k = which (fd);
  if (k) ev ("{\"e\":\"close\",\"k\":%d}", k);
  if (fd >= 0) close (fd);
}
static int
box_new (DexFD *b)
{
  int n = ++nb;
  bs[n].b = b; bs[n].ready = TRUE;
  return n;
}
static void
fd_call (int id, const char *op, int x, int f)
{
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"%s\",\"x\":%d,\"f\":%d}", id, dst_thread_id (), op, x, f);
}
static void fd_ret (int id, int k) { ev ("{\"e\":\"ret\",\"id\":%d,\"k\":%d}", id, k); }
static void
fd_do (char op, int f, int b)
{
  F *x = f ? &fs[f] : NULL;
  B *y = b ? &bs[b] : NULL;
  gboolean fok = x && x->ready && x->f, bok = y && y->ready && y->b && !y->busy;
  if (op == 'b' && nb < MAXB && nk < MAXK)            /* a box that owns a new descriptor */
    {
      int fd = fd_open (), k = nk, id = ++nops, n = ++nb;
      fd_call (id, "box", n, k);
      int *p = g_new (int, 1); *p = fd;
      bs[n].b = (DexFD *)p;
      fd_ret (id, 0);
      bs[n].ready = TRUE;
    }
  else if (op == 't' && nf < MAXF && nk < MAXK)      /* a future that is given a new descriptor */
    {
      int fd = fd_open (), k = nk, id = ++nops, n = ++nf;
      fd_call (id, "take", k, n);
      int *p = g_new (int, 1); *p = fd;
      fs[n].f = dex_future_new_take_boxed (DEX_TYPE_FD, p);
      fd_ret (id, 0);
      fs[n].ready = 1;
    }
  else if (op == 'p' && nf < MAXF)
    {
      int id = ++nops, n = ++nf;
      fd_call (id, "promise", 0, n);
      fs[n].f = (DexFuture *)dex_promise_new (); fs[n].promise = TRUE;
      fd_ret (id, 0);
      fs[n].ready = 1;
    }
  else if (op == 'r' && fok && x->promise)           /* the promise shares our descriptor */
    {
      int fd = rng_p (&irng, 90) ? fd_open () : -1, k = fd < 0 ? 0 : nk, id = ++nops;
      x->busy++;
      fd_call (id, "open", k, 0); fd_ret (id, 0); id = ++nops;
      fd_call (id, "resolve", k, f);
      dex_promise_resolve_fd (DEX_PROMISE (x->f), fd);
      fd_ret (id, 0);
      x->busy--;
      fd_close (fd);
    }
  else if (op == 'd' && fok && nf < MAXF)            /* one that takes the outcome of another */
    {
      int id = ++nops, n = ++nf;
      x->busy++;
      fd_call (id, "derive", n, f);
      fs[n].f = dex_future_first (dex_ref (x->f), NULL);
      fd_ret (id, 0);
      fs[n].ready = 1;
      x->busy--;
    }
  else if (op == 'a' && fok)                         /* await it: the descriptor becomes ours */
    {
      GError *e = NULL;
      int id = ++nops;
      x->busy++;
      fd_call (id, "await", 0, f);
      int fd = dex_await_fd (dex_ref (x->f), &e);
      fd_ret (id, which (fd));
      if (e && fd != -1) ev ("{\"e\":\"bad\",\"what\":\"descriptor with an error\"}");
      g_clear_error (&e);
      x->busy--;
      fd_close (fd);
    }
  else if (op == 'c' && fok && nb < MAXB)            /* a copy of its box */
    {
      GError *e = NULL;
      int id = ++nops, n = ++nb;
      x->busy++;
      fd_call (id, "copy", n, f);
      DexFD *d = dex_await_boxed (dex_ref (x->f), &e);
      g_clear_error (&e);
      fd_ret (id, which (dex_fd_peek (d)));
      bs[n].b = d; bs[n].ready = TRUE;
      x->busy--;
    }
  else if (op == 'k' && fok)                         /* look at it */
    {
      const GValue *v = NULL;
      int id = ++nops;
      x->busy++;
      fd_call (id, "peek", 0, f);
      if (dex_future_get_status (x->f) == DEX_FUTURE_STATUS_RESOLVED) v = dex_future_get_value (x->f, NULL);
      int fd = v ? dex_fd_peek (g_value_get_boxed (v)) : -1;
      fd_ret (id, which (fd));
      x->busy--;
    }
  else if (op == 'x' && fok && !x->busy)             /* the last owner of the future goes */
    {
      int id = ++nops;
      DexFuture *g = g_steal_pointer (&x->f);
      fd_call (id, "drop", 0, f);
      dex_unref (g);
      fd_ret (id, 0);
    }
  else if (op == 'D' && bok && nb < MAXB)
    {
      int id = ++nops, n = ++nb;
      y->busy++;
      fd_call (id, "dup", b, n);
      bs[n].b = dex_fd_dup (y->b);
      fd_ret (id, which (dex_fd_peek (bs[n].b)));
      bs[n].ready = TRUE;
      y->busy--;
    }
  else if (op == 's' && bok)
    {
      int id = ++nops;
      y->busy++;
      fd_call (id, "steal", b, 0);
      int fd = dex_fd_steal (y->b);
      fd_ret (id, which (fd));
      y->busy--;
      fd_close (fd);
    }
  else if (op == 'f' && bok)
    {
      int id = ++nops;
      DexFD *d = g_steal_pointer (&y->b);
      fd_call (id, "free", b, 0);
      dex_fd_free (d);
      fd_ret (id, 0);
    }
}
static void
fd_act (void)
{
  if (budget <= 0 || over) return;
  budget--;
  int f = nf ? 1 + rng_n (&irng, nf) : 0, b = nb ? 1 + rng_n (&irng, nb) : 0;
  fd_do ("bbttppprrrdddaaaacckkkxxDDssff"[rng_n (&irng, 30)], f, b);
}
/* ------------------------------------------------------------------------ run */
typedef struct { int n, spin; } Job;
static gpointer
plain (gpointer d)
{
  Job *j = d;
  while (j->n-- > 0)
    {
      if (m_fd) fd_act (); else act ();
      for (int s = 0; s < j->spin; s++) dst_point ();
    }
  return NULL;
}
static gboolean
step (Looper *l)
{
  Job *j = l->data;
  if (j->n <= 0) return FALSE;
  j->n--;
  if (m_fd) fd_act (); else act ();
  return j->n > 0;
}
static void
script (const char *s)
{
  while (*s)
    {
      char c = *s, h; int f;
      if (c == ' ') { s++; continue; }
      h = s[1];
      if (m_fd)
        {
          f = strtol (s + 1, (char **)&s, 10);
          fd_do (c, f, f);
          fd_count ();
          continue;
        }
      f = strtol (s + 2, (char **)&s, 10);
      switch (c)
        {
        case 'n': do_new (h); break;
        case 'r': do_resolve (f, h); break;
        case 'a': do_await (f, h, FALSE); break;
        case 'A': do_await (f, h, TRUE); break;
        }
      drv_settle ();
    }
}
void
drv_run (Run *r)
{
  Rng *g = &r->rng;
  static Job j[4], lj[3];
  GThread *th[4];
  char leak[256];
  irng = *g; rng_next (&irng);
  if (r->script) { r->seed = g_str_hash (r->script); rng_seed (&irng, r->seed); }
  int np = 1 + rng_n (&irng, 3), rounds = 1 + rng_n (&irng, 2);
  r_close = dlsym (RTLD_NEXT, "close");
  nl = 1 + rng_n (&irng, 2);
  drv_live_baseline ();
  drv_start (r);
  for (int k = 0; k < nl; k++) { lj[k] = (Job) { r->script ? 0 : rng_n (&irng, 8), 0 }; L[k].data = &lj[k]; L[k].step = step; }
  budget = r->script ? 0 : 10 + rng_n (&irng, 30);
  for (int k = 0; k < nl; k++) looper_start (&L[k]);
  if (r->script) script (r->script);
  else
    while (rounds-- > 0)
      {
        budget = 10 + rng_n (&irng, 30);
        for (int k = 0; k < np; k++)
          {
            j[k] = (Job) { 1 + rng_n (&irng, 16), rng_n (&irng, 4) };
            if (k) th[k] = g_thread_new ("p", plain, &j[k]);
          }
        plain (&j[0]);
        for (int k = 1; k < np; k++) g_thread_join (th[k]);
        drv_settle ();
        if (m_fd) fd_count ();
      }
  over = TRUE;
  for (int f = 1; f <= nf && !m_fd; f++) do_resolve (f, 'b');
  drv_settle ();
  for (int k = 0; k < nl; k++) looper_stop (&L[k]);
  for (int n = 0; n < nfib; n++) dex_clear (&fibers[n]);
  if (m_fd)
    {
      for (int f = 1; f <= nf; f++) if (fs[f].f) { int id = ++nops; fd_call (id, "drop", 0, f); dex_clear (&fs[f].f); fd_ret (id, 0); }
      fd_count ();
      for (int b = 1; b <= nb; b++) if (bs[b].b) { int id = ++nops; DexFD *d = bs[b].b; bs[b].b = NULL; fd_call (id, "free", b, 0); dex_fd_free (d); fd_ret (id, 0); }
      fd_count ();
    }
  for (int f = 1; f <= nf; f++) dex_clear (&fs[f].f);
  drv_settle ();
  int n = vals_end (leak, sizeof leak);
  ev ("{\"e\":\"end\",\"leak\":%d,\"types\":\"%s\"}", n, leak);
}
