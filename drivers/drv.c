#define _GNU_SOURCE
#include "drv.h"
#include <dlfcn.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <gio/gio.h>
#include "dex-main-scheduler-private.h"

#define LOGSZ (4u << 20)

/* ------------------------------------------------ live instance accounting */
static struct { GType t; volatile gint64 n, base; } live[256];
static int nlive;
void (*drv_on_free) (gpointer);
static GTypeInstance *(*r_create) (GType);
static void (*r_free) (GTypeInstance *);

static int
slot (GType t)
{
  for (int i = 0; i < nlive; i++) if (live[i].t == t) return i;
  if (nlive == 256) return 255;
  live[nlive].t = t; live[nlive].n = 0;
  return nlive++;
}

GTypeInstance *
g_type_create_instance (GType t)
{
  if (!r_create) r_create = dlsym (RTLD_NEXT, "g_type_create_instance");
  live[slot (t)].n++;
  return r_create (t);
}

void
g_type_free_instance (GTypeInstance *i)
{
  if (!r_free) r_free = dlsym (RTLD_NEXT, "g_type_free_instance");
  live[slot (G_TYPE_FROM_INSTANCE (i))].n--;
  if (drv_on_free) drv_on_free (i);
  r_free (i);
}

void drv_live_baseline (void) { for (int i = 0; i < nlive; i++) live[i].base = live[i].n; }

gint64
drv_live (const char *type)
{
  gint64 d = 0;
  for (int i = 0; i < nlive; i++) if (!strcmp (g_type_name (live[i].t), type)) d += live[i].n;
  return d;
}
gint64
drv_live_delta (char *buf, gsize n)
{
  gint64 d = 0; gsize o = 0;
  if (n) buf[0] = 0;
  for (int i = 0; i < nlive; i++)
    if (live[i].n != live[i].base)
      {
        gint64 x = live[i].n - live[i].base;
        d += x < 0 ? -x : x;
        if (o + 64 < n) o += snprintf (buf + o, n - o, "%s:%+d ", g_type_name (live[i].t), (int)x);
      }
  return d;
}

/* ----------------------------------------- memory handed over to the library */
static struct { void *p; int id, freed; } tracked[1024];
static int ntracked;
extern void __libc_free (void *);
void
free (void *p)
{
  if (p && ntracked)
    for (int i = 0; i < ntracked; i++)
      if (tracked[i].p == p)
        {
          /* kept, so that it is never handed out again and a second release is noticed */
          if (tracked[i].freed++ == 0) memset (p, 'Z', strnlen (p, 8));
          return;
        }
  __libc_free (p);
}
void
drv_track (void *p, int id)
{
  for (int i = 0; i < ntracked; i++) if (tracked[i].p == p) return;
  if (ntracked == G_N_ELEMENTS (tracked)) abort ();
  tracked[ntracked].id = id; tracked[ntracked].freed = 0; tracked[ntracked].p = p;
  ntracked++;
}
void
drv_track_report (int *never, int *twice)
{
  *never = *twice = 0;
  for (int i = 0; i < ntracked; i++)
    {
      *never += tracked[i].freed == 0;
      *twice += tracked[i].freed > 1;
    }
}

/* ------------------------------------------------------------- outcomes */
const char *
drv_err (const GError *e)
{
  static __thread char b[96];
  if (!e) return "none";
  if (e->domain == DEX_ERROR)
    {
      static const char *n[] = { "UNKNOWN", "CHANNEL_CLOSED", "DEPENDENCY_FAILED", "FIBER_EXITED", "NO_FIBER", "PENDING",
                                 "SEMAPHORE_CLOSED", "TIMED_OUT", "TYPE_MISMATCH", "TYPE_NOT_SUPPORTED", "FIBER_CANCELLED", "?", "?" };
      /* names by value, so that the drivers do not depend on the enumeration order */
      switch ((int)e->code)
        {
        case DEX_ERROR_UNKNOWN: return n[0];
        case DEX_ERROR_CHANNEL_CLOSED: return n[1];
        case DEX_ERROR_DEPENDENCY_FAILED: return n[2];
        case DEX_ERROR_FIBER_EXITED: return n[3];
        case DEX_ERROR_NO_FIBER: return n[4];
        case DEX_ERROR_PENDING: return n[5];
        case DEX_ERROR_SEMAPHORE_CLOSED: return n[6];
        case DEX_ERROR_TIMED_OUT: return n[7];
        case DEX_ERROR_TYPE_MISMATCH: return n[8];
        case DEX_ERROR_TYPE_NOT_SUPPORTED: return n[9];
        case DEX_ERROR_FIBER_CANCELLED: return n[10];
        default: break;
        }
    }
  if (e->domain == G_IO_ERROR && e->code == G_IO_ERROR_CANCELLED) return "CANCELLED";
  snprintf (b, sizeof b, "%s.%d", g_quark_to_string (e->domain), e->code);
  return b;
}

void
drv_value (const GValue *v, char *b, gsize n)
{
  GType t = G_VALUE_TYPE (v);
  switch (G_TYPE_FUNDAMENTAL (t))
    {
    case G_TYPE_BOOLEAN: snprintf (b, n, "%s", g_value_get_boolean (v) ? "true" : "false"); return;
    case G_TYPE_INT: snprintf (b, n, "i%d", g_value_get_int (v)); return;
    case G_TYPE_UINT: snprintf (b, n, "u%u", g_value_get_uint (v)); return;
    case G_TYPE_INT64: snprintf (b, n, "l%lld", (long long)g_value_get_int64 (v)); return;
    case G_TYPE_UINT64: snprintf (b, n, "ul%llu", (unsigned long long)g_value_get_uint64 (v)); return;
    case G_TYPE_LONG: snprintf (b, n, "L%ld", g_value_get_long (v)); return;
    case G_TYPE_ULONG: snprintf (b, n, "UL%lu", g_value_get_ulong (v)); return;
    case G_TYPE_FLOAT: snprintf (b, n, "f%g", g_value_get_float (v)); return;
    case G_TYPE_DOUBLE: snprintf (b, n, "d%g", g_value_get_double (v)); return;
    case G_TYPE_STRING: snprintf (b, n, "s%s", g_value_get_string (v)); return;
    default: snprintf (b, n, "%s", g_type_name (t)); return;
    }
}

void
drv_outcome (DexFuture *f, char *b, gsize n)
{
  GError *e = NULL;
  const GValue *v;
  switch (dex_future_get_status (f))
    {
    case DEX_FUTURE_STATUS_PENDING: snprintf (b, n, "P"); return;
    case DEX_FUTURE_STATUS_RESOLVED:
      v = dex_future_get_value (f, &e);
      if (v && !e) drv_value (v, b, n); else snprintf (b, n, "BAD-RESOLVED");
      g_clear_error (&e);
      return;
    case DEX_FUTURE_STATUS_REJECTED:
      v = dex_future_get_value (f, &e);
      if (!v && e) snprintf (b, n, "E:%s", drv_err (e)); else snprintf (b, n, "BAD-REJECTED");
      g_clear_error (&e);
      return;
    default: snprintf (b, n, "BAD-STATUS"); return;
    }
}

void
drv_settle (void)
{
  for (int quiet = 0; quiet < 2;)
    {
      gboolean did = FALSE;
      while (g_main_context_iteration (NULL, FALSE)) did = TRUE;
      dst_quiesce ();
      if (g_main_context_iteration (NULL, FALSE)) did = TRUE;
      quiet = did ? 0 : quiet + 1;
    }
}

/* -------------------------------------------------------------- loopers */
static gboolean
looper_step (gpointer d)
{
  Looper *l = d;
  return l->step && l->step (l);
}

static gpointer
looper_thread (gpointer d)
{
  Looper *l = d;
  GSource *s;
  g_main_context_push_thread_default (l->ctx);
  l->tid = dst_thread_id ();
  l->sched = (DexScheduler *)dex_main_scheduler_new (l->ctx);
  s = g_idle_source_new ();
  g_source_set_priority (s, G_PRIORITY_DEFAULT);
  g_source_set_callback (s, looper_step, l, NULL);
  g_source_attach (s, l->ctx);
  g_source_unref (s);
  g_mutex_lock (&l->mutex); l->ready = TRUE; g_cond_signal (&l->cond); g_mutex_unlock (&l->mutex);
  g_main_loop_run (l->loop);
  if (l->last) l->last (l);
  dex_unref (l->sched); /* what is still queued runs now */
  g_main_context_pop_thread_default (l->ctx);
  return NULL;
}

void
looper_start (Looper *l)
{
  l->ctx = g_main_context_new ();
  l->loop = g_main_loop_new (l->ctx, FALSE);
  l->ready = FALSE;
  g_mutex_init (&l->mutex); g_cond_init (&l->cond);
  l->thread = g_thread_new ("looper", looper_thread, l);
  g_mutex_lock (&l->mutex); while (!l->ready) g_cond_wait (&l->cond, &l->mutex); g_mutex_unlock (&l->mutex);
}

static gboolean looper_quit (gpointer d) { g_main_loop_quit (((Looper *)d)->loop); return G_SOURCE_REMOVE; }
void
looper_stop (Looper *l)
{
  GSource *s = g_idle_source_new ();
  g_source_set_priority (s, G_MAXINT);
  g_source_set_callback (s, looper_quit, l, NULL);
  g_source_attach (s, l->ctx);
  g_source_unref (s);
  g_thread_join (l->thread);
  g_main_loop_unref (l->loop);
  g_main_context_unref (l->ctx);
}

/* ------------------------------------------------------------- run loop */
static char *shared;
static void
on_stall (const char *why)
{
  char b[200];
  dst_lock_waiters (b, sizeof b);
  dst_log ("{\"e\":\"stall\",\"why\":\"%s\",\"locked\":\"%s\"}", why, b);
  if (g_getenv ("DST_ABORT")) abort ();
  _exit (77);
}

static void
log_esc (const char *k, const char *m)
{
  char b[400]; gsize o = 0;
  for (; *m && o < sizeof b - 2; m++) b[o++] = (*m == '"' || *m == '\\' || (guchar)*m < 32) ? '\'' : *m;
  b[o] = 0;
  dst_log ("{\"e\":\"%s\",\"msg\":\"%s\"}", k, b);
}

static GLogWriterOutput
log_writer (GLogLevelFlags level, const GLogField *f, gsize n, gpointer d)
{
  if (level & (G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_ERROR | G_LOG_LEVEL_WARNING))
    for (gsize i = 0; i < n; i++)
      if (!strcmp (f[i].key, "MESSAGE")) log_esc (level & G_LOG_LEVEL_WARNING ? "warning" : "critical", f[i].value);
  return G_LOG_WRITER_HANDLED;
}

static void
print_err (const char *s)
{
  if (shared) log_esc ("assert", s);
}

gboolean drv_tso, drv_is_tso;
void drv_start_cfg (const DstConfig *c) { dst_on_stall = on_stall; dst_start (c); }
void
drv_start (Run *r)
{
  DstConfig c;
  dst_config_from_seed (&c, r->seed);
  c.tso = drv_is_tso = drv_tso && rng_p (&r->rng, 50);
  if (g_getenv ("DST_SETTLE")) c.settle_ms = atoi (g_getenv ("DST_SETTLE"));
  drv_start_cfg (&c);
}

int
main (int argc, char **argv)
{
  const char *out = NULL, *script = NULL, *mode = "";
  guint64 seed = 1; int runs = 1, cpu = -1; 
  FILE *fo, *fs = NULL;
  char *line = NULL; size_t cap = 0;

  for (int i = 1; i < argc; i++)
    {
      if (!strcmp (argv[i], "--out")) out = argv[++i];
      else if (!strcmp (argv[i], "--script")) script = argv[++i];
      else if (!strcmp (argv[i], "--mode")) mode = argv[++i];
      else if (!strcmp (argv[i], "--seed")) seed = strtoull (argv[++i], NULL, 10);
      else if (!strcmp (argv[i], "--runs")) runs = atoi (argv[++i]);
      else if (!strcmp (argv[i], "--cpu")) cpu = atoi (argv[++i]);
    }
  if (cpu >= 0)
    {
      cpu_set_t s; CPU_ZERO (&s); CPU_SET (cpu, &s);
      sched_setaffinity (0, sizeof s, &s);
    }
  fo = out ? fopen (out, "w") : stdout;
  if (!fo) { perror (out); return 3; }
  if (script && !(fs = fopen (script, "r"))) { perror (script); return 3; }
  shared = mmap (NULL, LOGSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_log_set_writer_func (log_writer, NULL, NULL);
  g_set_printerr_handler (print_err);
  if (!drv_fork_first) drv_init (mode);

  for (int i = 0; fs || i < runs; i++)
    {
      int status = 0;
      if (fs)
        {
          ssize_t l = getline (&line, &cap, fs);
          if (l < 0) break;
          while (l > 0 && line[l - 1] == '\n') line[--l] = 0;
        }
      dst_log_init (shared, LOGSZ);
      fflush (fo);
      pid_t pid = fork ();
      if (pid < 0) { perror ("fork"); return 3; }
      if (pid == 0)
        {
          Run r = { argc, argv, mode, seed + i, fs ? line : NULL, { 0 } };
          alarm (60);
          rng_seed (&r.rng, seed + i);
          if (drv_fork_first) drv_init (mode);
          drv_run (&r);
          dst_stop ();
          _exit (0);
        }
      while (waitpid (pid, &status, 0) < 0 && errno == EINTR) ;
      fprintf (fo, "[{\"e\":\"run\",\"seed\":%llu,\"n\":%d}", (unsigned long long)seed + i, i);
      size_t n = *(size_t *)shared; char *b = shared + sizeof (size_t);
      char *s = b;
      for (size_t k = 0; k < n; k++)
        if (b[k] == '\n') { fputc (',', fo); fwrite (s, 1, b + k - s, fo); s = b + k + 1; }
      if (WIFSIGNALED (status)) fprintf (fo, ",{\"e\":\"crash\",\"sig\":%d}", WTERMSIG (status));
      else if (WEXITSTATUS (status) != 0 && WEXITSTATUS (status) != 77) fprintf (fo, ",{\"e\":\"exit\",\"code\":%d}", WEXITSTATUS (status));
      fprintf (fo, "]\n");
    }
  fclose (fo);
  return 0;
}
