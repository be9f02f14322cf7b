/* Drives the wrappers of GIO operations.  The operations themselves are stand-ins
 * defined here: they record with what they were called, and deliver the result
 * chosen by the driver when it says so.  Nothing outside the process is touched. */
#include "vals.h"
#include "dex-object-private.h"
#include "dex-future-private.h"
#include <gio/gunixfdlist.h>

gboolean drv_fork_first = FALSE;
enum { READ_BYTES, READ, SKIP, ICLOSE, WRITE_BYTES, WRITE, OCLOSE, SPLICE, FREAD, REPLACE, INFO, MKDIR, CHILDREN, COPY, LOAD, EXISTS, NEXT,
       ACCEPT, CONNECT, SCLOSE, LOOKUP, MESSAGE, CALL, CALL_FDS, BUS, WAIT, NFN };
static const char *names[NFN] = { "input_stream_read_bytes", "input_stream_read", "input_stream_skip", "input_stream_close",
  "output_stream_write_bytes", "output_stream_write", "output_stream_close", "output_stream_splice",
  "file_read", "file_replace", "file_query_info", "file_make_directory", "file_enumerate_children", "file_copy", "file_load_contents", "file_query_exists",
  "file_enumerator_next_files", "socket_listener_accept", "socket_client_connect", "io_stream_close", "resolver_lookup_by_name",
  "dbus_connection_send_message_with_reply", "dbus_connection_call", "dbus_connection_call_with_unix_fd_list", "bus_get", "subprocess_wait_check" };
static GType resolver_type, enumerator_type, stream_type, connection_type;
static GQuark num;

#define MAXX 12
#define MAXD 40
typedef struct {
  DexFuture *f; GCancellable *c; int fn, busy, gone, ready, invoked;
  GObject *inst, *second;
  GAsyncReadyCallback cb; gpointer data; /* of the operation, until delivered */
  GBytes *bytes; GVariant *variant; char buf[8]; guint32 serial, serial_set; guint32 *serial_at;
} X;
static X xs[MAXX + 1];
typedef struct { DexFuture *f; int x, busy; } D;
static D ds[MAXD + 1];
static int nx, nd, nops, budget, maxx, nobj, nres;
static Rng irng;
static gboolean over;
static __thread X *starting;

/* ------------------------------------------------ texts of arguments and results */
static __thread char texts[16][200];
static __thread int ntext;
static char *slot (void) { return texts[ntext++ % 16]; }
static const char *U (guint64 n) { char *s = slot (); snprintf (s, 200, "%" G_GUINT64_FORMAT, n); return s; }
static const char *I (int n) { char *s = slot (); snprintf (s, 200, "%d", n); return s; }
static const char *T (const char *t) { return t ? t : "null"; }
static int number (gpointer o) { return GPOINTER_TO_INT (g_object_get_qdata (o, num)); }
static gpointer numbered (gpointer o) { g_object_set_qdata (o, num, GINT_TO_POINTER (++nobj)); return o; }
static const char *O (gpointer o) { char *s = slot (); snprintf (s, 200, "%s", "null"); if (o) snprintf (s, 200, "o%d", number (o)); return s; }
static const char *P (gconstpointer p)
{
  char *s = slot ();
  for (int x = 1; x <= nx; x++) if (p == xs[x].buf) { snprintf (s, 200, "buffer%d", x); return s; }
  return p ? "stray" : "null";
}
static const char *
B (GBytes *b)
{
  char *s = slot ();
  gsize n;
  const guint8 *d = g_bytes_get_data (b, &n);
  gsize o = snprintf (s, 200, "%d.", (int)n);
  for (gsize k = 0; k < n && o < 190; k++) o += snprintf (s + o, 200 - o, "%02x", d[k]);
  return s;
}
static const char *V (GVariant *v) { char *s = slot (); if (!v) return "null"; char *p = g_variant_print (v, TRUE); snprintf (s, 200, "%s", p); g_free (p); return s; }
static const char *L (GList *l) { char *s = slot (); gsize o = 0; s[0] = 0; for (; l; l = l->next) o += snprintf (s + o, 200 - o, "%s,", O (l->data)); return s; }

/* -------------------------------------------------------------------- stand-ins */
static void
args_json (char *b, gsize n, const char **a)
{
  gsize o = snprintf (b, n, "[");
  for (int k = 0; a[k]; k++) o += snprintf (b + o, n - o, "%s\"%s\"", k ? "," : "", a[k]);
  snprintf (b + o, n - o, "]");
}
static void
invoked (const char *fn, GCancellable *c, GAsyncReadyCallback cb, gpointer data, const char **a)
{
  X *x = starting;
  char b[1200];
  if (!x || x->invoked++) { ev ("{\"e\":\"bad\",\"what\":\"invoked\"}"); return; }
  args_json (b, sizeof b, a);
  ev ("{\"e\":\"invoke\",\"x\":%d,\"fn\":\"%s\",\"args\":%s,\"can\":%d}", (int)(x - xs), fn, b, c != NULL);
  if (c) x->c = g_object_ref (c);
  x->cb = cb; x->data = data;
}
#define ARGS(...) (const char *[]) { __VA_ARGS__, NULL }
#define STANDIN(N, PARAMS, ...) void N PARAMS { invoked (#N, c, cb, d, ARGS (__VA_ARGS__)); }
#define TAIL GCancellable *c, GAsyncReadyCallback cb, gpointer d
STANDIN (g_input_stream_read_bytes_async, (GInputStream *s, gsize n, int p, TAIL), O (s), U (n), I (p))
STANDIN (g_input_stream_read_async, (GInputStream *s, void *b, gsize n, int p, TAIL), O (s), P (b), U (n), I (p))
STANDIN (g_input_stream_skip_async, (GInputStream *s, gsize n, int p, TAIL), O (s), U (n), I (p))
STANDIN (g_input_stream_close_async, (GInputStream *s, int p, TAIL), O (s), I (p))
STANDIN (g_output_stream_write_bytes_async, (GOutputStream *s, GBytes *b, int p, TAIL), O (s), B (b), I (p))
STANDIN (g_output_stream_write_async, (GOutputStream *s, const void *b, gsize n, int p, TAIL), O (s), P (b), U (n), I (p))
STANDIN (g_output_stream_close_async, (GOutputStream *s, int p, TAIL), O (s), I (p))
STANDIN (g_output_stream_splice_async, (GOutputStream *s, GInputStream *i, GOutputStreamSpliceFlags f, int p, TAIL), O (s), O (i), U (f), I (p))
STANDIN (g_file_read_async, (GFile *f, int p, TAIL), O (f), I (p))
STANDIN (g_file_replace_async, (GFile *f, const char *e, gboolean b, GFileCreateFlags fl, int p, TAIL), O (f), T (e), I (b), U (fl), I (p))
STANDIN (g_file_query_info_async, (GFile *f, const char *a, GFileQueryInfoFlags fl, int p, TAIL), O (f), T (a), U (fl), I (p))
STANDIN (g_file_make_directory_async, (GFile *f, int p, TAIL), O (f), I (p))
STANDIN (g_file_enumerate_children_async, (GFile *f, const char *a, GFileQueryInfoFlags fl, int p, TAIL), O (f), T (a), U (fl), I (p))
STANDIN (g_file_copy_async, (GFile *f, GFile *g, GFileCopyFlags fl, int p, GCancellable *c, GFileProgressCallback pc, gpointer pd, GAsyncReadyCallback cb, gpointer d), O (f), O (g), U (fl), I (p))
STANDIN (g_file_load_contents_async, (GFile *f, TAIL), O (f))
STANDIN (g_file_enumerator_next_files_async, (GFileEnumerator *e, int n, int p, TAIL), O (e), I (n), I (p))
STANDIN (g_socket_listener_accept_async, (GSocketListener *l, TAIL), O (l))
STANDIN (g_socket_client_connect_async, (GSocketClient *s, GSocketConnectable *k, TAIL), O (s), O (k))
STANDIN (g_io_stream_close_async, (GIOStream *s, int p, TAIL), O (s), I (p))
STANDIN (g_resolver_lookup_by_name_async, (GResolver *r, const char *a, TAIL), O (r), T (a))
STANDIN (g_bus_get, (GBusType t, TAIL), I (t))
STANDIN (g_subprocess_wait_check_async, (GSubprocess *s, TAIL), O (s))
void
g_dbus_connection_send_message_with_reply (GDBusConnection *k, GDBusMessage *m, GDBusSendMessageFlags f, int t, volatile guint32 *serial, TAIL)
{
  if (starting) starting->serial_at = (guint32 *)serial;
  if (serial) *serial = starting ? starting->serial_set : 0;
  invoked ("g_dbus_connection_send_message_with_reply", c, cb, d, ARGS (O (k), O (m), U (f), I (t), I (serial != NULL)));
}
static void
sink (GVariant *v)
{
  if (v) { g_variant_ref_sink (v); g_variant_unref (v); }
}
void
g_dbus_connection_call (GDBusConnection *k, const char *b, const char *o, const char *i, const char *m, GVariant *p, const GVariantType *r, GDBusCallFlags f, int t, TAIL)
{
  invoked ("g_dbus_connection_call", c, cb, d, ARGS (O (k), T (b), T (o), T (i), T (m), V (p), T ((const char *)r), U (f), I (t)));
  sink (p);
}
void
g_dbus_connection_call_with_unix_fd_list (GDBusConnection *k, const char *b, const char *o, const char *i, const char *m, GVariant *p, const GVariantType *r, GDBusCallFlags f, int t, GUnixFDList *l, TAIL)
{
  invoked ("g_dbus_connection_call_with_unix_fd_list", c, cb, d, ARGS (O (k), T (b), T (o), T (i), T (m), V (p), T ((const char *)r), U (f), I (t), O (l)));
  sink (p);
}

/* what an operation has delivered waits in the task until its finish function */
typedef struct { int x; const char *fin; GError *e; gssize n; gpointer p; GList *l; gsize len; gpointer fds; int taken; } Res;
static void
res_free (gpointer d)
{
  Res *r = d;
  if (!r->taken) ev ("{\"e\":\"bad\",\"what\":\"unfinished\"}");
  g_free (r);
}
static Res *
take (gpointer inst, GAsyncResult *t, const char *fin, GError **e)
{
  static Res none;
  Res *r = G_IS_TASK (t) ? g_task_get_task_data (G_TASK (t)) : NULL;
  if (!r || strcmp (r->fin, fin) || r->taken++ || inst != g_task_get_source_object (G_TASK (t)))
    {
      ev ("{\"e\":\"bad\",\"what\":\"%s\"}", fin);
      memset (&none, 0, sizeof none);
      return &none;
    }
  if (r->e && e) { g_propagate_error (e, r->e); r->e = NULL; }
  else if (r->e) g_clear_error (&r->e);
  return r;
}
#define FIN(T, N, I, F) T N (I *s, GAsyncResult *t, GError **e) { Res *r = take (s, t, #N, e); return (T)r->F; }
FIN (GBytes *, g_input_stream_read_bytes_finish, GInputStream, p)
FIN (gssize, g_input_stream_read_finish, GInputStream, n)
FIN (gssize, g_input_stream_skip_finish, GInputStream, n)
FIN (gboolean, g_input_stream_close_finish, GInputStream, n)
FIN (gssize, g_output_stream_write_bytes_finish, GOutputStream, n)
FIN (gssize, g_output_stream_write_finish, GOutputStream, n)
FIN (gboolean, g_output_stream_close_finish, GOutputStream, n)
FIN (gssize, g_output_stream_splice_finish, GOutputStream, n)
FIN (GFileInputStream *, g_file_read_finish, GFile, p)
FIN (GFileOutputStream *, g_file_replace_finish, GFile, p)
FIN (GFileInfo *, g_file_query_info_finish, GFile, p)
FIN (gboolean, g_file_make_directory_finish, GFile, n)
FIN (GFileEnumerator *, g_file_enumerate_children_finish, GFile, p)
FIN (gboolean, g_file_copy_finish, GFile, n)
FIN (GList *, g_file_enumerator_next_files_finish, GFileEnumerator, l)
FIN (GSocketConnection *, g_socket_client_connect_finish, GSocketClient, p)
FIN (gboolean, g_io_stream_close_finish, GIOStream, n)
FIN (GList *, g_resolver_lookup_by_name_finish, GResolver, l)
FIN (GDBusMessage *, g_dbus_connection_send_message_with_reply_finish, GDBusConnection, p)
FIN (GVariant *, g_dbus_connection_call_finish, GDBusConnection, p)
FIN (gboolean, g_subprocess_wait_check_finish, GSubprocess, n)
GDBusConnection *g_bus_get_finish (GAsyncResult *t, GError **e) { return take (NULL, t, "g_bus_get_finish", e)->p; }
GSocketConnection *
g_socket_listener_accept_finish (GSocketListener *s, GAsyncResult *t, GObject **source, GError **e)
{
  Res *r = take (s, t, "g_socket_listener_accept_finish", e);
  if (source) *source = NULL;
  return r->p;
}
gboolean
g_file_load_contents_finish (GFile *f, GAsyncResult *t, char **contents, gsize *len, char **etag, GError **e)
{
  Res *r = take (f, t, "g_file_load_contents_finish", e);
  if (contents) *contents = r->p; else g_free (r->p);
  if (len) *len = r->len;
  if (etag) *etag = NULL;
  return r->n;
}
GVariant *
g_dbus_connection_call_with_unix_fd_list_finish (GDBusConnection *k, GUnixFDList **fds, GAsyncResult *t, GError **e)
{
  Res *r = take (k, t, "g_dbus_connection_call_with_unix_fd_list_finish", e);
  if (fds) *fds = r->fds; else if (r->fds) g_object_unref (r->fds);
  return r->p;
}
static const char *fins[NFN] = { "g_input_stream_read_bytes_finish", "g_input_stream_read_finish", "g_input_stream_skip_finish", "g_input_stream_close_finish",
  "g_output_stream_write_bytes_finish", "g_output_stream_write_finish", "g_output_stream_close_finish", "g_output_stream_splice_finish",
  "g_file_read_finish", "g_file_replace_finish", "g_file_query_info_finish", "g_file_make_directory_finish", "g_file_enumerate_children_finish", "g_file_copy_finish", "g_file_load_contents_finish", "g_file_query_info_finish",
  "g_file_enumerator_next_files_finish", "g_socket_listener_accept_finish", "g_socket_client_connect_finish", "g_io_stream_close_finish", "g_resolver_lookup_by_name_finish",
  "g_dbus_connection_send_message_with_reply_finish", "g_dbus_connection_call_finish", "g_dbus_connection_call_with_unix_fd_list_finish", "g_bus_get_finish", "g_subprocess_wait_check_finish" };

/* ---------------------------------------------------------------------- results */
static void freed (gpointer p) { g_free (p); }
static GBytes *
some_bytes (void)
{
  int n = rng_n (&irng, 5);
  guint8 *d = g_malloc (n + 1);
  for (int k = 0; k < n; k++) d[k] = rng_n (&irng, 256);
  drv_track (d, ++vals_tracked);
  return g_bytes_new_with_free_func (d, n, freed, d);
}
static gpointer
make (GType t)
{
  static const char *argv[] = { "true", NULL };
  return numbered (t == G_TYPE_SUBPROCESS ? g_object_new (t, "argv", argv, NULL) : g_object_new (t, NULL));
}
static gssize
some_count (void)
{
  switch (rng_n (&irng, 6)) { case 0: return 0; case 1: return G_MAXSSIZE; case 2: return (gssize)G_MAXINT + 1; default: return 1 + rng_n (&irng, 9000); }
}
static const char *
result (int fn, Res *r)
{
  const char *o = "";
  GList *l;
  r->n = 1;
  switch (fn)
    {
    case READ_BYTES: r->p = some_bytes (); return B (r->p);
    case READ: case SKIP: case WRITE_BYTES: case WRITE: case SPLICE: r->n = some_count (); return U (r->n);
    case FREAD: r->p = make (G_TYPE_FILE_INPUT_STREAM); return O (r->p);
    case REPLACE: r->p = make (G_TYPE_FILE_OUTPUT_STREAM); return O (r->p);
    case INFO: case EXISTS: r->p = make (G_TYPE_FILE_INFO); return O (r->p);
    case CHILDREN: r->p = make (enumerator_type); return O (r->p);
    case ACCEPT: case CONNECT: r->p = make (connection_type); return O (r->p);
    case MESSAGE: r->p = make (G_TYPE_DBUS_MESSAGE); return O (r->p);
    case BUS: r->p = make (G_TYPE_DBUS_CONNECTION); return O (r->p);
    case NEXT: case LOOKUP:
      for (int k = rng_n (&irng, 4); k; k--)
        r->l = g_list_append (r->l, fn == NEXT ? make (G_TYPE_FILE_INFO) : numbered (g_inet_address_new_any (G_SOCKET_FAMILY_IPV4)));
      for (l = r->l; l; l = l->next) drv_track (l, ++vals_tracked);
      return L (r->l);
    case LOAD:
      {
        GBytes *b = some_bytes ();
        o = B (b);
        r->len = g_bytes_get_size (b);
        r->p = g_malloc (r->len + 1); memcpy (r->p, g_bytes_get_data (b, NULL), r->len); ((char *)r->p)[r->len] = 0;
        drv_track (r->p, ++vals_tracked);
        g_bytes_unref (b);
        return o;
      }
    case CALL: case CALL_FDS:
      r->p = g_variant_ref_sink (g_variant_new ("(i)", ++nres));
      drv_track (r->p, ++vals_tracked);
      return V (r->p);
    default: return "";
    }
}
static void
deliver (int x, gboolean err)
{
  X *p = &xs[x];
  GAsyncReadyCallback cb = p->cb;
  if (!cb || !p->ready) return; /* also after the owner has dropped it */
  p->cb = NULL;
  int id = ++nops;
  Res *r = g_new0 (Res, 1);
  GTask *t = g_task_new (p->fn == BUS ? NULL : p->inst, NULL, NULL, NULL);
  const char *o, *fds = "";
  char err_text[20];
  r->x = x; r->fin = fins[p->fn];
  if (err)
    {
      r->n = strchr ("\1\2\4\5\7", p->fn) ? -1 : 0;
      r->e = val_error (id);
      snprintf (err_text, sizeof err_text, "E:x%d", id); o = err_text;
    }
  else
    {
      o = result (p->fn, r);
      if (p->fn == CALL_FDS) { r->fds = rng_p (&irng, 60) ? make (G_TYPE_UNIX_FD_LIST) : NULL; fds = O (r->fds); }
    }
  g_task_set_task_data (t, r, res_free);
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"deliver\",\"x\":%d,\"err\":%d,\"o\":\"%s\",\"fds\":\"%s\"}", id, dst_thread_id (), x, err, o, fds);
  cb (p->fn == BUS ? NULL : p->inst, G_ASYNC_RESULT (t), p->data);
  g_object_unref (t);
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
}
/* ---------------------------------------------------------------------- wrappers */
static int prio (void) { return (int[]) { 0, 100, -100, 300, G_MAXINT, G_MININT }[rng_n (&irng, 6)]; }
static gsize count (void) { return (gsize[]) { 0, 1, 8, G_MAXUINT, G_MAXSSIZE }[rng_n (&irng, 5)]; }
static guint flags (int n) { return rng_n (&irng, n); }
static const char *word (gboolean null) { static const char *w[] = { "a", "org.b", "/c/d", "*", "" }; int k = rng_n (&irng, null ? 6 : 5); return k < 5 ? w[k] : NULL; }
static void
do_new (int fn)
{
  if (nx >= maxx) return;
  int x = ++nx, id = ++nops;
  X *p = &xs[x];
  DexFuture *f = NULL;
  p->busy = 1;
  p->fn = fn;
  char b[1200];
  int pr = prio ();
  gsize n = count ();
  guint fl;
  const char *w = word (TRUE), *w1 = word (FALSE), *w2 = word (FALSE), *w3 = word (FALSE);
  switch (fn)
    {
    case READ_BYTES: case READ: case SKIP: case ICLOSE: p->inst = make (G_TYPE_MEMORY_INPUT_STREAM); break;
    case WRITE_BYTES: case WRITE: case OCLOSE: case SPLICE: p->inst = make (G_TYPE_MEMORY_OUTPUT_STREAM); break;
    case NEXT: p->inst = make (enumerator_type); break;
    case ACCEPT: p->inst = make (G_TYPE_SOCKET_LISTENER); break;
    case CONNECT: p->inst = make (G_TYPE_SOCKET_CLIENT); break;
    case SCLOSE: p->inst = make (stream_type); break;
    case LOOKUP: p->inst = make (resolver_type); break;
    case MESSAGE: case CALL: case CALL_FDS: p->inst = make (G_TYPE_DBUS_CONNECTION); break;
    case BUS: break;
    case WAIT: p->inst = make (G_TYPE_SUBPROCESS); break;
    default: p->inst = numbered (g_file_new_for_path ("/nonexistent/verif")); break;
    }
#define GO(ARGV, CALL) do { args_json (b, sizeof b, ARGV); \
    ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"new\",\"x\":%d,\"fn\":\"%s\",\"args\":%s}", id, dst_thread_id (), x, names[fn], b); \
    starting = p; f = CALL; starting = NULL; } while (0)
  switch (fn)
    {
    case READ_BYTES: GO (ARGS (O (p->inst), U (n), I (pr)), dex_input_stream_read_bytes ((gpointer)p->inst, n, pr)); break;
    case READ: GO (ARGS (O (p->inst), P (p->buf), U (n), I (pr)), dex_input_stream_read ((gpointer)p->inst, p->buf, n, pr)); break;
    case SKIP: GO (ARGS (O (p->inst), U (n), I (pr)), dex_input_stream_skip ((gpointer)p->inst, n, pr)); break;
    case ICLOSE: GO (ARGS (O (p->inst), I (pr)), dex_input_stream_close ((gpointer)p->inst, pr)); break;
    case WRITE_BYTES: p->bytes = some_bytes (); GO (ARGS (O (p->inst), B (p->bytes), I (pr)), dex_output_stream_write_bytes ((gpointer)p->inst, p->bytes, pr)); break;
    case WRITE: GO (ARGS (O (p->inst), P (p->buf), U (n), I (pr)), dex_output_stream_write ((gpointer)p->inst, p->buf, n, pr)); break;
    case OCLOSE: GO (ARGS (O (p->inst), I (pr)), dex_output_stream_close ((gpointer)p->inst, pr)); break;
    case SPLICE: p->second = make (G_TYPE_MEMORY_INPUT_STREAM); fl = flags (4); GO (ARGS (O (p->inst), O (p->second), U (fl), I (pr)), dex_output_stream_splice ((gpointer)p->inst, (gpointer)p->second, fl, pr)); break;
    case FREAD: GO (ARGS (O (p->inst), I (pr)), dex_file_read ((gpointer)p->inst, pr)); break;
    case REPLACE: { gboolean bk = flags (2); fl = flags (4); GO (ARGS (O (p->inst), T (w), I (bk), U (fl), I (pr)), dex_file_replace ((gpointer)p->inst, w, bk, fl, pr)); break; }
    case INFO: fl = flags (2); GO (ARGS (O (p->inst), T (w1), U (fl), I (pr)), dex_file_query_info ((gpointer)p->inst, w1, fl, pr)); break;
    case MKDIR: GO (ARGS (O (p->inst), I (pr)), dex_file_make_directory ((gpointer)p->inst, pr)); break;
    case CHILDREN: fl = flags (2); GO (ARGS (O (p->inst), T (w1), U (fl), I (pr)), dex_file_enumerate_children ((gpointer)p->inst, w1, fl, pr)); break;
    case COPY: p->second = numbered (g_file_new_for_path ("/nonexistent/other")); fl = flags (64); GO (ARGS (O (p->inst), O (p->second), U (fl), I (pr)), dex_file_copy ((gpointer)p->inst, (gpointer)p->second, fl, pr)); break;
    case LOAD: GO (ARGS (O (p->inst)), dex_file_load_contents_bytes ((gpointer)p->inst)); break;
    case EXISTS: GO (ARGS (O (p->inst)), dex_file_query_exists ((gpointer)p->inst)); break;
    case NEXT: { int k = rng_n (&irng, 200); GO (ARGS (O (p->inst), I (k), I (pr)), dex_file_enumerator_next_files ((gpointer)p->inst, k, pr)); break; }
    case ACCEPT: GO (ARGS (O (p->inst)), dex_socket_listener_accept ((gpointer)p->inst)); break;
    case CONNECT: p->second = numbered (g_object_new (G_TYPE_NETWORK_ADDRESS, "hostname", "h", "port", 1, NULL)); GO (ARGS (O (p->inst), O (p->second)), dex_socket_client_connect ((gpointer)p->inst, (gpointer)p->second)); break;
    case SCLOSE: GO (ARGS (O (p->inst), I (pr)), dex_io_stream_close ((gpointer)p->inst, pr)); break;
    case LOOKUP: GO (ARGS (O (p->inst), T (w1)), dex_resolver_lookup_by_name ((gpointer)p->inst, w1)); break;
    case MESSAGE:
      p->second = make (G_TYPE_DBUS_MESSAGE); fl = flags (2);
      {
        guint32 *s = rng_p (&irng, 60) ? &p->serial : NULL;
        p->serial_set = 1 + rng_n (&irng, 1000);
        GO (ARGS (O (p->inst), O (p->second), U (fl), I (pr), I (s != NULL)), dex_dbus_connection_send_message_with_reply ((gpointer)p->inst, (gpointer)p->second, fl, pr, s));
        if (s && *s != p->serial_set) ev ("{\"e\":\"bad\",\"what\":\"serial\"}");
      }
      break;
    case CALL: case CALL_FDS:
      {
        const char *rt = rng_p (&irng, 50) ? "(i)" : NULL;
        GVariant *v = rng_p (&irng, 70) ? g_variant_new ("(s)", w2) : NULL;
        if (v) drv_track (v, ++vals_tracked);
        fl = flags (8);
        if (fn == CALL)
          GO (ARGS (O (p->inst), T (w), T (w1), T (w2), T (w3), V (v), T (rt), U (fl), I (pr)), dex_dbus_connection_call ((gpointer)p->inst, w, w1, w2, w3, v, (gpointer)rt, fl, pr));
        else
          {
            p->second = rng_p (&irng, 60) ? make (G_TYPE_UNIX_FD_LIST) : NULL;
            GO (ARGS (O (p->inst), T (w), T (w1), T (w2), T (w3), V (v), T (rt), U (fl), I (pr), O (p->second)), dex_dbus_connection_call_with_unix_fd_list ((gpointer)p->inst, w, w1, w2, w3, v, (gpointer)rt, fl, pr, (gpointer)p->second));
          }
        break;
      }
    case BUS: { int t = (int[]) { -1, 0, 1, 2 }[rng_n (&irng, 4)]; GO (ARGS (I (t)), dex_bus_get (t)); break; }
    case WAIT: GO (ARGS (O (p->inst)), dex_subprocess_wait_check ((gpointer)p->inst)); break;
    }
  p->f = f;
  if (!f) ev ("{\"e\":\"bad\",\"what\":\"nothing\"}");
  p->ready = f != NULL;
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
  p->busy--;
}
static X *use (int x) { return xs[x].ready && !xs[x].gone ? &xs[x] : NULL; }
static void
outcome (DexFuture *f, char *b, gsize n)
{
  GError *e = NULL;
  DexFutureStatus s = dex_future_get_status (f);
  if (s == DEX_FUTURE_STATUS_PENDING) { snprintf (b, n, "P"); return; }
  const GValue *v = dex_future_get_value (f, &e);
  if (s == DEX_FUTURE_STATUS_RESOLVED && v && !e)
    {
      if (G_VALUE_HOLDS_INT64 (v)) snprintf (b, n, "int64:%s", U (g_value_get_int64 (v)));
      else if (G_VALUE_HOLDS_BOOLEAN (v)) snprintf (b, n, "boolean:%d", g_value_get_boolean (v));
      else if (G_VALUE_HOLDS_OBJECT (v)) snprintf (b, n, "object:%s", O (g_value_get_object (v)));
      else if (G_VALUE_HOLDS_VARIANT (v)) snprintf (b, n, "variant:%s", V (g_value_get_variant (v)));
      else if (G_VALUE_HOLDS (v, G_TYPE_BYTES)) snprintf (b, n, "bytes:%s", B (g_value_get_boxed (v)));
      else if (G_VALUE_HOLDS (v, DEX_TYPE_FILE_INFO_LIST) || G_VALUE_HOLDS (v, DEX_TYPE_INET_ADDRESS_LIST))
        {
          /* and a copy of it */
          GValue w = G_VALUE_INIT;
          const char *t;
          g_value_init (&w, G_VALUE_TYPE (v));
          g_value_copy (v, &w);
          t = L (g_value_get_boxed (&w));
          if (g_value_get_boxed (v) && g_value_get_boxed (v) == g_value_get_boxed (&w)) t = "shared";
          snprintf (b, n, "%s:%s", G_VALUE_HOLDS (v, DEX_TYPE_FILE_INFO_LIST) ? "infos" : "addresses", t);
          g_value_unset (&w);
          if (strcmp (strchr (b, ':') + 1, L (g_value_get_boxed (v)))) snprintf (b, n, "BAD copy");
        }
      else snprintf (b, n, "BAD %s", G_VALUE_TYPE_NAME (v));
    }
  else if (s == DEX_FUTURE_STATUS_REJECTED && !v && e) err_format (e, b, n);
  else snprintf (b, n, "BAD");
  g_clear_error (&e);
}
static void
do_see (int x, int m)
{
  X *p = use (x);
  char o[300] = "";
  if (!p || (m && p->fn != CALL_FDS)) return;
  int id = ++nops;
  p->busy++;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"see\",\"x\":%d,\"m\":%d}", id, dst_thread_id (), x, m);
  outcome (m ? dex_future_set_get_future_at (DEX_FUTURE_SET (p->f), m - 1) : p->f, o, sizeof o);
  for (char *c = o; *c; c++) if (*c == '"') *c = '\'';
  ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"%s\"}", id, o);
  p->busy--;
}
/* is it cancelled?  The cancellable outlives the future */
static void
do_look (int x)
{
  X *p = &xs[x];
  if (!p->ready || !p->c) return;
  int id = ++nops;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"look\",\"x\":%d}", id, dst_thread_id (), x);
  int c = g_cancellable_is_cancelled (p->c);
  ev ("{\"e\":\"ret\",\"id\":%d,\"o\":\"%d\"}", id, c);
}
static void
do_want (int x)
{
  X *p = use (x);
  if (!p || nd >= MAXD) return;
  int id = ++nops, d = ++nd;
  p->busy++; ds[d].busy++; ds[d].x = x;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"want\",\"x\":%d,\"d\":%d}", id, dst_thread_id (), x, d);
  ds[d].f = dex_future_first (dex_ref (p->f), NULL);
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
  p->busy--; ds[d].busy--;
}
static void
do_unwant (int d)
{
  if (!ds[d].f || ds[d].busy) return;
  int id = ++nops;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"unwant\",\"x\":%d,\"d\":%d}", id, dst_thread_id (), ds[d].x, d);
  dex_clear (&ds[d].f);
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
}
static void
do_drop (int x)
{
  X *p = use (x);
  if (!p || p->busy) return;
  int id = ++nops;
  p->gone = TRUE;
  DexFuture *f = p->f;
  ev ("{\"e\":\"call\",\"id\":%d,\"t\":%d,\"op\":\"drop\",\"x\":%d}", id, dst_thread_id (), x);
  dex_unref (f);
  ev ("{\"e\":\"ret\",\"id\":%d}", id);
}
static void
act (void)
{
  if (budget <= 0 || over) return;
  budget--;
  int w = rng_n (&irng, 100), x = nx ? 1 + rng_n (&irng, nx) : 0, d = nd ? 1 + rng_n (&irng, nd) : 0;
  if (!x || w < 24) do_new (rng_p (&irng, 20) ? CALL_FDS : rng_n (&irng, NFN));
  else if (w < 42) deliver (x, rng_p (&irng, 30));
  else if (w < 58) do_see (x, rng_n (&irng, 3));
  else if (w < 64) do_look (x);
  else if (w < 76) do_want (x);
  else if (w < 90) { if (d) do_unwant (d); }
  else do_drop (x);
}
static void
look_all (void)
{
  for (int x = 1; x <= nx; x++) { for (int m = 0; m < 3; m++) do_see (x, m); do_look (x); }
}
typedef struct { int n, spin; } Job;
static gpointer
plain (gpointer d)
{
  Job *j = d;
  while (j->n-- > 0)
    {
      act ();
      for (int s = 0; s < j->spin; s++) dst_point ();
    }
  return NULL;
}
static gboolean enumerator_close (GFileEnumerator *e, GCancellable *c, GError **error) { return TRUE; }
static void enumerator_class (gpointer c, gpointer d) { ((GFileEnumeratorClass *)c)->close_fn = enumerator_close; }
static gboolean stream_close (GIOStream *e, GCancellable *c, GError **error) { return TRUE; }
static void stream_class (gpointer c, gpointer d) { ((GIOStreamClass *)c)->close_fn = stream_close; }
/* a connection without a socket */
static void
connection_class (gpointer c, gpointer d)
{
  GObjectClass *base = g_type_class_peek_static (G_TYPE_IO_STREAM);
  stream_class (c, d);
  G_OBJECT_CLASS (c)->constructed = base->constructed;
  G_OBJECT_CLASS (c)->finalize = base->finalize;
}
void
drv_init (const char *mode)
{
  dex_init ();
  vals_init ();
  num = g_quark_from_static_string ("verif-number");
  GTypeQuery q;
  g_type_query (G_TYPE_RESOLVER, &q);
  resolver_type = g_type_register_static_simple (G_TYPE_RESOLVER, "VerifResolver", q.class_size, NULL, q.instance_size, NULL, 0);
  g_type_query (G_TYPE_FILE_ENUMERATOR, &q);
  enumerator_type = g_type_register_static_simple (G_TYPE_FILE_ENUMERATOR, "VerifEnumerator", q.class_size, enumerator_class, q.instance_size, NULL, 0);
  g_type_query (G_TYPE_IO_STREAM, &q);
  stream_type = g_type_register_static_simple (G_TYPE_IO_STREAM, "VerifStream", q.class_size, stream_class, q.instance_size, NULL, 0);
  g_type_query (G_TYPE_SOCKET_CONNECTION, &q);
  connection_type = g_type_register_static_simple (G_TYPE_SOCKET_CONNECTION, "VerifConnection", q.class_size, connection_class, q.instance_size, NULL, 0);
  g_object_unref (g_cancellable_new ());
  g_object_unref (g_object_new (g_task_get_type (), NULL));
  GType types[] = { G_TYPE_MEMORY_INPUT_STREAM, G_TYPE_MEMORY_OUTPUT_STREAM, enumerator_type, G_TYPE_SOCKET_LISTENER, G_TYPE_SOCKET_CLIENT, stream_type,
                    resolver_type, G_TYPE_DBUS_CONNECTION, G_TYPE_SUBPROCESS, G_TYPE_FILE_INPUT_STREAM, G_TYPE_FILE_OUTPUT_STREAM, G_TYPE_FILE_INFO, connection_type,
                    G_TYPE_DBUS_MESSAGE, G_TYPE_UNIX_FD_LIST };
  for (int k = 0; k < (int)G_N_ELEMENTS (types); k++) g_object_unref (make (types[k]));
  g_object_unref (g_inet_address_new_any (G_SOCKET_FAMILY_IPV4));
  g_object_unref (g_file_new_for_path ("/nonexistent/verif"));
  g_object_unref (g_object_new (G_TYPE_NETWORK_ADDRESS, "hostname", "h", "port", 1, NULL));
  dex_file_info_list_get_type (); dex_inet_address_list_get_type ();
  dex_unref (dex_future_any (dex_future_new_for_int (1), NULL));
  dex_unref (dex_promise_new_cancellable ());
  starting = NULL;
}
void
drv_run (Run *r)
{
  Rng *g = &r->rng;
  static Job j[4];
  GThread *th[4];
  char leak[256];
  irng = *g; rng_next (&irng);
  if (r->script) { r->seed = g_str_hash (r->script); rng_seed (&irng, r->seed); }
  int np = 1 + rng_n (&irng, 3), rounds = 1 + rng_n (&irng, 2);
  maxx = r->script ? MAXX : 2 + rng_n (&irng, MAXX - 2);
  drv_live_baseline ();
  drv_start (r);
  if (r->script)
    for (const char *s = r->script; *s;)
      {
        char c = *s; int a;
        if (c == ' ') { s++; continue; }
        a = strtol (s + 1, (char **)&s, 10);
        switch (c)
          {
          case 'n': do_new (a); break;
          case 'd': deliver (a, FALSE); break;
          case 'e': deliver (a, TRUE); break;
          case 'w': do_want (a); break;
          case 'u': do_unwant (a); break;
          case 'k': do_drop (a); break;
          }
        look_all ();
      }
  else
    while (rounds-- > 0)
      {
        budget = 10 + rng_n (&irng, 30);
        for (int k = 0; k < np; k++)
          {
            j[k] = (Job) { 1 + rng_n (&irng, 14), rng_n (&irng, 4) };
            if (k) th[k] = g_thread_new ("p", plain, &j[k]);
          }
        plain (&j[0]);
        for (int k = 1; k < np; k++) g_thread_join (th[k]);
        look_all ();
      }
  over = TRUE;
  for (int x = 1; x <= nx; x++) deliver (x, rng_p (&irng, 30));
  look_all ();
  for (int d = 1; d <= nd; d++) do_unwant (d);
  look_all ();
  for (int x = 1; x <= nx; x++) do_drop (x);
  for (int x = 1; x <= nx; x++)
    {
      g_clear_object (&xs[x].c); g_clear_object (&xs[x].inst); g_clear_object (&xs[x].second);
      g_clear_pointer (&xs[x].bytes, g_bytes_unref);
    }
  drv_settle ();
  int n = vals_end (leak, sizeof leak);
  ev ("{\"e\":\"end\",\"leak\":%d,\"types\":\"%s\"}", n, leak);
}
