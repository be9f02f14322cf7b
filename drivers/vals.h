/* Values of every type, with a text that stands for type and content. */
#pragma once
#include "drv.h"
#include <gio/gio.h>

/* a boxed type which counts its copies */
typedef struct { int n; int check; } VBox;
static int vbox_live, vbox_bad;
static gpointer vbox_new (int n) { VBox *b = g_new (VBox, 1); b->n = n; b->check = 4711; vbox_live++; return b; }
static gpointer vbox_copy (gpointer p) { VBox *b = p; if (b->check != 4711) vbox_bad++; return vbox_new (b->n); }
static void vbox_free (gpointer p) { VBox *b = p; if (b->check != 4711) vbox_bad++; else { b->check = 1; vbox_live--; } /* kept: a second release is noticed */ }
/* an object which knows its number */
typedef struct { GObject parent; int n; } VObj;
typedef struct { GObjectClass parent_class; } VObjClass;
static int vobj_live;
static void (*vobj_parent_finalize) (GObject *);
static void vobj_finalize (GObject *o) { vobj_live--; vobj_parent_finalize (o); }
static void vobj_class_init (gpointer k, gpointer d) { vobj_parent_finalize = ((GObjectClass *)k)->finalize; ((GObjectClass *)k)->finalize = vobj_finalize; }
static void vobj_init (GTypeInstance *i, gpointer k) { vobj_live++; }
static GType vbox_type, vobj_type, venum_type, vflags_type;
static void
vals_init (void)
{
  static const GEnumValue ev_[] = { { 0, "ZERO", "zero" }, { 1, "ONE", "one" }, { 7, "SEVEN", "seven" }, { -3, "MINUS", "minus" }, { 0, NULL, NULL } };
  static const GFlagsValue fv[] = { { 1, "A", "a" }, { 2, "B", "b" }, { 0x80000000u, "TOP", "top" }, { 0, NULL, NULL } };
  vbox_type = g_boxed_type_register_static ("VerifBox", vbox_copy, vbox_free);
  vobj_type = g_type_register_static_simple (G_TYPE_OBJECT, "VerifObj", sizeof (VObjClass), vobj_class_init, sizeof (VObj), vobj_init, 0);
  venum_type = g_enum_register_static ("VerifEnum", ev_);
  vflags_type = g_flags_register_static ("VerifFlags", fv);
  g_object_unref (g_object_new (vobj_type, NULL));
  g_object_unref (g_object_new (G_TYPE_OBJECT, NULL));
}
typedef struct {
  char kind;     /* b i u l m L U f d s p o O e g x v */
  GType type;
  gboolean null;
  gint64 n;
  double d;
  char text[64]; /* what a GValue that holds it looks like */
} Val;
static void
val_format (const GValue *v, char *b, gsize n)
{
  GType t = G_VALUE_TYPE (v);
  const char *tn = g_type_name (t);
  gpointer p;
  switch (G_TYPE_FUNDAMENTAL (t))
    {
    case G_TYPE_BOOLEAN: snprintf (b, n, "%s:%d", tn, g_value_get_boolean (v)); return;
    case G_TYPE_INT: snprintf (b, n, "%s:%d", tn, g_value_get_int (v)); return;
    case G_TYPE_UINT: snprintf (b, n, "%s:%u", tn, g_value_get_uint (v)); return;
    case G_TYPE_INT64: snprintf (b, n, "%s:%" G_GINT64_FORMAT, tn, g_value_get_int64 (v)); return;
    case G_TYPE_UINT64: snprintf (b, n, "%s:%" G_GUINT64_FORMAT, tn, g_value_get_uint64 (v)); return;
    case G_TYPE_LONG: snprintf (b, n, "%s:%ld", tn, g_value_get_long (v)); return;
    case G_TYPE_ULONG: snprintf (b, n, "%s:%lu", tn, g_value_get_ulong (v)); return;
    case G_TYPE_FLOAT: snprintf (b, n, "%s:%.9g", tn, g_value_get_float (v)); return;
    case G_TYPE_DOUBLE: snprintf (b, n, "%s:%.17g", tn, g_value_get_double (v)); return;
    case G_TYPE_ENUM: snprintf (b, n, "%s:%d", tn, g_value_get_enum (v)); return;
    case G_TYPE_FLAGS: snprintf (b, n, "%s:%u", tn, g_value_get_flags (v)); return;
    case G_TYPE_STRING: snprintf (b, n, "%s:%s", tn, g_value_get_string (v) ? g_value_get_string (v) : "null"); return;
    case G_TYPE_POINTER: snprintf (b, n, "%s:%" G_GUINT64_FORMAT, tn, (guint64)(gsize)g_value_get_pointer (v)); return;
    case G_TYPE_OBJECT: p = g_value_get_object (v); snprintf (b, n, p ? "%s:%d" : "%s:null", tn, p && G_TYPE_FROM_INSTANCE (p) == vobj_type ? ((VObj *)p)->n : -1); return;
    case G_TYPE_VARIANT: { GVariant *w = g_value_get_variant (v); if (w) { char *s = g_variant_print (w, TRUE); snprintf (b, n, "%s:%s", tn, s); g_free (s); } else snprintf (b, n, "%s:null", tn); return; }
    case G_TYPE_BOXED:
      p = g_value_get_boxed (v);
      if (t == vbox_type) snprintf (b, n, p ? "%s:%d" : "%s:null", tn, p ? (((VBox *)p)->check == 4711 ? ((VBox *)p)->n : -1) : 0);
      else snprintf (b, n, "%s:?", tn);
      return;
    default: snprintf (b, n, "%s:?", tn); return;
    }
}
static gint64
val_extreme (Rng *r, gint64 lo, gint64 hi, gboolean un)
{
  switch (rng_n (r, 6))
    {
    case 0: return lo;
    case 1: return hi;
    case 2: return 0;
    case 3: return un ? 1 : -1;
    default: return 1 + rng_n (r, 1000);
    }
}
static Val
val_make (Rng *r, char kind)
{
  Val v = { kind };
  const char *kinds = "biulmLUfdspoOegxv";
  if (!kind) kind = v.kind = kinds[rng_n (r, strlen (kinds))];
  int k = rng_n (r, 900) + 1;
  const char *tn;
  switch (kind)
    {
    case 'b': v.type = G_TYPE_BOOLEAN; v.n = rng_n (r, 2); break;
    case 'i': v.type = G_TYPE_INT; v.n = (int)val_extreme (r, G_MININT, G_MAXINT, FALSE); break;
    case 'u': v.type = G_TYPE_UINT; v.n = (gint64)(guint)val_extreme (r, 0, (gint64)G_MAXUINT, TRUE); break;
    case 'l': v.type = G_TYPE_INT64; v.n = val_extreme (r, G_MININT64, G_MAXINT64, FALSE); break;
    case 'm': v.type = G_TYPE_UINT64; v.n = val_extreme (r, 0, -1, TRUE); break;
    case 'L': v.type = G_TYPE_LONG; v.n = val_extreme (r, G_MINLONG, G_MAXLONG, FALSE); break;
    case 'U': v.type = G_TYPE_ULONG; v.n = val_extreme (r, 0, -1, TRUE); break;
    case 'f': v.type = G_TYPE_FLOAT; v.d = (float)(rng_p (r, 30) ? -1.5e30 : k * .25); break;
    case 'd': v.type = G_TYPE_DOUBLE; v.d = rng_p (r, 30) ? -1.25e300 : k * .125; break;
    case 's': v.type = G_TYPE_STRING; v.n = k; v.null = rng_p (r, 15); break;
    case 'p': v.type = G_TYPE_POINTER; v.n = rng_p (r, 20) ? 0 : k * 4096; break;
    case 'o': v.type = G_TYPE_OBJECT; v.n = k; v.null = rng_p (r, 15); break;
    case 'O': v.type = vobj_type; v.n = k; break;
    case 'e': v.type = venum_type; v.n = ((int[]) { 0, 1, 7, -3 })[rng_n (r, 4)]; break;
    case 'g': v.type = vflags_type; v.n = ((guint[]) { 0, 1, 2, 3, 0x80000000u })[rng_n (r, 5)]; break;
    case 'x': v.type = vbox_type; v.n = k; v.null = rng_p (r, 15); break;
    case 'v': v.type = G_TYPE_VARIANT; v.n = k; break;
    }
  tn = g_type_name (v.type);
  if (v.null) snprintf (v.text, sizeof v.text, "%s:null", tn);
  else switch (kind)
    {
    case 'm': case 'U': snprintf (v.text, sizeof v.text, "%s:%" G_GUINT64_FORMAT, tn, (guint64)v.n); break;
    case 'f': snprintf (v.text, sizeof v.text, "%s:%.9g", tn, v.d); break;
    case 'd': snprintf (v.text, sizeof v.text, "%s:%.17g", tn, v.d); break;
    case 's': snprintf (v.text, sizeof v.text, "%s:text%d", tn, k); break;
    case 'v': snprintf (v.text, sizeof v.text, "%s:%d", tn, k); break;
    default: snprintf (v.text, sizeof v.text, "%s:%" G_GINT64_FORMAT, tn, v.n); break;
    }
  return v;
}
static int vals_tracked;
/* a value of a pointer type which its receiver will own */
static gpointer
val_own (const Val *v)
{
  gpointer p;
  if (v->null) return NULL;
  switch (v->kind)
    {
    case 's': p = g_strdup_printf ("text%d", (int)v->n); drv_track (p, ++vals_tracked); return p;
    case 'o': case 'O': { VObj *o = g_object_new (vobj_type, NULL); o->n = v->n; return o; }
    case 'x': return vbox_new (v->n);
    case 'v': p = g_variant_ref_sink (g_variant_new_int32 (v->n)); drv_track (p, ++vals_tracked); return p;
    default: return (gpointer)(gsize)v->n;
    }
}
static void
val_release (const Val *v, gpointer p)
{
  if (!p) return;
  switch (v->kind)
    {
    case 's': g_free (p); break;
    case 'o': case 'O': g_object_unref (p); break;
    case 'x': vbox_free (p); break;
    case 'v': g_variant_unref (p); break;
    }
}
/* errors of many domains and codes, which their message tells */
static GQuark
val_error_code (int n, int *code)
{
  static const int io[] = { G_IO_ERROR_PENDING, G_IO_ERROR_CLOSED, G_IO_ERROR_FAILED, G_IO_ERROR_NOT_FOUND, G_IO_ERROR_TIMED_OUT, G_IO_ERROR_EXISTS, G_IO_ERROR_WOULD_BLOCK, G_IO_ERROR_PARTIAL_INPUT };
  switch (n % 5)
    {
    case 0: *code = G_IO_ERROR_CANCELLED; return G_IO_ERROR;
    case 1: *code = io[(n / 5) % 8]; return G_IO_ERROR;
    case 2: *code = 77; return G_IO_ERROR;
    case 3: *code = (n / 5) % 10; return DEX_ERROR;
    default: *code = (n / 5) % 24; return G_FILE_ERROR;
    }
}
static GError *
val_error (int n)
{
  char m[16];
  int code;
  GQuark q = val_error_code (n, &code);
  snprintf (m, sizeof m, "x%d", n);
  GError *e = g_error_new_literal (q, code, m);
  drv_track (e, ++vals_tracked); drv_track (e->message, ++vals_tracked);
  return e;
}
static void
err_format (const GError *e, char *b, gsize n)
{
  int code;
  if (e->message[0] == 'x' && e->message[1] >= '0' && e->message[1] <= '9')
    {
      GQuark q = val_error_code (atoi (e->message + 1), &code);
      if (e->domain == q && e->code == code) snprintf (b, n, "E:%s", e->message);
      else snprintf (b, n, "E:%s but %s %d", e->message, g_quark_to_string (e->domain), e->code);
    }
  else snprintf (b, n, "E:%s", drv_err (e));
}
static void
vals_outcome (DexFuture *f, char *b, gsize n)
{
  GError *e = NULL;
  DexFutureStatus s = dex_future_get_status (f);
  if (s == DEX_FUTURE_STATUS_PENDING) { snprintf (b, n, "P"); return; }
  const GValue *v = dex_future_get_value (f, &e);
  if (s == DEX_FUTURE_STATUS_RESOLVED && v && !e) val_format (v, b, n);
  else if (s == DEX_FUTURE_STATUS_REJECTED && !v && e) err_format (e, b, n);
  else snprintf (b, n, "BAD");
  g_clear_error (&e);
}
/* what was handed over and never or too often released */
static int
vals_end (char *b, gsize n)
{
  int never, twice, leak = (int)drv_live_delta (b, n);
  drv_track_report (&never, &twice);
  gsize k = strlen (b);
  if (never || twice) k += snprintf (b + k, n - k, "never:%d twice:%d ", never, twice);
  if (vbox_live || vbox_bad) k += snprintf (b + k, n - k, "boxed:%d bad:%d ", vbox_live, vbox_bad);
  if (vobj_live) snprintf (b + k, n - k, "objects:%d ", vobj_live);
  return abs (leak) + never + twice + abs (vbox_live) + vbox_bad + abs (vobj_live);
}
