From ab7221561753419ef8fa18442fa8f1f31f5a3b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 01/28] fix: advance waiting senders when
 dex_channel_receive_all() empties the queue

---
 src/dex-channel.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/dex-channel.c b/src/dex-channel.c
index 99f617e..5594f9e 100644
--- a/src/dex-channel.c
+++ b/src/dex-channel.c
@@ -443,6 +443,7 @@ DexFuture *
 dex_channel_receive_all (DexChannel *channel)
 {
   g_autoptr(GPtrArray) ret = NULL;
+  g_autoptr(GPtrArray) advanced = NULL;
   GQueue stolen = G_QUEUE_INIT;
 
   g_return_val_if_fail (DEX_IS_CHANNEL (channel), NULL);
@@ -465,8 +466,26 @@ dex_channel_receive_all (DexChannel *channel)
       g_ptr_array_add (ret, g_steal_pointer (&item->future));
     }
 
+  /* We just made room in @queue, so senders which were waiting for
+   * capacity can advance now. Nothing else would do that for them.
+   */
+  while (channel->sendq.length > 0 && channel->queue.length < channel->capacity)
+    {
+      DexChannelItem *item = g_queue_peek_head (&channel->sendq);
+
+      g_queue_unlink (&channel->sendq, &item->link);
+      g_queue_push_tail_link (&channel->queue, &item->link);
+
+      if (advanced == NULL)
+        advanced = g_ptr_array_new_with_free_func (dex_unref);
+      g_ptr_array_add (advanced, dex_ref (item->send));
+    }
+
   dex_object_unlock (channel);
 
+  for (guint i = 0; advanced != NULL && i < advanced->len; i++)
+    dex_promise_resolve_uint (g_ptr_array_index (advanced, i), i + 1);
+
   while (stolen.length > 0)
     dex_channel_item_free (g_queue_pop_head_link (&stolen)->data);
 
-- 
2.43.0


From 1297114ec545a0ba78e504416d569fd36ba34c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:13 +0000
Subject: [PATCH 02/28] fix: allow a pending future to be finalized while
 futures are chained to it

---
 src/dex-future.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dex-future.c b/src/dex-future.c
index e3e46a0..419b1f3 100644
--- a/src/dex-future.c
+++ b/src/dex-future.c
@@ -302,9 +302,12 @@ dex_future_finalize (DexObject *object)
 {
   DexFuture *future = (DexFuture *)object;
 
-  g_assert (future->chained.length == 0);
-  g_assert (future->chained.head == NULL);
-  g_assert (future->chained.tail == NULL);
+  /* The last reference may be dropped while we are still pending, for
+   * example when a block which awaited us was released. Futures chained
+   * to us are tracked weakly and can no longer be notified from here.
+   */
+  while (future->chained.length > 0)
+    dex_chained_future_free (g_queue_pop_head_link (&future->chained)->data);
 
   if (G_IS_VALUE (&future->resolved))
     g_value_unset (&future->resolved);
-- 
2.43.0


From fbb75c6cbee80d572a627ed59092dd660e85d0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 03/28] fix: finalize an object exactly once when weak
 references race with dex_unref()

When dex_unref() had dropped the last reference, a weak reference could still
be converted to a full one and released again before the object was locked.
The second release finalized the object, which the first one then locked. And
if that conversion happened between reading the watermark and decrementing,
the first thread concluded that the other one was responsible, and nobody
finalized the object.

Count the threads that are about to decide, so that the last one of them does
it and the object stays valid for all of them.
---
 src/dex-object-private.h |  1 +
 src/dex-object.c         | 52 +++++++++++++++++++++-------------------
 2 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/dex-object-private.h b/src/dex-object-private.h
index 81a2f36..f6a8fe0 100644
--- a/src/dex-object-private.h
+++ b/src/dex-object-private.h
@@ -96,6 +96,7 @@ typedef struct _DexObject
   DexWeakRef      *weak_refs;
   guint            weak_refs_watermark;
   _Atomic int      ref_count;
+  _Atomic int      n_releasing;
 #ifdef HAVE_SYSPROF
   gint64           ctime;
 #endif
diff --git a/src/dex-object.c b/src/dex-object.c
index db45b1c..7520567 100644
--- a/src/dex-object.c
+++ b/src/dex-object.c
@@ -91,36 +91,39 @@ dex_unref (gpointer object)
   DexObject *obj = object;
   DexObjectClass *object_class;
   DexWeakRef *weak_refs;
-  guint watermark;
+  int ref_count;
 
   g_return_if_fail (object != NULL);
   g_return_if_fail (DEX_IS_OBJECT (object));
 
-  /* Fetch a watermark before we decrement so that we can be
-   * sure that if we reached zero, that anything that extended
-   * the life of the mem_block will be responsible to free
-   * the object in the end.
-   */
-  watermark = g_atomic_int_get (&obj->weak_refs_watermark);
-
   /* If we decrement and it's not zero, then there is nothing
    * for this thread to do. Fast path.
    */
-  if G_LIKELY (atomic_fetch_sub_explicit (&obj->ref_count, 1, memory_order_release) != 1)
-    return;
+  ref_count = atomic_load_explicit (&obj->ref_count, memory_order_relaxed);
+  while G_LIKELY (ref_count > 1)
+    {
+      if (atomic_compare_exchange_weak_explicit (&obj->ref_count,
+                                                 &ref_count,
+                                                 ref_count - 1,
+                                                 memory_order_release,
+                                                 memory_order_relaxed))
+        return;
+    }
 
+  /* We likely reach zero, but a weak ref converted to a full ref may extend
+   * liveness afterwards and be released again on another thread before we
+   * have looked. Announce ourselves while we still own a reference so that
+   * the object is not finalized until we are done with it.
+   */
+  atomic_fetch_add_explicit (&obj->n_releasing, 1, memory_order_relaxed);
+  atomic_fetch_sub_explicit (&obj->ref_count, 1, memory_order_release);
   atomic_thread_fence (memory_order_acquire);
 
   object_class = DEX_OBJECT_GET_CLASS (object);
 
-  /* We reached zero. We need to go through our weak references and
-   * acquire each of their mutexes so that we can be sure none of them
-   * have raced against us to increment the value beyond 0. If they did,
-   * then we can bail early and ignore any request to finalize.
-   *
-   * If the watermark is beyond ours, then we know that the weak-ref
-   * extended liveness beyond this call and we are not responsible
-   * for finalizing this object.
+  /* We need to go through our weak references and acquire each of their
+   * mutexes so that we can be sure none of them can increment the value
+   * beyond 0 while we look.
    */
   dex_object_lock (object);
   for (DexWeakRef *wr = obj->weak_refs; wr; wr = wr->next)
@@ -129,10 +132,13 @@ dex_unref (gpointer object)
   /* If we increased our reference count on another thread by extending the
    * lifetime of the mem_block using a weak_ref-to-full_ref, then we don't need
    * to do anything here. Just bail and move along allowing a future unref to
-   * finalize when it once again approaches zero.
+   * finalize when it once again approaches zero. The same if that already
+   * happened and the other thread is still on its way here. Without any
+   * reference left nobody can start to release, so check that first.
    */
-  if (g_atomic_int_get (&obj->ref_count) > 0 ||
-      g_atomic_int_get (&obj->weak_refs_watermark) != watermark)
+  ref_count = atomic_load_explicit (&obj->ref_count, memory_order_acquire);
+  if (atomic_fetch_sub_explicit (&obj->n_releasing, 1, memory_order_relaxed) > 1 ||
+      ref_count > 0)
     {
       for (DexWeakRef *wr = obj->weak_refs; wr; wr = wr->next)
         g_mutex_unlock (&wr->mutex);
@@ -161,9 +167,7 @@ dex_unref (gpointer object)
 
   dex_object_unlock (object);
 
-  /* If we did not create an immortal ref, then we are safe to finalize */
-  if (g_atomic_int_get (&obj->ref_count) == 0)
-    object_class->finalize (object);
+  object_class->finalize (object);
 }
 
 static void
-- 
2.43.0


From 126b05e1a6a41fc9fcde820b2d04fe35338ec434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 04/28] fix: do not deadlock when a weak reference is changed
 while its object is released

dex_weak_ref_set() locked the weak reference and then the object, dex_unref()
the object and then the weak reference. dex_future_complete() does the former
for every future chained to it, so completing a future while a dependent was
released on another thread could hang both threads.
---
 src/dex-object.c | 81 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 55 insertions(+), 26 deletions(-)

diff --git a/src/dex-object.c b/src/dex-object.c
index 7520567..bbc9d61 100644
--- a/src/dex-object.c
+++ b/src/dex-object.c
@@ -193,43 +193,36 @@ dex_object_init (DexObject      *self,
 }
 
 static void
-dex_object_add_weak (gpointer    mem_block,
-                      DexWeakRef *weak_ref)
+dex_object_add_weak_locked (DexObject  *object,
+                            DexWeakRef *weak_ref)
 {
-  DexObject *object = mem_block;
-
   g_assert (object != NULL);
   g_assert (weak_ref != NULL);
   g_assert (weak_ref->prev == NULL);
   g_assert (weak_ref->next == NULL);
-  g_assert (weak_ref->mem_block == mem_block);
 
   /* Must own a full ref to acquire a weak ref */
   g_return_if_fail (object->ref_count > 0);
 
-  dex_object_lock (object);
+  weak_ref->mem_block = object;
   weak_ref->prev = NULL;
   weak_ref->next = object->weak_refs;
   if (object->weak_refs != NULL)
     object->weak_refs->prev = weak_ref;
   object->weak_refs = weak_ref;
-  dex_object_unlock (object);
 }
 
 static void
-dex_object_remove_weak (gpointer    mem_block,
-                         DexWeakRef *weak_ref)
+dex_object_remove_weak_locked (DexObject  *object,
+                               DexWeakRef *weak_ref)
 {
-  DexObject *object = mem_block;
-
   g_assert (object != NULL);
   g_assert (weak_ref != NULL);
+  g_assert (weak_ref->mem_block == object);
 
   /* Must own a full ref to release a weak ref */
   g_return_if_fail (object->ref_count > 0);
 
-  dex_object_lock (object);
-
   if (weak_ref->prev != NULL)
     weak_ref->prev->next = weak_ref->next;
 
@@ -245,8 +238,48 @@ dex_object_remove_weak (gpointer    mem_block,
   weak_ref->next = NULL;
   weak_ref->prev = NULL;
   weak_ref->mem_block = NULL;
+}
 
-  dex_object_unlock (object);
+/* Moves @weak_ref from @old_object to @new_object, both of which must be
+ * owned by the caller if non-%NULL.
+ *
+ * The mutex of a weak ref is always acquired after that of the object like
+ * dex_unref() does. Objects are locked in the order of their address.
+ *
+ * Returns: %FALSE if @weak_ref did not point to @old_object anymore
+ */
+static gboolean
+dex_weak_ref_move (DexWeakRef *weak_ref,
+                   DexObject  *old_object,
+                   DexObject  *new_object)
+{
+  DexObject *first = MIN (old_object, new_object);
+  DexObject *second = MAX (old_object, new_object);
+  gboolean ret = FALSE;
+
+  g_assert (weak_ref != NULL);
+  g_assert (first != second);
+
+  if (first != NULL)
+    dex_object_lock (first);
+  dex_object_lock (second);
+  g_mutex_lock (&weak_ref->mutex);
+
+  if (weak_ref->mem_block == old_object)
+    {
+      if (old_object != NULL)
+        dex_object_remove_weak_locked (old_object, weak_ref);
+      if (new_object != NULL)
+        dex_object_add_weak_locked (new_object, weak_ref);
+      ret = TRUE;
+    }
+
+  g_mutex_unlock (&weak_ref->mutex);
+  dex_object_unlock (second);
+  if (first != NULL)
+    dex_object_unlock (first);
+
+  return ret;
 }
 
 /**
@@ -375,7 +408,7 @@ dex_weak_ref_clear (DexWeakRef *weak_ref)
 
   if (mem_block != NULL)
     {
-      dex_object_remove_weak (mem_block, weak_ref);
+      dex_weak_ref_move (weak_ref, mem_block, NULL);
       dex_clear (&mem_block);
     }
 
@@ -412,21 +445,17 @@ dex_weak_ref_set (DexWeakRef *weak_ref,
   g_return_if_fail (!mem_block || DEX_IS_OBJECT (mem_block));
   g_return_if_fail (!mem_block || DEX_OBJECT (mem_block)->ref_count > 0);
 
-  g_mutex_lock (&weak_ref->mutex);
+  /* Repeat if another thread changed @weak_ref in the mean time */
+  while ((old_mem_block = dex_weak_ref_get (weak_ref)) != mem_block)
+    {
+      gboolean done = dex_weak_ref_move (weak_ref, old_mem_block, mem_block);
 
-  old_mem_block = dex_weak_ref_get_locked (weak_ref);
+      dex_clear (&old_mem_block);
 
-  if (old_mem_block != mem_block)
-    {
-      if (old_mem_block != NULL)
-        dex_object_remove_weak (old_mem_block, weak_ref);
-      weak_ref->mem_block = mem_block;
-      if (mem_block != NULL)
-        dex_object_add_weak (mem_block, weak_ref);
+      if (done)
+        return;
     }
 
-  g_mutex_unlock (&weak_ref->mutex);
-
   dex_clear (&old_mem_block);
 }
 
-- 
2.43.0


From 50374a52fb901dc335cd1c63b45acb0ad02e21df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:51 +0000
Subject: [PATCH 05/28] fix: complete delayed futures from the future they
 delay

dex_delayed_new() chained the delayed future to the delaying one in the
wrong direction, so completing the delayed future propagated backwards, and
releasing before completion rejected it with DEX_ERROR_PENDING.
---
 src/dex-delayed.c | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/dex-delayed.c b/src/dex-delayed.c
index e71806b..a1ce174 100644
--- a/src/dex-delayed.c
+++ b/src/dex-delayed.c
@@ -53,18 +53,23 @@ dex_delayed_propagate (DexFuture *future,
                        DexFuture *completed)
 {
   DexDelayed *delayed = DEX_DELAYED (future);
-  gboolean ret = FALSE;
+  DexFuture *release = NULL;
+  gboolean ret;
 
   g_assert (DEX_IS_DELAYED (delayed));
   g_assert (DEX_IS_FUTURE (completed));
 
+  /* Hold on to the result until we are released. If we have been discarded
+   * already, there is no future left for us to represent.
+   */
   dex_object_lock (delayed);
-  if (delayed->corked)
-    ret = TRUE;
-  else
-    dex_clear (&delayed->future);
+  ret = delayed->corked || delayed->future == NULL;
+  if (!ret)
+    release = g_steal_pointer (&delayed->future);
   dex_object_unlock (delayed);
 
+  dex_clear (&release);
+
   return ret;
 }
 
@@ -125,7 +130,7 @@ dex_delayed_new (DexFuture *future)
   delayed->corked = TRUE;
   delayed->future = dex_ref (future);
 
-  dex_future_chain (DEX_FUTURE (delayed), future);
+  dex_future_chain (future, DEX_FUTURE (delayed));
 
   return DEX_FUTURE (delayed);
 }
@@ -142,16 +147,33 @@ dex_delayed_release (DexDelayed *delayed)
   if (delayed->corked)
     {
       delayed->corked = FALSE;
-      complete = g_steal_pointer (&delayed->future);
+
+      if (delayed->future != NULL)
+        complete = dex_ref (delayed->future);
     }
 
   dex_object_unlock (delayed);
 
-  if (complete != NULL)
+  if (complete == NULL)
+    return;
+
+  /* If the future is still pending, it will propagate to us upon completion,
+   * so it must be kept alive until then.
+   */
+  if (!dex_future_is_pending (complete))
     {
+      DexFuture *release;
+
       dex_future_complete_from (DEX_FUTURE (delayed), complete);
-      dex_clear (&complete);
+
+      dex_object_lock (delayed);
+      release = g_steal_pointer (&delayed->future);
+      dex_object_unlock (delayed);
+
+      dex_clear (&release);
     }
+
+  dex_unref (complete);
 }
 
 /**
@@ -174,7 +196,7 @@ dex_delayed_dup_future (DexDelayed *delayed)
   g_return_val_if_fail (DEX_IS_DELAYED (delayed), NULL);
 
   dex_object_lock (delayed);
-  ret = delayed->future ? dex_ref (delayed->future) : NULL;
+  ret = delayed->corked && delayed->future ? dex_ref (delayed->future) : NULL;
   dex_object_unlock (delayed);
 
   return ret;
-- 
2.43.0


From 59c0815c2b349e6073cb36550309dd969779930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 06/28] fix: do not discard a future which others still await

dex_future_discard() only looked at the chained future which went away when
deciding whether anyone was still interested in the result, so deciding one
set cancelled members that other sets, blocks or fibers depend upon.
---
 src/dex-future.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dex-future.c b/src/dex-future.c
index 419b1f3..5269f7b 100644
--- a/src/dex-future.c
+++ b/src/dex-future.c
@@ -394,6 +394,7 @@ dex_future_discard (DexFuture *future,
   gboolean has_awaiting = FALSE;
   gboolean matched = FALSE;
   GQueue discarded = G_QUEUE_INIT;
+  DexFuture *other = NULL;
 
   g_return_if_fail (DEX_IS_FUTURE (future));
   g_return_if_fail (DEX_IS_FUTURE (chained));
@@ -428,13 +429,18 @@ dex_future_discard (DexFuture *future,
               cf->awaiting = FALSE;
             }
 
-          has_awaiting |= cf->awaiting;
-
           g_queue_unlink (&future->chained, &cf->link);
           g_queue_push_tail_link (&discarded, &cf->link);
         }
+      else if (other == NULL && cf->awaiting)
+        {
+          /* Somebody else might still be interested in our result */
+          other = dex_weak_ref_get (&cf->wr);
+        }
     }
 
+  has_awaiting = other != NULL;
+
   dex_object_unlock (future);
 
   /* Release chained futures outside of the @future lock */
@@ -445,6 +451,8 @@ dex_future_discard (DexFuture *future,
       dex_chained_future_free (cf);
     }
 
+  dex_clear (&other);
+
   /* If we discarded the chained future and there are no more futures
    * awaiting our response, then request the class discard the future,
    * possibly cancelling anything in flight.
-- 
2.43.0


From 2cd8a439b1e2b81b32967141236d65d0e61a4c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 07/28] fix: discard members chained to a future set which is
 already decided

A set may be decided while its members are still being chained to it. The
ones chained afterwards were left running until the set was released.
---
 src/dex-future-set.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/dex-future-set.c b/src/dex-future-set.c
index 8dd1d4a..7416dea 100644
--- a/src/dex-future-set.c
+++ b/src/dex-future-set.c
@@ -210,6 +210,25 @@ dex_future_set_init (DexFutureSet *future_set)
 {
 }
 
+static void
+dex_future_set_chain_all (DexFutureSet *future_set)
+{
+  /* Now start chaining futures, even if we progress from pending while
+   * we iterate this list (as we're safe against multiple resolves).
+   */
+  for (guint i = 0; i < future_set->n_futures; i++)
+    dex_future_chain (future_set->futures[i], DEX_FUTURE (future_set));
+
+  /* If that happened, then futures we chained afterwards have not been
+   * discarded yet and nobody is interested in their result.
+   */
+  if (!dex_future_is_pending (DEX_FUTURE (future_set)))
+    {
+      for (guint i = 0; i < future_set->n_futures; i++)
+        dex_future_discard (future_set->futures[i], DEX_FUTURE (future_set));
+    }
+}
+
 /**
  * dex_future_set_new: (skip)
  * @futures: (transfer none) (array length=n_futures): an array of futures to chain
@@ -250,11 +269,7 @@ dex_future_set_new (DexFuture * const *futures,
   for (guint i = 0; i < n_futures; i++)
     future_set->futures[i] = dex_ref (futures[i]);
 
-  /* Now start chaining futures, even if we progress from pending while
-   * we iterate this list (as we're safe against multiple resolves).
-   */
-  for (guint i = 0; i < n_futures; i++)
-    dex_future_chain (future_set->futures[i], DEX_FUTURE (future_set));
+  dex_future_set_chain_all (future_set);
 
   return future_set;
 }
@@ -297,11 +312,7 @@ dex_future_set_new_va (DexFuture         *first_future,
       future = va_arg (*args, DexFuture *);
     }
 
-  /* Now start chaining futures, even if we progress from pending while
-   * we iterate this list (as we're safe against multiple resolves).
-   */
-  for (guint i = 0; i < future_set->n_futures; i++)
-    dex_future_chain (future_set->futures[i], DEX_FUTURE (future_set));
+  dex_future_set_chain_all (future_set);
 
   return future_set;
 }
-- 
2.43.0


From 2bb97e15977e922c36ce92a02c589de957add1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 08/28] fix: decide the outcome of a future set while it is
 locked

When members complete on several threads at once, the thread which saw the
last member could complete the set before the one which saw the deciding
member, such as dex_future_any() rejecting although a member resolved.
---
 src/dex-future-set.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dex-future-set.c b/src/dex-future-set.c
index 7416dea..330ea55 100644
--- a/src/dex-future-set.c
+++ b/src/dex-future-set.c
@@ -46,7 +46,8 @@ typedef struct _DexFutureSet
   guint               n_resolved;
   guint               n_rejected;
   DexFutureSetFlags   flags : 4;
-  guint               padding : 28;
+  guint               decided : 1;
+  guint               padding : 27;
   /* If n_futures <= 2, we use this instead of mallocing. We could
    * potentially get a 3rd without breaking 2-cachelines (128 bytes)
    * if we used a bit above to manage a union of futures/embedded.
@@ -83,8 +84,10 @@ dex_future_set_propagate (DexFuture *future,
 
   dex_object_lock (future_set);
 
-  /* Short-circuit if we've already returned a value */
-  if (future->status != DEX_FUTURE_STATUS_PENDING)
+  /* Short-circuit if we've already decided upon a value, even if another
+   * thread has yet to complete us with it.
+   */
+  if (future_set->decided || future->status != DEX_FUTURE_STATUS_PENDING)
     {
       dex_object_unlock (future_set);
       return TRUE;
@@ -112,6 +115,12 @@ dex_future_set_propagate (DexFuture *future,
   g_assert (future_set->n_resolved + future_set->n_rejected <= future_set->n_futures);
   g_assert (rejected != NULL || resolved != NULL);
 
+  if (n_active == 0)
+    future_set->decided = TRUE;
+  else if (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_FIRST)
+    future_set->decided = future_set->flags & (resolved != NULL ? DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE
+                                                                : DEX_FUTURE_SET_FLAGS_PROPAGATE_REJECT) ? TRUE : FALSE;
+
   dex_object_unlock (future_set);
 
   if (n_active == 0)
-- 
2.43.0


From 8381144bab1f7e2925899707c54c7d67291a18d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:37 +0000
Subject: [PATCH 09/28] fix: thread-pool-worker: use a power of two for the
 queue capacity

The array of the work stealing queue masks its indexes with capacity - 1.
With 255 two neighbouring slots share a cell: of two items pushed by an
item the first was lost and the second ran twice.
---
 src/dex-thread-pool-worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 2d2a3d6..d37a45e 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -520,7 +520,7 @@ dex_thread_pool_worker_new (DexWorkQueue           *work_queue,
   thread_pool_worker->main_context = g_main_context_new ();
   thread_pool_worker->main_loop = g_main_loop_new (thread_pool_worker->main_context, FALSE);
   thread_pool_worker->global_work_queue = dex_ref (work_queue);
-  thread_pool_worker->work_stealing_queue = dex_work_stealing_queue_new (255);
+  thread_pool_worker->work_stealing_queue = dex_work_stealing_queue_new (256);
   thread_pool_worker->set = set;
 
   /* Now spawn our thread to process events via GSource */
-- 
2.43.0


From 0d9001213a2ebeedb08a85975223a8399a93e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:37 +0000
Subject: [PATCH 10/28] fix: thread-pool-worker: hold a reference to the worker
 set

The scheduler releases the set before its workers, which kept using it:
waking up a worker after its pool was released crashed.
---
 src/dex-thread-pool-worker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index d37a45e..3a2d8b2 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -188,6 +188,7 @@ dex_thread_pool_worker_finalize (DexObject *object)
   g_clear_pointer (&thread_pool_worker->work_stealing_queue, dex_work_stealing_queue_unref);
 
   dex_clear (&thread_pool_worker->global_work_queue);
+  g_clear_pointer (&thread_pool_worker->set, dex_thread_pool_worker_set_unref);
 
   g_assert (thread_pool_worker->set_link.prev == NULL);
   g_assert (thread_pool_worker->set_link.next == NULL);
@@ -521,7 +522,7 @@ dex_thread_pool_worker_new (DexWorkQueue           *work_queue,
   thread_pool_worker->main_loop = g_main_loop_new (thread_pool_worker->main_context, FALSE);
   thread_pool_worker->global_work_queue = dex_ref (work_queue);
   thread_pool_worker->work_stealing_queue = dex_work_stealing_queue_new (256);
-  thread_pool_worker->set = set;
+  thread_pool_worker->set = dex_thread_pool_worker_set_ref (set);
 
   /* Now spawn our thread to process events via GSource */
   g_mutex_lock (&thread_pool_worker->setup_mutex);
-- 
2.43.0


From bb6338c753b135170e54c4c83a8cd61daa70c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 11/28] fix: report DEX_ERROR_FIBER_CANCELLED to cancelled
 fibers

When a fiber which was cancelled awaits a pending future it is resumed
at once, but was told DEX_ERROR_PENDING because the value of the still
pending future was returned. Return that of the cancelled future, both
to dex_await() and as the result of a fiber that returned a future.
---
 src/dex-fiber.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index 5f0ea52..2c3a7fa 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -61,7 +61,9 @@ DEX_DEFINE_FINAL_TYPE (DexFiber, dex_fiber, DEX_TYPE_FUTURE)
 #undef DEX_TYPE_FIBER
 #define DEX_TYPE_FIBER dex_fiber_type
 
-static void dex_fiber_start (DexFiber *fiber);
+static void              dex_fiber_start (DexFiber  *fiber);
+static inline DexFuture *dex_fiber_await (DexFiber  *fiber,
+                                          DexFuture *future);
 
 static DexFuture *cancelled_future;
 
@@ -166,8 +168,12 @@ dex_fiber_start (DexFiber *fiber)
   /* Await any future returned from the fiber */
   if (future != NULL)
     {
-      dex_await_borrowed (future, NULL);
-      dex_future_complete_from (DEX_FUTURE (fiber), future);
+      DexFuture *result = future;
+
+      if (dex_future_is_pending (future))
+        result = dex_fiber_await (fiber, future);
+
+      dex_future_complete_from (DEX_FUTURE (fiber), result);
       dex_unref (future);
     }
   else
@@ -425,7 +431,10 @@ dex_fiber_current (void)
   return fiber_scheduler ? fiber_scheduler->running : NULL;
 }
 
-static inline void
+/* Suspends @fiber and returns the future which has the result once it
+ * is resumed: that is @future unless the fiber was cancelled.
+ */
+static inline DexFuture *
 dex_fiber_await (DexFiber  *fiber,
                  DexFuture *future)
 {
@@ -444,12 +453,14 @@ dex_fiber_await (DexFiber  *fiber,
 
   /* Now request the future notify us of completion */
   if (cancelled)
-    dex_future_chain (cancelled_future, DEX_FUTURE (fiber));
-  else
-    dex_future_chain (future, DEX_FUTURE (fiber));
+    future = cancelled_future;
+
+  dex_future_chain (future, DEX_FUTURE (fiber));
 
   /* Swap to the scheduler to continue processing fibers */
   dex_fiber_context_switch (&fiber->context, &fiber_scheduler->context);
+
+  return future;
 }
 
 const GValue *
@@ -472,9 +483,7 @@ dex_await_borrowed (DexFuture  *future,
       return NULL;
     }
 
-  dex_fiber_await (fiber, future);
-
-  return dex_future_get_value (future, error);
+  return dex_future_get_value (dex_fiber_await (fiber, future), error);
 }
 
 /**
-- 
2.43.0


From c4fe87c3bf664fc2ac85c4a19c12d25b1ed89820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 12/28] fix: keep the cancelled mark of a fiber out of its
 other flags

A fiber may be discarded from any thread while its own thread changes the
flags next to the mark, under another lock. As they shared storage one of
them could be lost, such as the fiber no longer being runnable.
---
 src/dex-fiber-private.h | 6 +++++-
 src/dex-fiber.c         | 6 ++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dex-fiber-private.h b/src/dex-fiber-private.h
index 12a6304..78b5f4f 100644
--- a/src/dex-fiber-private.h
+++ b/src/dex-fiber-private.h
@@ -54,7 +54,11 @@ struct _DexFiber
   guint runnable : 1;
   guint exited : 1;
   guint released : 1;
-  guint cancelled : 1;
+
+  /* Set atomically from any thread when the fiber is discarded, which
+   * is why it may not share storage with the flags above.
+   */
+  gint cancelled;
 
   /* The requested stack size */
   gsize stack_size;
diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index 2c3a7fa..ed27718 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -74,9 +74,7 @@ dex_fiber_discard (DexFuture *future)
 
   g_assert (DEX_IS_FIBER (fiber));
 
-  dex_object_lock (fiber);
-  fiber->cancelled = TRUE;
-  dex_object_unlock (fiber);
+  g_atomic_int_set (&fiber->cancelled, TRUE);
 }
 
 static gboolean
@@ -446,7 +444,7 @@ dex_fiber_await (DexFiber  *fiber,
   /* Move fiber from runnable to blocked queue */
   g_mutex_lock (&fiber_scheduler->mutex);
   fiber->runnable = FALSE;
-  cancelled = fiber->cancelled;
+  cancelled = g_atomic_int_get (&fiber->cancelled);
   g_queue_unlink (&fiber_scheduler->runnable, &fiber->link);
   g_queue_push_tail_link (&fiber_scheduler->blocked, &fiber->link);
   g_mutex_unlock (&fiber_scheduler->mutex);
-- 
2.43.0


From a3de5d643a7e18e74f2d55d15386f13dfb24eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 13/28] fix: reject the waiters of a semaphore without eventfd
 when it is freed

---
 src/dex-semaphore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dex-semaphore.c b/src/dex-semaphore.c
index 76d80b9..2c1d60d 100644
--- a/src/dex-semaphore.c
+++ b/src/dex-semaphore.c
@@ -150,7 +150,8 @@ dex_semaphore_finalize (DexObject *object)
       close (semaphore->eventfd);
       semaphore->eventfd = -1;
     }
-#else
+#endif
+
   while (semaphore->waiters.length > 0)
     {
       DexSemaphoreWaiter *waiter = g_queue_pop_head_link (&semaphore->waiters)->data;
@@ -159,7 +160,6 @@ dex_semaphore_finalize (DexObject *object)
                            g_error_copy (&semaphore_closed_error));
       dex_unref (waiter);
     }
-#endif
 
   DEX_OBJECT_CLASS (dex_semaphore_parent_class)->finalize (object);
 }
-- 
2.43.0


From 257c88bf2716a9f3c140cdd3728bf301598071b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 14/28] fix: complete the waiters of a closed semaphore without
 its lock held

---
 src/dex-semaphore.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/dex-semaphore.c b/src/dex-semaphore.c
index 2c1d60d..af69008 100644
--- a/src/dex-semaphore.c
+++ b/src/dex-semaphore.c
@@ -321,6 +321,8 @@ dex_semaphore_wait (DexSemaphore *semaphore)
 void
 dex_semaphore_close (DexSemaphore *semaphore)
 {
+  GQueue queue;
+
   g_return_if_fail (DEX_IS_SEMAPHORE (semaphore));
 
   dex_object_lock (semaphore);
@@ -333,20 +335,18 @@ dex_semaphore_close (DexSemaphore *semaphore)
     }
 #endif
 
-  if (semaphore->waiters.length > 0)
-    {
-      GQueue queue = semaphore->waiters;
-      semaphore->waiters = (GQueue) {NULL, NULL, 0};
-
-      while (queue.length)
-        {
-          DexSemaphoreWaiter *waiter = g_queue_pop_head_link (&queue)->data;
-          dex_future_complete (DEX_FUTURE (waiter),
-                               NULL,
-                               g_error_copy (&semaphore_closed_error));
-          dex_unref (waiter);
-        }
-    }
+  queue = semaphore->waiters;
+  semaphore->waiters = (GQueue) {NULL, NULL, 0};
 
   dex_object_unlock (semaphore);
+
+  /* Now complete the waiters outside our object lock */
+  while (queue.length > 0)
+    {
+      DexSemaphoreWaiter *waiter = g_queue_pop_head_link (&queue)->data;
+      dex_future_complete (DEX_FUTURE (waiter),
+                           NULL,
+                           g_error_copy (&semaphore_closed_error));
+      dex_unref (waiter);
+    }
 }
-- 
2.43.0


From 013b1968fbc0ac8d4e33be6529c384b360d1d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 15/28] fix: have the future of an async result in place before
 its callback can run

---
 src/dex-async-result.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/dex-async-result.c b/src/dex-async-result.c
index e416c86..353e7fe 100644
--- a/src/dex-async-result.c
+++ b/src/dex-async-result.c
@@ -392,7 +392,6 @@ void
 dex_async_result_await (DexAsyncResult *async_result,
                         DexFuture      *future)
 {
-  DexFuture *new_future = NULL;
   DexFuture *cancellable;
 
   g_return_if_fail (DEX_IS_ASYNC_RESULT (async_result));
@@ -416,19 +415,24 @@ dex_async_result_await (DexAsyncResult *async_result,
   else
     cancellable = dex_cancellable_new_from_cancellable (async_result->cancellable);
 
-  /* We have to be careful about ownership here and ensure we
-   * drop our references when the callback is executed.
+  future = dex_future_first (future, cancellable, NULL);
+
+  /* The future must be in place before it can be noticed that
+   * it has completed, as the callback may run on another thread while we
+   * are still here.
    */
-  g_object_ref (async_result);
-  new_future = dex_future_finally (dex_future_first (future, cancellable, NULL),
-                                   dex_async_result_await_cb,
-                                   g_object_ref (async_result),
-                                   g_object_unref);
   g_mutex_lock (&async_result->mutex);
   g_assert (async_result->future == NULL);
-  async_result->future = g_steal_pointer (&new_future);
+  async_result->future = dex_ref (future);
   g_mutex_unlock (&async_result->mutex);
-  g_object_unref (async_result);
+
+  /* We have to be careful about ownership here and ensure we
+   * drop our references when the callback is executed.
+   */
+  dex_future_disown (dex_future_finally (future,
+                                         dex_async_result_await_cb,
+                                         g_object_ref (async_result),
+                                         g_object_unref));
 }
 
 void
-- 
2.43.0


From fd3d44e020f4cad69f6f64c64cc5ff689889666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 16/28] fix: disconnect a released cancellable without waiting
 for its emission

---
 src/dex-cancellable.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/dex-cancellable.c b/src/dex-cancellable.c
index 2c0ed74..4960fc8 100644
--- a/src/dex-cancellable.c
+++ b/src/dex-cancellable.c
@@ -56,8 +56,12 @@ dex_cancellable_finalize (DexObject *object)
 {
   DexCancellable *self = (DexCancellable *)object;
 
+  /* Not g_cancellable_disconnect(), which waits for a running emission to
+   * end and would never return if we are released from within that emission.
+   * Our callback is safe to run late, it only has a weak reference.
+   */
   if (self->handler)
-    g_cancellable_disconnect (self->cancellable, self->handler);
+    g_signal_handler_disconnect (self->cancellable, self->handler);
 
   g_clear_object (&self->cancellable);
 
@@ -93,14 +97,11 @@ dex_cancellable_cancelled_cb (GCancellable *cancellable,
   g_assert (wr != NULL);
 
   if ((self = dex_weak_ref_get (wr)))
-    {
-      self->handler = 0;
-      dex_future_complete (DEX_FUTURE (self),
-                           NULL,
-                           g_error_new_literal (G_IO_ERROR,
-                                                G_IO_ERROR_CANCELLED,
-                                                "Operation cancelled"));
-    }
+    dex_future_complete (DEX_FUTURE (self),
+                         NULL,
+                         g_error_new_literal (G_IO_ERROR,
+                                              G_IO_ERROR_CANCELLED,
+                                              "Operation cancelled"));
 }
 
 static void
-- 
2.43.0


From 5f976be99ef55cc19ad2a3b9323e3d02e05bf4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 17/28] fix: drop the reference taken when a unix signal is
 delivered

---
 src/dex-unix-signal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dex-unix-signal.c b/src/dex-unix-signal.c
index 532110c..d5834c2 100644
--- a/src/dex-unix-signal.c
+++ b/src/dex-unix-signal.c
@@ -95,6 +95,7 @@ dex_unix_signal_source_func (gpointer data)
       g_value_init (&value, G_TYPE_INT);
       g_value_set_int (&value, unix_signal->signum);
       dex_future_complete (DEX_FUTURE (unix_signal), &value, NULL);
+      dex_unref (unix_signal);
     }
 
   return G_SOURCE_REMOVE;
-- 
2.43.0


From 6d8a3d3a01510e96569726ce926b1f2d549c1bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 18/28] fix: let an async pair without an instance complete

dex_async_pair_new() accepts a NULL instance, but the ready callback
asserted that the source object it is then called with is a GObject.
---
 src/dex-async-pair.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-async-pair.c b/src/dex-async-pair.c
index d9a218a..1abb166 100644
--- a/src/dex-async-pair.c
+++ b/src/dex-async-pair.c
@@ -80,7 +80,7 @@ dex_async_pair_ready_callback (GObject      *object,
   GError *error = NULL;
   GType gtype;
 
-  g_assert (G_IS_OBJECT (object));
+  g_assert (!object || G_IS_OBJECT (object));
   g_assert (G_IS_ASYNC_RESULT (result));
   g_assert (DEX_IS_ASYNC_PAIR (async_pair));
 
-- 
2.43.0


From 3f842ff50dfd6a884c81a56542c83b80ec812d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 19/28] fix: steal a file-descriptor from its box atomically

Two threads awaiting the same future with dex_await_fd() could both be
given the same file-descriptor, which was then closed twice.
---
 src/dex-fd.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dex-fd.c b/src/dex-fd.c
index bf32bce..1addf07 100644
--- a/src/dex-fd.c
+++ b/src/dex-fd.c
@@ -30,16 +30,25 @@ dex_fd_peek (const DexFD *fd)
   if (fd == NULL)
     return -1;
 
-  return *(int *)fd;
+  return g_atomic_int_get ((int *)fd);
 }
 
 int
 dex_fd_steal (DexFD *fd)
 {
+  int real;
+
   if (fd == NULL)
     return -1;
 
-  return g_steal_fd ((int *)fd);
+  /* Awaiting the same future from two threads must not give both of them
+   * the same file-descriptor.
+   */
+  do
+    real = g_atomic_int_get ((int *)fd);
+  while (!g_atomic_int_compare_and_exchange ((int *)fd, real, -1));
+
+  return real;
 }
 
 void
-- 
2.43.0


From 9b7da1eb420b7f6690369ae9d4123ddd3640f9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 20/28] fix: keep the main context of a request alive while
 waking it up

Once the mutex is released the loop may complete and release the request,
and with it the last reference to its main context.
---
 src/dex-posix-aio-backend.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dex-posix-aio-backend.c b/src/dex-posix-aio-backend.c
index 77e91a8..9c4c308 100644
--- a/src/dex-posix-aio-backend.c
+++ b/src/dex-posix-aio-backend.c
@@ -77,11 +77,18 @@ dex_posix_aio_context_take (DexPosixAioContext *posix_aio_context,
 
   g_mutex_lock (&posix_aio_context->mutex);
   g_queue_push_tail (&posix_aio_context->completed, posix_aio_future);
-  main_context = dex_posix_aio_future_get_main_context (posix_aio_future);
+  /* The future, and with it the context, may be gone as soon as the
+   * mutex has been released.
+   */
+  if ((main_context = dex_posix_aio_future_get_main_context (posix_aio_future)))
+    g_main_context_ref (main_context);
   g_mutex_unlock (&posix_aio_context->mutex);
 
   if (main_context)
-    g_main_context_wakeup (main_context);
+    {
+      g_main_context_wakeup (main_context);
+      g_main_context_unref (main_context);
+    }
 }
 
 static inline void
-- 
2.43.0


From ac846d8ca0deebe870ea80f7d87e75527574c31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 21/28] fix: drop the extra reference taken when a queued
 io_uring request is submitted

Requests made from another thread, or while the ring was full, were
never released.
---
 src/dex-uring-aio-backend.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dex-uring-aio-backend.c b/src/dex-uring-aio-backend.c
index e189e7e..e0b3b49 100644
--- a/src/dex-uring-aio-backend.c
+++ b/src/dex-uring-aio-backend.c
@@ -169,9 +169,10 @@ dex_uring_aio_context_prepare (GSource *source,
             break;
         }
 
+      /* The reference of the queue becomes that of the sqe */
       future = g_queue_pop_head (&aio_context->queued);
       dex_uring_future_sqe (future, sqe);
-      io_uring_sqe_set_data (sqe, dex_ref (future));
+      io_uring_sqe_set_data (sqe, future);
     }
 
   if (do_submit || io_uring_sq_ready (&aio_context->ring) > 0)
-- 
2.43.0


From a479b0b97a56d6b2ff1fa17315afad51b48e6eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 22/28] fix: reject a failed io_uring request with its error

The result was negated twice, so that every error became
G_IO_ERROR_FAILED with the text of an unknown errno.
---
 src/dex-uring-future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index 5e3010b..cd98d57 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -90,7 +90,7 @@ complete_ssize (DexUringFuture *uring_future,
   if (value < 0)
     dex_future_complete (DEX_FUTURE (uring_future),
                          NULL,
-                         create_error (-value));
+                         create_error (value));
   else
     dex_future_complete (DEX_FUTURE (uring_future),
                          &(GValue) { G_TYPE_INT64, {{.v_int64 = value}}},
-- 
2.43.0


From 19784668b0e982eb0ba29de9c25f776b2025e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 23/28] fix: do not truncate the length of io_uring requests to
 32 bits

A read into a buffer of 4 GiB was submitted as a read of nothing, which
looks like the end of the file.
---
 src/dex-uring-future.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index cd98d57..5daca04 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -75,6 +75,12 @@ dex_uring_future_init (DexUringFuture *uring_future)
 {
 }
 
+/* The length of an sqe has but 32 bits, and no read or write transfers more
+ * than this on Linux anyway. Longer requests are cut short as they would be
+ * by read() and write().
+ */
+#define MAX_TRANSFER 0x7ffff000
+
 static GError *
 create_error (int error_code)
 {
@@ -144,7 +150,7 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
       io_uring_prep_read (sqe,
                           uring_future->read.fd,
                           uring_future->read.buffer,
-                          uring_future->read.count,
+                          MIN (uring_future->read.count, MAX_TRANSFER),
                           uring_future->read.offset);
       break;
 
@@ -152,7 +158,7 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
       io_uring_prep_write (sqe,
                            uring_future->write.fd,
                            uring_future->write.buffer,
-                           uring_future->write.count,
+                           MIN (uring_future->write.count, MAX_TRANSFER),
                            uring_future->write.offset);
       break;
 
-- 
2.43.0


From 2363a0b8afc318692cb7dde630e521497fed4fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 24/28] fix: dex_dbus_connection_call_with_unix_fd_list can be
 discarded

---
 src/dex-gio.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/dex-gio.c b/src/dex-gio.c
index 87f6d30..31ec080 100644
--- a/src/dex-gio.c
+++ b/src/dex-gio.c
@@ -1117,24 +1117,25 @@ dex_dbus_connection_call (GDBusConnection    *connection,
 }
 
 #ifdef G_OS_UNIX
+typedef struct
+{
+  DexAsyncPair *async_pair;
+  DexPromise   *promise;
+} CallWithFDList;
+
 static void
 dex_dbus_connection_call_with_unix_fd_list_cb (GObject      *object,
                                                GAsyncResult *result,
                                                gpointer      user_data)
 {
-  DexFutureSet *future_set = user_data;
-  DexAsyncPair *async_pair;
-  DexPromise *promise;
+  CallWithFDList *call = user_data;
+  DexAsyncPair *async_pair = call->async_pair;
+  DexPromise *promise = call->promise;
   GUnixFDList *fd_list = NULL;
   GVariant *reply = NULL;
   GError *error = NULL;
 
   g_assert (G_IS_DBUS_CONNECTION (object));
-  g_assert (DEX_IS_FUTURE_SET (future_set));
-
-  async_pair = DEX_ASYNC_PAIR (dex_future_set_get_future_at (future_set, 0));
-  promise = DEX_PROMISE (dex_future_set_get_future_at (future_set, 1));
-
   g_assert (DEX_IS_ASYNC_PAIR (async_pair));
   g_assert (DEX_IS_PROMISE (promise));
 
@@ -1154,7 +1155,9 @@ dex_dbus_connection_call_with_unix_fd_list_cb (GObject      *object,
       dex_async_pair_return_error (async_pair, error);
     }
 
-  dex_unref (future_set);
+  dex_unref (async_pair);
+  dex_unref (promise);
+  g_free (call);
 }
 
 /**
@@ -1192,6 +1195,7 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
   DexAsyncPair *async_pair;
   DexPromise *promise;
   DexFuture *ret;
+  CallWithFDList *call;
 
   g_return_val_if_fail (G_IS_DBUS_CONNECTION (connection), NULL);
   g_return_val_if_fail (!fd_list || G_IS_UNIX_FD_LIST (fd_list), NULL);
@@ -1205,6 +1209,11 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
   /* Sent to user. Resolving will contain variant. */
   ret = dex_future_all (DEX_FUTURE (async_pair), DEX_FUTURE (promise), NULL);
 
+  /* The call must not keep @ret alive or it could never be discarded */
+  call = g_new0 (CallWithFDList, 1);
+  call->async_pair = dex_ref (async_pair);
+  call->promise = dex_ref (promise);
+
   g_dbus_connection_call_with_unix_fd_list (connection,
                                             bus_name,
                                             object_path,
@@ -1217,7 +1226,7 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
                                             fd_list,
                                             async_pair->cancellable,
                                             dex_dbus_connection_call_with_unix_fd_list_cb,
-                                            dex_ref (ret));
+                                            call);
 
   return ret;
 }
-- 
2.43.0


From d0f7a109cdbd9b52fe3dc7261630c6a1427a7cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 25/28] fix: dex_dbus_connection_call_with_unix_fd_list
 resolves to the reply

---
 src/dex-gio.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/dex-gio.c b/src/dex-gio.c
index 31ec080..921ae30 100644
--- a/src/dex-gio.c
+++ b/src/dex-gio.c
@@ -23,7 +23,7 @@
 
 #include "dex-async-pair-private.h"
 #include "dex-future-private.h"
-#include "dex-future-set.h"
+#include "dex-future-set-private.h"
 #include "dex-gio.h"
 #include "dex-promise.h"
 
@@ -1206,13 +1206,17 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
   /* Will hold our GUnixFDList result */
   promise = dex_promise_new ();
 
-  /* Sent to user. Resolving will contain variant. */
-  ret = dex_future_all (DEX_FUTURE (async_pair), DEX_FUTURE (promise), NULL);
+  /* Sent to user. The last one to complete is async_pair so that resolving will
+   * contain variant and rejecting the error of the call.
+   */
+  ret = DEX_FUTURE (dex_future_set_new ((DexFuture *[]) { DEX_FUTURE (async_pair), DEX_FUTURE (promise) }, 2,
+                                        DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE |
+                                        DEX_FUTURE_SET_FLAGS_PROPAGATE_REJECT));
 
   /* The call must not keep @ret alive or it could never be discarded */
   call = g_new0 (CallWithFDList, 1);
-  call->async_pair = dex_ref (async_pair);
-  call->promise = dex_ref (promise);
+  call->async_pair = async_pair;
+  call->promise = promise;
 
   g_dbus_connection_call_with_unix_fd_list (connection,
                                             bus_name,
-- 
2.43.0


From 4ecc4971922416286f5ffde3a52526ee6437586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 26/28] fix: pushing to a thread pool from a worker of another
 one

dex_thread_pool_scheduler_push() used the work stealing queue of whatever
worker the calling thread was, so that work pushed to one thread pool by a
worker of another ran on the wrong pool.
---
 src/dex-thread-pool-scheduler.c      | 4 +++-
 src/dex-thread-pool-worker-private.h | 2 ++
 src/dex-thread-pool-worker.c         | 9 +++++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-scheduler.c b/src/dex-thread-pool-scheduler.c
index 7926420..8786488 100644
--- a/src/dex-thread-pool-scheduler.c
+++ b/src/dex-thread-pool-scheduler.c
@@ -73,7 +73,9 @@ dex_thread_pool_scheduler_push (DexScheduler *scheduler,
   DexThreadPoolScheduler *thread_pool_scheduler = DEX_THREAD_POOL_SCHEDULER (scheduler);
   DexThreadPoolWorker *worker = DEX_THREAD_POOL_WORKER_CURRENT;
 
-  if (worker != NULL)
+  /* The current thread might be a worker of another thread pool */
+  if (worker != NULL &&
+      dex_thread_pool_worker_is_in_set (worker, thread_pool_scheduler->set))
     DEX_SCHEDULER_GET_CLASS (worker)->push (DEX_SCHEDULER (worker), work_item);
   else
     dex_work_queue_push (thread_pool_scheduler->global_work_queue, work_item);
diff --git a/src/dex-thread-pool-worker-private.h b/src/dex-thread-pool-worker-private.h
index eae2f78..d80da34 100644
--- a/src/dex-thread-pool-worker-private.h
+++ b/src/dex-thread-pool-worker-private.h
@@ -37,6 +37,8 @@ typedef struct _DexThreadPoolWorkerSet DexThreadPoolWorkerSet;
 GType                   dex_thread_pool_worker_get_type  (void) G_GNUC_CONST;
 DexThreadPoolWorker    *dex_thread_pool_worker_new       (DexWorkQueue           *work_queue,
                                                           DexThreadPoolWorkerSet *set);
+gboolean                dex_thread_pool_worker_is_in_set (DexThreadPoolWorker    *thread_pool_worker,
+                                                          DexThreadPoolWorkerSet *set);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_new   (void);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_ref   (DexThreadPoolWorkerSet *set);
 void                    dex_thread_pool_worker_set_unref (DexThreadPoolWorkerSet *set);
diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 3a2d8b2..b0bf63e 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -507,6 +507,15 @@ dex_thread_pool_worker_set_create_source (DexThreadPoolWorkerSet *set,
   return (GSource *)source;
 }
 
+gboolean
+dex_thread_pool_worker_is_in_set (DexThreadPoolWorker    *thread_pool_worker,
+                                  DexThreadPoolWorkerSet *set)
+{
+  g_return_val_if_fail (DEX_IS_THREAD_POOL_WORKER (thread_pool_worker), FALSE);
+
+  return thread_pool_worker->set == set;
+}
+
 DexThreadPoolWorker *
 dex_thread_pool_worker_new (DexWorkQueue           *work_queue,
                             DexThreadPoolWorkerSet *set)
-- 
2.43.0


From e95cdb5a4cfd041d858c25f7b628ceafda107d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 27/28] fix: dup_future of an async result while its callback
 ends

The future was released without the lock, so that another thread in
dex_async_result_dup_future() could take a reference on a freed object.
---
 src/dex-async-result.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dex-async-result.c b/src/dex-async-result.c
index 353e7fe..d636c93 100644
--- a/src/dex-async-result.c
+++ b/src/dex-async-result.c
@@ -327,6 +327,7 @@ static gboolean
 dex_async_result_complete_in_idle_cb (gpointer user_data)
 {
   DexAsyncResult *async_result = user_data;
+  DexFuture *future;
 
   g_assert (DEX_IS_ASYNC_RESULT (async_result));
 
@@ -334,7 +335,12 @@ dex_async_result_complete_in_idle_cb (gpointer user_data)
                           G_ASYNC_RESULT (async_result),
                           g_steal_pointer (&async_result->user_data));
 
-  dex_clear (&async_result->future);
+  /* Another thread might be in dex_async_result_dup_future() */
+  g_mutex_lock (&async_result->mutex);
+  future = g_steal_pointer (&async_result->future);
+  g_mutex_unlock (&async_result->mutex);
+
+  dex_clear (&future);
 
   return G_SOURCE_REMOVE;
 }
-- 
2.43.0


From 34b92cb44f9a800be2b447ce66b8dcbf1a367286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 28/28] fix: discarding a timeout while it fires

The source was destroyed without the lock and without a reference, so that
it could have been released by its callback in another thread by then.
---
 src/dex-timeout.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dex-timeout.c b/src/dex-timeout.c
index d0a787c..2a4797f 100644
--- a/src/dex-timeout.c
+++ b/src/dex-timeout.c
@@ -53,9 +53,19 @@ static void
 dex_timeout_discard (DexFuture *future)
 {
   DexTimeout *timeout = DEX_TIMEOUT (future);
+  GSource *source = NULL;
 
+  /* The source may be released by its callback in another thread */
+  dex_object_lock (timeout);
   if (timeout->source != NULL)
-    g_source_destroy (timeout->source);
+    source = g_source_ref (timeout->source);
+  dex_object_unlock (timeout);
+
+  if (source != NULL)
+    {
+      g_source_destroy (source);
+      g_source_unref (source);
+    }
 }
 
 static void
-- 
2.43.0

