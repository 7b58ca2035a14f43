From 65f2f7913fea61d690178d2570ff31a4f03e674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 01/35] fix: treat a requested minor collection as major in
 non-generational mmc

Without a write barrier there is no remembered set, so honouring a
user's gc_collect(mut, GC_COLLECTION_MINOR) with a sticky-mark
collection freed objects that were reachable only from old objects.
---
 src/mmc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mmc.c b/src/mmc.c
index d2bc4df..a0ad868 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -554,6 +554,10 @@ determine_collection_kind(struct gc_heap *heap,
   } else if (requested != GC_COLLECTION_ANY) {
     DEBUG("user specifically requested collection kind %d\n", (int)requested);
     gc_kind = requested;
+    // Without a write barrier there is no remembered set, so there is no such
+    // thing as a minor collection.
+    if (!GC_GENERATIONAL && gc_kind == GC_COLLECTION_MINOR)
+      gc_kind = GC_COLLECTION_MAJOR;
   } else if (pending > 0) {
     DEBUG("evacuating due to need to reclaim %zd bytes\n", pending);
     // During the last cycle, a large allocation could not find enough
-- 
2.43.0


From 3e9058949ffd0ef9e98b562df0fbb10aa402726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 02/35] fix: don't deadlock on a large-to-survivor edge in a
 minor collection

The collector holds the large object space lock for the whole pause, so
remembering an edge from a freshly traced young large object to an
object that stays in the nursery self-deadlocked on that lock.
---
 src/large-object-space.h | 23 ++++++++++++++++++-----
 src/pcc.c                |  5 +++--
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/large-object-space.h b/src/large-object-space.h
index cdd7983..0576f45 100644
--- a/src/large-object-space.h
+++ b/src/large-object-space.h
@@ -254,12 +254,14 @@ large_object_space_is_survivor(struct large_object_space *space,
   return old;
 }
 
+// Precondition: the space lock is held, for example because we are in
+// the middle of a collection.
 static int
-large_object_space_remember_edge(struct large_object_space *space,
-                                 struct gc_ref obj,
-                                 struct gc_edge edge) {
-  GC_ASSERT(large_object_space_contains(space, obj));
-  if (!large_object_space_is_survivor(space, obj))
+large_object_space_remember_edge_with_lock(struct large_object_space *space,
+                                           struct gc_ref obj,
+                                           struct gc_edge edge) {
+  GC_ASSERT(large_object_space_contains_with_lock(space, obj));
+  if (!large_object_space_is_marked(space, obj))
     return 0;
 
   uintptr_t edge_addr = gc_edge_address(edge);
@@ -273,6 +275,17 @@ large_object_space_remember_edge(struct large_object_space *space,
   return remembered;
 }
 
+static int
+large_object_space_remember_edge(struct large_object_space *space,
+                                 struct gc_ref obj,
+                                 struct gc_edge edge) {
+  pthread_mutex_lock(&space->lock);
+  int remembered =
+    large_object_space_remember_edge_with_lock(space, obj, edge);
+  pthread_mutex_unlock(&space->lock);
+  return remembered;
+}
+
 static void
 large_object_space_forget_edge(struct large_object_space *space,
                                struct gc_edge edge) {
diff --git a/src/pcc.c b/src/pcc.c
index 0b137f5..32a7985 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -282,8 +282,9 @@ static int remember_edge_to_survivor_object(struct gc_heap *heap,
     large_object_space_object_containing_edge(heap_large_object_space(heap),
                                               edge);
   if (!gc_ref_is_null(large_object))
-    return large_object_space_remember_edge(heap_large_object_space(heap),
-                                            large_object, edge);
+    // The large object space stays locked for the duration of the collection.
+    return large_object_space_remember_edge_with_lock
+      (heap_large_object_space(heap), large_object, edge);
   return 0;
 }
 
-- 
2.43.0


From 9d0f72a4b33cd00e95c694e1e76d45da72ecfa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 03/35] fix: don't lose objects marked by helpers in a
 roots-only parallel trace

In the roots-only phase that precedes a compacting collection, objects
enqueued by a helper stayed on that helper's local worklist, which
nobody else can see.  If the helper did not wake up in time for the full
trace, those objects were marked but never traced.  Share them instead.
---
 src/parallel-tracer.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parallel-tracer.h b/src/parallel-tracer.h
index db8afae..753a231 100644
--- a/src/parallel-tracer.h
+++ b/src/parallel-tracer.h
@@ -335,6 +335,16 @@ trace_with_data(struct gc_tracer *tracer,
     if (worker->id == 0) {
       for (size_t i = 1; i < tracer->worker_count; i++)
         pthread_mutex_lock(&tracer->workers[i].lock);
+    } else {
+      // Nothing ensures that this worker will participate in the subsequent
+      // full trace, so make any object that we enqueued available to the
+      // others.
+      while (!local_worklist_empty(&worker->local)) {
+        struct gc_ref *objv;
+        size_t count = local_worklist_pop_many(&worker->local, &objv,
+                                               LOCAL_WORKLIST_SIZE);
+        shared_worklist_push_many(&worker->shared, objv, count);
+      }
     }
   } else {
     LOG("tracer #%zu: tracing objects\n", worker->id);
-- 
2.43.0


From 3a3330d5e009032c072c9875ade1f8ded515c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 04/35] fix: don't confuse the pinned bit with a trace kind
 when tracing precisely

Without conservative tracing, a mutator-pinned object (or an untagged
pointerless one) has the pinned bit set; the tracer interpreted it as
part of the trace kind and aborted.
---
 src/nofl-space.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 2668232..6eccbe1 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1735,7 +1735,12 @@ nofl_space_object_size(struct nofl_space *space, struct gc_ref ref) {
 static inline enum gc_trace_kind
 nofl_metadata_byte_trace_kind(uint8_t byte)
 {
-  switch (byte & NOFL_METADATA_BYTE_TRACE_KIND_MASK) {
+  uint8_t mask = NOFL_METADATA_BYTE_TRACE_KIND_MASK;
+  // Without conservative tracing, the high bit of the trace kind is the pinned
+  // bit, and does not affect how the object should be traced.
+  if (!GC_CONSERVATIVE_TRACE)
+    mask &= ~NOFL_METADATA_BYTE_PINNED;
+  switch (byte & mask) {
   case NOFL_METADATA_BYTE_TRACE_PRECISELY:
     return GC_TRACE_PRECISELY;
   case NOFL_METADATA_BYTE_TRACE_NONE:
-- 
2.43.0


From cd41344dd4a87c47027f1b6af821ac0b6296909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 05/35] fix: trace extern-space objects in mmc instead of
 crashing

When the embedder's extern space asks for an object to be traced, mmc
looked its trace plan up in the large object space, dereferencing NULL.
---
 src/mmc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mmc.c b/src/mmc.c
index a0ad868..2757ee6 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -336,9 +336,13 @@ static inline struct gc_trace_plan
 trace_plan(struct gc_heap *heap, struct gc_ref ref) {
   if (GC_LIKELY(nofl_space_contains(heap_nofl_space(heap), ref))) {
     return nofl_space_object_trace_plan(heap_nofl_space(heap), ref);
-  } else {
+  } else if (large_object_space_contains_with_lock(heap_large_object_space(heap),
+                                                   ref)) {
     return large_object_space_object_trace_plan(heap_large_object_space(heap),
                                                 ref);
+  } else {
+    // The embedder's extern space asked us to trace one of its objects.
+    return (struct gc_trace_plan){ GC_TRACE_PRECISELY, };
   }
 }
 
-- 
2.43.0


From eb97cba892058b654e5d93e6b7b047688934100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 06/35] fix: allow gc_call_without_gc with several mutators in
 debug builds

The assertion dates from when the mutator list was only threaded through
deactivated mutators; the next link is now that of the list of all mutators.
---
 src/mmc.c | 1 -
 src/pcc.c | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index 2757ee6..d79fbe2 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -1242,7 +1242,6 @@ gc_finish_for_thread(struct gc_mutator *mut) {
 
 static void
 deactivate_mutator(struct gc_heap *heap, struct gc_mutator *mut) {
-  GC_ASSERT(mut->next == NULL);
   nofl_allocator_finish(&mut->allocator, heap_nofl_space(heap));
   if (GC_GENERATIONAL)
     gc_field_set_writer_release_buffer(&mut->logger);
diff --git a/src/pcc.c b/src/pcc.c
index 32a7985..0f676c4 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -1310,7 +1310,6 @@ void gc_finish_for_thread(struct gc_mutator *mut) {
 }
 
 static void deactivate_mutator(struct gc_heap *heap, struct gc_mutator *mut) {
-  GC_ASSERT(mut->next == NULL);
   copy_space_allocator_finish(&mut->allocator, heap_allocation_space(heap));
   if (GC_GENERATIONAL)
     gc_field_set_writer_release_buffer(mutator_field_logger(mut));
-- 
2.43.0


From a1305ce409d1d1a2a6089a53ce5401e023ecccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 07/35] fix: map memory at the reserved address

Acquiring memory from a reservation passed the address only as a hint, over
the reservation's own mapping, so the kernel always placed it elsewhere:
the reservation leaked, and the memory was only aligned by luck.
---
 src/gc-platform-gnu-linux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gc-platform-gnu-linux.c b/src/gc-platform-gnu-linux.c
index 3ace189..a1e7ef2 100644
--- a/src/gc-platform-gnu-linux.c
+++ b/src/gc-platform-gnu-linux.c
@@ -163,7 +163,8 @@ gc_platform_acquire_memory_from_reservation(struct gc_reservation reservation,
   GC_ASSERT(offset <= reservation.size - size);
 
   void *mem = mmap((void*)(reservation.base + offset), size,
-                   PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
+                   PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED,
+                   -1, 0);
   if (mem == MAP_FAILED) {
     perror("mmap failed");
     return NULL;
-- 
2.43.0


From f097bc36a319fbb00fe516f9ed2a38c6aa385c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 08/35] fix: stop stealing evacuation targets at the minimum
 reserve when shrinking

The count of available targets was never updated, so shrinking could pop
from an empty list and page out the null block.
---
 src/nofl-space.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 6eccbe1..7d36728 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1829,6 +1829,7 @@ nofl_space_shrink(struct nofl_space *space, size_t bytes) {
       pending = atomic_fetch_sub(&space->pending_unavailable_bytes,
                                  NOFL_BLOCK_SIZE);
       pending -= NOFL_BLOCK_SIZE;
+      avail--;
     }
   }
 
-- 
2.43.0


From 619697763d66e0cd6461925f01cd010a9314b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 09/35] fix: forget a background task when removing it

---
 src/background-thread.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/background-thread.h b/src/background-thread.h
index 7a141ce..e925976 100644
--- a/src/background-thread.h
+++ b/src/background-thread.h
@@ -137,6 +137,7 @@ gc_background_thread_remove_task(struct gc_background_thread *thread,
   size_t bytes_to_move =
     (thread->count - (remove + 1)) * sizeof(struct gc_background_task);
   memmove(&thread->tasks[remove], &thread->tasks[remove + 1], bytes_to_move);
+  thread->count--;
   pthread_mutex_unlock(&thread->lock);
 }
 
-- 
2.43.0


From 29f6bdf7089e9e06b64e0a8fe7fe3d73a0d2286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 10/35] fix: initialize the adaptive sizer's own lock, not the
 background thread's

---
 src/adaptive-heap-sizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptive-heap-sizer.h b/src/adaptive-heap-sizer.h
index 225b44b..dc036ea 100644
--- a/src/adaptive-heap-sizer.h
+++ b/src/adaptive-heap-sizer.h
@@ -157,7 +157,7 @@ gc_make_adaptive_heap_sizer(struct gc_heap *heap, double expansiveness,
   sizer->last_bytes_allocated = get_allocation_counter(heap);
   sizer->last_heartbeat = gc_platform_monotonic_nanoseconds();
 #if GC_PARALLEL
-  pthread_mutex_init(&thread->lock, NULL);
+  pthread_mutex_init(&sizer->lock, NULL);
   sizer->background_task_id =
     gc_background_thread_add_task(thread, GC_BACKGROUND_TASK_MIDDLE,
                                   gc_adaptive_heap_sizer_background_task,
-- 
2.43.0


From 77be4f81f1b5c87ce7c8d957be9745a8a433e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 11/35] fix: let minor collections reclaim freshly mapped large
 objects

---
 src/large-object-space.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/large-object-space.h b/src/large-object-space.h
index 0576f45..5848ad1 100644
--- a/src/large-object-space.h
+++ b/src/large-object-space.h
@@ -497,6 +497,10 @@ large_object_space_alloc(struct large_object_space *space, size_t npages,
       address_map_add(&space->object_map, addr, node_bits);
       space->total_pages += npages;
       pthread_mutex_unlock(&space->object_tree_lock);
+
+      // Add the object to the nursery.
+      if (GC_GENERATIONAL)
+        address_map_add(&space->nursery, addr, node_bits);
     }
   }
 
-- 
2.43.0


From 3d32041ba630b91292dccaf42a1c03eb0e75913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 12/35] fix: mmc: read the kind of a collection after it is
 done

A mutator that paused for a collection while requesting one read the kind
of the collection before the collector had determined it, and so took the
kind of the previous collection: a request for a compacting collection
could return after an in-place one.
---
 src/mmc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mmc.c b/src/mmc.c
index d79fbe2..1d6c388 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -455,13 +455,15 @@ pause_mutator_for_collection(struct gc_heap *heap, struct gc_mutator *mut) {
   MUTATOR_EVENT(mut, mutator_stopping);
   MUTATOR_EVENT(mut, mutator_stopped);
   heap->paused_mutator_count++;
-  enum gc_collection_kind collection_kind = heap->gc_kind;
   if (all_mutators_stopped(heap))
     pthread_cond_signal(&heap->collector_cond);
 
   do
     pthread_cond_wait(&heap->mutator_cond, &heap->lock);
   while (mutators_are_stopping(heap));
+  // The collector determines the kind of collection only once all mutators have
+  // stopped, so wait until the collection is done to read it.
+  enum gc_collection_kind collection_kind = heap->gc_kind;
   heap->paused_mutator_count--;
 
   MUTATOR_EVENT(mut, mutator_restarted);
-- 
2.43.0


From 48b20b1c6d03c607d48fc70db0a86156ae3b7b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 13/35] fix: options: reject sizes and integers that do not fit

A size with a suffix could overflow, and an integer option was truncated
to int: heap-size=16777217t was taken as 1t, and parallelism=4294967297
as 1.
---
 src/gc-options.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/gc-options.c b/src/gc-options.c
index 31de027..ab173a3 100644
--- a/src/gc-options.c
+++ b/src/gc-options.c
@@ -91,15 +91,18 @@ static int parse_size(const char *arg, size_t *val) {
   if (i < 0 || i == LONG_MAX) return 0;
   if (end == arg) return 0;
   char delim = *end;
+  long scale = 1;
   if (delim == 'k' || delim == 'K')
-    ++end, i *= 1024L;
+    ++end, scale = 1024L;
   else if (delim == 'm' || delim == 'M')
-    ++end, i *= 1024L * 1024L;
+    ++end, scale = 1024L * 1024L;
   else if (delim == 'g' || delim == 'G')
-    ++end, i *= 1024L * 1024L * 1024L;
+    ++end, scale = 1024L * 1024L * 1024L;
   else if (delim == 't' || delim == 'T')
-    ++end, i *= 1024L * 1024L * 1024L * 1024L;
+    ++end, scale = 1024L * 1024L * 1024L * 1024L;
 
+  if (i > LONG_MAX / scale) return 0;
+  i *= scale;
   if (*end != '\0') return 0;
   *val = i;
   return 1;
@@ -108,7 +111,7 @@ static int parse_size(const char *arg, size_t *val) {
 static int parse_int(const char *arg, int *val) {
   char *end;
   long i = strtol(arg, &end, 0);
-  if (i == LONG_MIN || i == LONG_MAX || end == arg || *end)
+  if (i < INT_MIN || i > INT_MAX || end == arg || *end)
     return 0;
   *val = i;
   return 1;
-- 
2.43.0


From e82f53503a0cfac620db2d8b5d9889bf376a7a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 14/35] fix: address-set: grow the table in address_set_union

The union of two sets could have more elements than the larger table has
slots, in which case it never terminated.
---
 src/address-set.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/address-set.h b/src/address-set.h
index b1c27fa..ec9935d 100644
--- a/src/address-set.h
+++ b/src/address-set.h
@@ -175,7 +175,9 @@ static int address_set_contains(struct address_set *set, uintptr_t addr) {
 static void address_set_union(struct address_set *set, struct address_set *other) {
   while (set->hash_set.size < other->hash_set.size)
     hash_set_grow(&set->hash_set);
-  hash_set_populate(&set->hash_set, &other->hash_set);
+  for (size_t i = 0; i < other->hash_set.size; i++)
+    if (!hash_set_slot_is_empty(&other->hash_set, i))
+      hash_set_insert(&set->hash_set, hash_set_slot_ref(&other->hash_set, i));
 }
 
 struct address_set_for_each_data {
-- 
2.43.0


From 72c1c567dcc3e4262a14845f58856ffcf2bfd921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 15/35] fix: event listener chain: make it compile

It named a type and fields that do not exist, lacked an include, and passed
mutator_cause_gc on as restarting_mutators.
---
 api/gc-event-listener-chain.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/api/gc-event-listener-chain.h b/api/gc-event-listener-chain.h
index 27b56d5..5559757 100644
--- a/api/gc-event-listener-chain.h
+++ b/api/gc-event-listener-chain.h
@@ -3,6 +3,8 @@
 
 #include "gc-event-listener.h"
 
+#include <stdlib.h>
+
 struct gc_event_listener_chain {
   struct gc_event_listener head; void *head_data;
   struct gc_event_listener tail; void *tail_data;
@@ -80,28 +82,28 @@ static inline void* gc_event_listener_chain_mutator_added(void *data) {
 
 static inline void gc_event_listener_chain_mutator_cause_gc(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.restarting_mutators(mutator->head_data);
-  mutator->chain->tail.restarting_mutators(mutator->tail_data);
+  mutator->chain->head.mutator_cause_gc(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_cause_gc(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_stopping(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_stopping(mutator->head_data);
-  mutator->chain->tail.mutator_stopping(mutator->tail_data);
+  mutator->chain->head.mutator_stopping(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_stopping(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_stopped(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_stopped(mutator->head_data);
-  mutator->chain->tail.mutator_stopped(mutator->tail_data);
+  mutator->chain->head.mutator_stopped(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_stopped(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_restarted(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_restarted(mutator->head_data);
-  mutator->chain->tail.mutator_restarted(mutator->tail_data);
+  mutator->chain->head.mutator_restarted(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_restarted(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_removed(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_removed(mutator->head_data);
-  mutator->chain->tail.mutator_removed(mutator->tail_data);
+  mutator->chain->head.mutator_removed(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_removed(mutator->tail_mutator_data);
   free(mutator);
 }
 
@@ -140,6 +142,6 @@ static inline void gc_event_listener_chain_live_data_size(void *data, size_t siz
   })
 
 #define GC_EVENT_LISTENER_CHAIN_DATA(head, head_data, tail, tail_data)  \
-  ((struct gc_event_listener_chain_data){head, head_data, tail, tail_data})
+  ((struct gc_event_listener_chain){head, head_data, tail, tail_data})
 
 #endif // GC_EVENT_LISTENER_CHAIN_H
-- 
2.43.0


From 41c0d3db3d662f1c11bb9e050972a209de4b3e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 16/35] fix: histogram: percentile of few samples

With fewer samples than 1/p, for example a single one, the percentile was
the bound of the first bucket, whether or not anything was recorded there.
---
 api/gc-histogram.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/api/gc-histogram.h b/api/gc-histogram.h
index 0761a63..f44b093 100644
--- a/api/gc-histogram.h
+++ b/api/gc-histogram.h
@@ -67,7 +67,10 @@ static inline uint64_t gc_histogram_bucket_min_val(uint64_t precision,
     return sum;                                                         \
   }                                                                     \
   static inline uint64_t name##_percentile(struct name *h, double p) {  \
-    uint64_t n = name##_count(h) * p;                                   \
+    uint64_t count = name##_count(h);                                   \
+    if (count == 0) return 0;                                           \
+    uint64_t n = count * p;                                             \
+    if (n == 0) n = 1;                                                  \
     uint64_t sum = 0;                                                   \
     for (size_t bucket = 0; bucket + 1 < name##_size(); bucket++) {     \
       sum += h->buckets[bucket];                                        \
-- 
2.43.0


From 827b512dd34e8dbd5f7ab6ae7fe5c70634722e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 17/35] fix: mmc: correct start-up assertion for conservative
 heaps

Debug builds of the heap-conservative configurations aborted in gc_init.
---
 src/mmc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mmc.c b/src/mmc.c
index 1d6c388..33697fd 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -1170,7 +1170,9 @@ gc_init(const struct gc_options *options, struct gc_stack_addr stack_base,
                offsetof(struct nofl_allocator, sweep));
   GC_ASSERT_EQ(gc_allocator_alloc_table_alignment(), NOFL_SLAB_SIZE);
   GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_TAGGED),
-               NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_PRECISELY);
+               NOFL_METADATA_BYTE_YOUNG |
+               (GC_CONSERVATIVE_TRACE ? NOFL_METADATA_BYTE_TRACE_CONSERVATIVELY
+                : NOFL_METADATA_BYTE_TRACE_PRECISELY));
   GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_TAGGED_POINTERLESS),
                NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_NONE);
   if (GC_CONSERVATIVE_TRACE) {
-- 
2.43.0


From 3b6e9919db42abb839765ebcfbf9baab416bd3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 18/35] verification hook: small worklists and edge buffers
 under GC_VERIF_SMALL_WORKLISTS

---
 src/field-set.h       | 4 ++++
 src/local-worklist.h  | 5 +++++
 src/shared-worklist.h | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/src/field-set.h b/src/field-set.h
index ff9a68e..ec81704 100644
--- a/src/field-set.h
+++ b/src/field-set.h
@@ -10,7 +10,11 @@
 #include "gc-lock.h"
 #include "tracer.h"
 
+#ifdef GC_VERIF_SMALL_WORKLISTS
+#define GC_EDGE_BUFFER_CAPACITY 6
+#else
 #define GC_EDGE_BUFFER_CAPACITY 510
+#endif
 
 struct gc_edge_buffer {
   struct gc_edge_buffer *next;
diff --git a/src/local-worklist.h b/src/local-worklist.h
index 8dcd3e2..fc08aef 100644
--- a/src/local-worklist.h
+++ b/src/local-worklist.h
@@ -3,7 +3,12 @@
 
 #include "assert.h"
 
+#ifdef GC_VERIF_SMALL_WORKLISTS
+// Make overflow, sharing and stealing happen with few objects.
+#define LOCAL_WORKLIST_SIZE 8
+#else
 #define LOCAL_WORKLIST_SIZE 1024
+#endif
 #define LOCAL_WORKLIST_MASK (LOCAL_WORKLIST_SIZE - 1)
 #define LOCAL_WORKLIST_SHARE_AMOUNT (LOCAL_WORKLIST_SIZE * 3 / 4)
 struct local_worklist {
diff --git a/src/shared-worklist.h b/src/shared-worklist.h
index 979c871..b04eb9a 100644
--- a/src/shared-worklist.h
+++ b/src/shared-worklist.h
@@ -23,8 +23,12 @@ struct shared_worklist_buf {
   uintptr_t *data;
 };
 
+#ifdef GC_VERIF_SMALL_WORKLISTS
+#define shared_worklist_buf_min_log_size ((unsigned) 3)
+#else
 // Min size: 8 kB on 64-bit systems, 4 kB on 32-bit.
 #define shared_worklist_buf_min_log_size ((unsigned) 10)
+#endif
 // Max size: 2 GB on 64-bit systems, 1 GB on 32-bit.
 #define shared_worklist_buf_max_log_size ((unsigned) 28)
 
-- 
2.43.0


From f89f00e3bc5d89dbbfd7f622ef9b8586289b5fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 19/35] verification hook: evacuation failures under
 GC_VERIF_FAULTS

---
 src/copy-space.h  |  3 +++
 src/gc-internal.h | 12 ++++++++++++
 src/nofl-space.h  |  2 ++
 src/pcc.c         |  8 ++++++--
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/copy-space.h b/src/copy-space.h
index 7f262c2..a68f177 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -489,6 +489,9 @@ copy_space_allocate(struct copy_space_allocator *alloc,
   GC_ASSERT(size <= gc_allocator_large_threshold());
   size = align_up(size, gc_allocator_small_granule_size());
 
+  if (GC_VERIF_FAIL_EVACUATION())
+    return gc_ref_null();
+
   if (alloc->hp + size <= alloc->limit)
     goto done;
 
diff --git a/src/gc-internal.h b/src/gc-internal.h
index fe1cdf6..3a306f9 100644
--- a/src/gc-internal.h
+++ b/src/gc-internal.h
@@ -14,4 +14,16 @@ uint64_t gc_heap_total_bytes_allocated(struct gc_heap *heap);
 void gc_mutator_adjust_heap_size(struct gc_mutator *mut, uint64_t new_size);
 
 
+// Fault injection, for verification: lets an embedder make evacuation run out
+// of memory at any point at which it may.
+#ifdef GC_VERIF_FAULTS
+int gc_verif_fail_evacuation(void);
+void gc_verif_may_fail_evacuation(int allow);
+#define GC_VERIF_FAIL_EVACUATION() gc_verif_fail_evacuation()
+#define GC_VERIF_MAY_FAIL_EVACUATION(allow) gc_verif_may_fail_evacuation(allow)
+#else
+#define GC_VERIF_FAIL_EVACUATION() 0
+#define GC_VERIF_MAY_FAIL_EVACUATION(allow) do { } while (0)
+#endif
+
 #endif // GC_INTERNAL_H
diff --git a/src/nofl-space.h b/src/nofl-space.h
index 7d36728..81d4107 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -907,6 +907,8 @@ nofl_allocate(struct nofl_allocator *alloc, struct nofl_space *space,
 static struct gc_ref
 nofl_evacuation_allocate(struct nofl_allocator* alloc, struct nofl_space *space,
                          size_t granules) {
+  if (GC_VERIF_FAIL_EVACUATION())
+    return gc_ref_null();
   size_t avail = (alloc->sweep - alloc->alloc) >> NOFL_GRANULE_SIZE_LOG_2;
   while (avail < granules) {
     if (nofl_allocator_has_block(alloc))
diff --git a/src/pcc.c b/src/pcc.c
index 0f676c4..d477d0e 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -369,8 +369,12 @@ static inline int do_minor_trace(struct gc_heap *heap, struct gc_edge edge,
         // evacuation thread (if they run out of newspace).
         gc_field_set_writer_add_edge(trace_worker_field_logger(data), edge);
       }
-      switch (copy_space_forward(new_space, new_space, edge, ref,
-                                 trace_worker_new_space_allocator(data))) {
+      GC_VERIF_MAY_FAIL_EVACUATION(1);
+      enum copy_space_forward_result forwarded =
+        copy_space_forward(new_space, new_space, edge, ref,
+                           trace_worker_new_space_allocator(data));
+      GC_VERIF_MAY_FAIL_EVACUATION(0);
+      switch (forwarded) {
       case COPY_SPACE_FORWARD_UPDATED:
         return 0;
       case COPY_SPACE_FORWARD_EVACUATED:
-- 
2.43.0


From 68886df9d26a255ce15ef22c944298e2e59ddda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 20/35] fix: mmc: do not move objects out of an evacuation
 target

The flag of an evacuation candidate stayed set when the block came out
of the collection empty.  Used as a target by the next compaction, its
new objects could be evacuated again by another tracer that found them
before they were marked.
---
 src/nofl-space.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 81d4107..e9e3b59 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1388,6 +1388,9 @@ nofl_space_finish_gc(struct nofl_space *space,
     struct nofl_block_list to_sweep = {0,};
     struct nofl_block_ref block;
     while (!nofl_block_is_null(block = nofl_block_list_pop(&space->to_sweep))) {
+      // Any evacuation is over.  If this block is empty, it may be a target for
+      // the next one, in which case its objects should not be moved again.
+      nofl_block_clear_flag(block, NOFL_BLOCK_EVACUATE);
       if (nofl_block_is_marked(block.addr)) {
         nofl_block_list_push(&to_sweep, block);
       } else {
-- 
2.43.0


From 453d2efe6b6cf76b06b172160483b85e6de30cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 21/35] fix: mmc: count the survivors in a full evacuation
 target

Such a block looked empty to the next compaction, which chose to move
its contents rather than those of sparse blocks, without gain.
---
 src/nofl-space.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index e9e3b59..7276d62 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -632,15 +632,17 @@ nofl_allocator_release_full_evacuation_target(struct nofl_allocator *alloc,
   GC_ASSERT(alloc->alloc > block.addr);
   GC_ASSERT(alloc->sweep == block.addr + NOFL_BLOCK_SIZE);
   size_t hole_size = alloc->sweep - alloc->alloc;
+  size_t hole_granules = hole_size >> NOFL_GRANULE_SIZE_LOG_2;
   // FIXME: Check how this affects statistics.
   GC_ASSERT_EQ(block.summary->hole_count, 1);
   GC_ASSERT_EQ(block.summary->hole_granules, NOFL_GRANULES_PER_BLOCK);
+  // The block is now full of survivors, up to the hole at its end.
+  block.summary->hole_granules = hole_granules;
   atomic_fetch_add(&space->old_generation_granules,
-                   NOFL_GRANULES_PER_BLOCK);
-  if (hole_size) {
-    hole_size >>= NOFL_GRANULE_SIZE_LOG_2;
+                   NOFL_GRANULES_PER_BLOCK - hole_granules);
+  if (hole_granules) {
     block.summary->holes_with_fragmentation = 1;
-    block.summary->fragmentation_granules = hole_size / NOFL_GRANULE_SIZE;
+    block.summary->fragmentation_granules = hole_granules;
   } else {
     GC_ASSERT_EQ(block.summary->fragmentation_granules, 0);
     GC_ASSERT_EQ(block.summary->holes_with_fragmentation, 0);
-- 
2.43.0


From af820d9e20aa9aca028adf1c3c192eca99e3989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 22/35] fix: mmc: do not run out of space while compaction can
 make room

A large allocation in a fixed-size heap failed if nothing had been
allocated since the last collection, even if that did not compact.
---
 src/mmc.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index 33697fd..5ffc609 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -43,6 +43,7 @@ struct gc_heap {
   size_t size;
   size_t total_allocated_bytes_at_last_gc;
   size_t size_at_last_gc;
+  size_t fragmentation_before_last_gc;
   int collecting;
   int check_pending_ephemerons;
   struct gc_pending_ephemerons *pending_ephemerons;
@@ -518,10 +519,21 @@ heap_estimate_live_data_after_gc(struct gc_heap *heap,
 }
 
 static void
-detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc) {
+detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc,
+                     enum gc_collection_kind requested_kind,
+                     size_t previous_fragmentation) {
   if (heap->sizer.policy != GC_HEAP_SIZE_FIXED)
     return;
 
+  // Compaction may yet make room, if the last collection didn't compact, or if
+  // it did and that helped.
+  if (requested_kind == GC_COLLECTION_COMPACTING
+      && !gc_has_conservative_intraheap_edges()
+      && (heap->gc_kind != GC_COLLECTION_COMPACTING
+          || nofl_space_fragmentation(heap_nofl_space(heap)) + NOFL_BLOCK_SIZE
+             <= previous_fragmentation))
+    return;
+
   if (allocation_since_last_gc > nofl_space_fragmentation(heap_nofl_space(heap)))
     return;
 
@@ -783,8 +795,11 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   nofl_space_add_to_allocation_counter(nofl_space, &allocation_counter);
   large_object_space_add_to_allocation_counter(lospace, &allocation_counter);
   heap->total_allocated_bytes_at_last_gc += allocation_counter;
+  size_t previous_fragmentation = heap->fragmentation_before_last_gc;
+  heap->fragmentation_before_last_gc = nofl_space_fragmentation(nofl_space);
   if (!requested_by_user)
-    detect_out_of_memory(heap, allocation_counter);
+    detect_out_of_memory(heap, allocation_counter, requested_kind,
+                         previous_fragmentation);
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
   int is_minor = gc_kind == GC_COLLECTION_MINOR;
-- 
2.43.0


From ec7daa6ba3bcec13160c2ecc342812ee9b8ca514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 23/35] fix: mmc: do not run out of space if the next
 collection will compact

Small allocations in a fragmented fixed-size heap failed for lack of
allocation since the last collection, though compaction was up next.
---
 src/mmc.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index 5ffc609..664cd81 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -520,24 +520,23 @@ heap_estimate_live_data_after_gc(struct gc_heap *heap,
 
 static void
 detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc,
-                     enum gc_collection_kind requested_kind,
+                     enum gc_collection_kind previous_gc_kind,
                      size_t previous_fragmentation) {
   if (heap->sizer.policy != GC_HEAP_SIZE_FIXED)
     return;
 
-  // Compaction may yet make room, if the last collection didn't compact, or if
-  // it did and that helped.
-  if (requested_kind == GC_COLLECTION_COMPACTING
-      && !gc_has_conservative_intraheap_edges()
-      && (heap->gc_kind != GC_COLLECTION_COMPACTING
-          || nofl_space_fragmentation(heap_nofl_space(heap)) + NOFL_BLOCK_SIZE
-             <= previous_fragmentation))
+  size_t fragmentation = nofl_space_fragmentation(heap_nofl_space(heap));
+  if (allocation_since_last_gc > fragmentation)
     return;
 
-  if (allocation_since_last_gc > nofl_space_fragmentation(heap_nofl_space(heap)))
+  // Compaction may yet make room, if the last collection didn't compact, or if
+  // it did and that helped.
+  if (heap->gc_kind == GC_COLLECTION_COMPACTING
+      && (previous_gc_kind != GC_COLLECTION_COMPACTING
+          || fragmentation + NOFL_BLOCK_SIZE <= previous_fragmentation))
     return;
 
-  if (heap->gc_kind == GC_COLLECTION_MINOR)
+  if (previous_gc_kind == GC_COLLECTION_MINOR)
     return;
 
   // No allocation since last gc: out of memory.
@@ -795,13 +794,14 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   nofl_space_add_to_allocation_counter(nofl_space, &allocation_counter);
   large_object_space_add_to_allocation_counter(lospace, &allocation_counter);
   heap->total_allocated_bytes_at_last_gc += allocation_counter;
+  enum gc_collection_kind previous_gc_kind = heap->gc_kind;
   size_t previous_fragmentation = heap->fragmentation_before_last_gc;
   heap->fragmentation_before_last_gc = nofl_space_fragmentation(nofl_space);
-  if (!requested_by_user)
-    detect_out_of_memory(heap, allocation_counter, requested_kind,
-                         previous_fragmentation);
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
+  if (!requested_by_user)
+    detect_out_of_memory(heap, allocation_counter, previous_gc_kind,
+                         previous_fragmentation);
   int is_minor = gc_kind == GC_COLLECTION_MINOR;
   HEAP_EVENT(heap, prepare_gc, gc_kind);
   nofl_space_prepare_gc(nofl_space, gc_kind);
-- 
2.43.0


From 43c88bb4aaceb447517786b68ae5ec2d37319000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 24/35] fix: mmc: follow a useless minor collection by a major
 one

A generational heap of fixed size that became full did minor collections
forever, instead of reporting that it was out of space.
---
 src/mmc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mmc.c b/src/mmc.c
index 664cd81..acbc728 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -797,6 +797,11 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   enum gc_collection_kind previous_gc_kind = heap->gc_kind;
   size_t previous_fragmentation = heap->fragmentation_before_last_gc;
   heap->fragmentation_before_last_gc = nofl_space_fragmentation(nofl_space);
+  if (GC_GENERATIONAL && requested_kind == GC_COLLECTION_ANY
+      && previous_gc_kind == GC_COLLECTION_MINOR
+      && allocation_counter <= heap->fragmentation_before_last_gc)
+    // The last minor collection made no room; another wouldn't either.
+    requested_kind = GC_COLLECTION_MAJOR;
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
   if (!requested_by_user)
-- 
2.43.0


From f1df12ff794ee9361479b5fdcd5396a52dee2b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 25/35] fix: mmc: a major collection is as good as it gets for
 conservative heaps

A thread that had waited for another's major collection went on to do its
own, to no effect, and concluded that the heap was out of space.
---
 src/mmc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mmc.c b/src/mmc.c
index acbc728..aa088a7 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -859,6 +859,10 @@ trigger_collection(struct gc_mutator *mut,
                    int requested_by_user) {
   struct gc_heap *heap = mutator_heap(mut);
   int prev_kind = -1;
+  // A heap that can't be compacted has nothing better than a major collection.
+  if (gc_has_conservative_intraheap_edges()
+      && requested_kind == GC_COLLECTION_COMPACTING)
+    requested_kind = GC_COLLECTION_MAJOR;
   gc_stack_capture_hot(&mut->stack);
   nofl_allocator_finish(&mut->allocator, heap_nofl_space(heap));
   if (GC_GENERATIONAL)
-- 
2.43.0


From 18ade7bd0d6125b71594445286739b0e51f10fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 26/35] fix: nofl: mark evacuated objects before publishing
 their new address

---
 src/nofl-space.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 7276d62..1fcb48e 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1563,17 +1563,22 @@ nofl_space_evacuate(struct nofl_space *space, uint8_t *metadata, uint8_t byte,
       // commit.
       memcpy(gc_ref_heap_object(new_ref), gc_ref_heap_object(old_ref),
              object_granules * NOFL_GRANULE_SIZE);
-      gc_atomic_forward_commit(&fwd, new_ref);
-      // Now update extent metadata, and indicate to the caller that
-      // the object's fields need to be traced.
+      // Also update extent metadata and mark the new object before committing:
+      // once the new address is visible, other tracers may reach the new object
+      // via an edge to it, and they need to see that it is already marked;
+      // otherwise they would trace it a second time, and could clobber its
+      // metadata byte.
       uint8_t *new_metadata = nofl_metadata_byte_for_object(new_ref);
       memcpy(new_metadata + 1, metadata + 1, object_granules - 1);
       if (GC_GENERATIONAL)
         byte = clear_logged_bits_in_evacuated_object(byte, new_metadata,
                                                      object_granules);
+      int ret = nofl_space_set_nonempty_mark(space, new_metadata, byte,
+                                             new_ref);
+      gc_atomic_forward_commit(&fwd, new_ref);
+      // Now indicate to the caller that the object's fields need to be traced.
       gc_edge_update(edge, new_ref);
-      return nofl_space_set_nonempty_mark(space, new_metadata, byte,
-                                          new_ref);
+      return ret;
     } else {
       // Well shucks; allocation failed.  Mark in place and then release the
       // object.
-- 
2.43.0


From 5f533441e47e112e3314c5266b82350e062dc611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:57 +0000
Subject: [PATCH 27/35] fix: pcc: run out of space instead of collecting
 forever when a fixed heap is full

---
 src/copy-space.h | 14 ++++++++++++++
 src/pcc.c        | 28 ++++++++++++++++++----------
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/copy-space.h b/src/copy-space.h
index a68f177..90d5f25 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -582,6 +582,20 @@ copy_space_can_allocate(struct copy_space *space, size_t bytes) {
   return count;
 }
 
+static int
+copy_space_can_allocate_small(struct copy_space *space, size_t size) {
+  // Mutators stopped, can access nonatomically.
+  size = align_up(size, gc_allocator_small_granule_size());
+  if (space->empty.list.head)
+    return 1;
+  for (struct copy_space_block *block = space->partly_full.list.head;
+       block;
+       block = block->next)
+    if (size <= COPY_SPACE_REGION_SIZE - block->allocated)
+      return 1;
+  return 0;
+}
+
 static void
 copy_space_add_to_allocation_counter(struct copy_space *space,
                                      uint64_t *counter) {
diff --git a/src/pcc.c b/src/pcc.c
index d477d0e..2fab5d0 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -868,10 +868,11 @@ copy_spaces_allocated_bytes(struct gc_heap *heap)
 }
 
 static enum gc_collection_kind
-collect(struct gc_mutator *mut,
-        enum gc_collection_kind requested_kind) GC_NEVER_INLINE;
+collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
+        size_t small_size) GC_NEVER_INLINE;
 static enum gc_collection_kind
-collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
+collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
+        size_t small_size) {
   struct gc_heap *heap = mutator_heap(mut);
   struct large_object_space *lospace = heap_large_object_space(heap);
   struct gc_extern_space *exspace = heap_extern_space(heap);
@@ -926,8 +927,14 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
   gc_heap_sizer_on_gc(heap->sizer, heap->size, live_size, pause_ns,
                       resize_heap);
   {
+    // If the mutator that caused this collection needs to make a small
+    // allocation and there is still no space for it, there is no point in
+    // collecting again.  (If the heap is generational, a nursery that is full
+    // of survivors will be promoted by the next collection.)
     struct copy_space *space = heap_resizable_space(heap);
-    if (!copy_space_page_out_blocks_until_memory_released(space)
+    if ((!copy_space_page_out_blocks_until_memory_released(space)
+         || (!GC_GENERATIONAL && small_size
+             && !copy_space_can_allocate_small(space, small_size)))
         && heap->sizer.policy == GC_HEAP_SIZE_FIXED) {
       fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
       GC_CRASH();
@@ -939,7 +946,8 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
 }
 
 static void trigger_collection(struct gc_mutator *mut,
-                               enum gc_collection_kind requested_kind) {
+                               enum gc_collection_kind requested_kind,
+                               size_t small_size) {
   struct gc_heap *heap = mutator_heap(mut);
   copy_space_allocator_finish(&mut->allocator, heap_allocation_space(heap));
   if (GC_GENERATIONAL)
@@ -949,12 +957,12 @@ static void trigger_collection(struct gc_mutator *mut,
   while (mutators_are_stopping(heap))
     prev_kind = pause_mutator_for_collection(heap, mut);
   if (prev_kind < (int)requested_kind)
-    collect(mut, requested_kind);
+    collect(mut, requested_kind, small_size);
   heap_unlock(heap);
 }
 
 void gc_collect(struct gc_mutator *mut, enum gc_collection_kind kind) {
-  trigger_collection(mut, kind);
+  trigger_collection(mut, kind, 0);
 }
 
 static void* allocate_large(struct gc_mutator *mut, size_t size) {
@@ -966,7 +974,7 @@ static void* allocate_large(struct gc_mutator *mut, size_t size) {
   copy_space_request_release_memory(heap_resizable_space(heap),
                                     npages << space->page_size_log2);
   while (!copy_space_page_out_blocks_until_memory_released(heap_resizable_space(heap)))
-    trigger_collection(mut, GC_COLLECTION_COMPACTING);
+    trigger_collection(mut, GC_COLLECTION_COMPACTING, 0);
   atomic_fetch_add(&heap->large_object_pages, npages);
 
   void *ret = large_object_space_alloc(space, npages, GC_TRACE_PRECISELY);
@@ -980,7 +988,7 @@ static void* allocate_large(struct gc_mutator *mut, size_t size) {
 }
 
 static void get_more_empty_blocks_for_mutator(void *mut) {
-  trigger_collection(mut, GC_COLLECTION_MINOR);
+  trigger_collection(mut, GC_COLLECTION_MINOR, 0);
 }
 
 void* gc_allocate_slow(struct gc_mutator *mut, size_t size,
@@ -1002,7 +1010,7 @@ void* gc_allocate_slow(struct gc_mutator *mut, size_t size,
                               heap_allocation_space(mutator_heap(mut)),
                               size);
     if (gc_ref_is_null(ret))
-      trigger_collection(mut, GC_COLLECTION_MINOR);
+      trigger_collection(mut, GC_COLLECTION_MINOR, size);
     else
       break;
   }
-- 
2.43.0


From be1a9dff96deb70fab213159ea3493c586f44a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 28/35] fix: generational pcc: count objects promoted by minor
 collections as live data

---
 src/pcc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pcc.c b/src/pcc.c
index 2fab5d0..203c8cd 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -861,9 +861,11 @@ copy_spaces_finish_gc(struct gc_heap *heap, int is_minor_gc) {
 static size_t
 copy_spaces_allocated_bytes(struct gc_heap *heap) 
 {
+  // The old space only grows during collections, by promotion: also during minor
+  // collections, which don't finish a cycle for the old space.
   return GC_GENERATIONAL
     ? (heap_new_space(heap)->allocated_bytes_at_last_gc +
-       heap_old_space(heap)->allocated_bytes_at_last_gc)
+       heap_old_space(heap)->allocated_bytes)
     : heap_mono_space(heap)->allocated_bytes_at_last_gc;
 }
 
-- 
2.43.0


From 95db79cd4d5b2b58ba4bb1c8e9fea0614a67c131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:26 +0000
Subject: [PATCH 29/35] fix: mmc: don't run out of space while the evacuation
 reserve has blocks to spare

After a compacting collection, empty blocks go preferentially to the
evacuation reserve, up to half of free space.  The next collection that
doesn't compact returns all but the minimum to the mutator, but a program
that had not allocated much since was declared out of memory before that.
---
 src/mmc.c        |  6 ++++++
 src/nofl-space.h | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/mmc.c b/src/mmc.c
index aa088a7..5fe70c7 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -536,6 +536,12 @@ detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc,
           || fragmentation + NOFL_BLOCK_SIZE <= previous_fragmentation))
     return;
 
+  // The last collection may have left free blocks in the evacuation reserve; if
+  // so, a collection that doesn't compact makes them available to the mutator.
+  if (heap->gc_kind != GC_COLLECTION_COMPACTING
+      && nofl_space_has_excess_evacuation_reserve(heap_nofl_space(heap)))
+    return;
+
   if (previous_gc_kind == GC_COLLECTION_MINOR)
     return;
 
diff --git a/src/nofl-space.h b/src/nofl-space.h
index 1fcb48e..080e227 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1086,6 +1086,16 @@ nofl_space_evacuation_reserve_bytes(struct nofl_space *space) {
   return nofl_block_count(&space->evacuation_targets) * NOFL_BLOCK_SIZE;
 }
 
+// Whether the evacuation reserve holds more than its minimum, for example
+// because the last collection compacted.  The next collection that does not
+// compact will return the excess to the mutator.
+static int
+nofl_space_has_excess_evacuation_reserve(struct nofl_space *space) {
+  size_t target =
+    space->evacuation_minimum_reserve * nofl_active_block_count(space);
+  return nofl_block_count(&space->evacuation_targets) > target;
+}
+
 static size_t
 nofl_space_fragmentation(struct nofl_space *space) {
   size_t young = space->fragmentation_granules_since_last_collection;
-- 
2.43.0


From ca47709850655cafeabc4f34e6f3858af1e7547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:43 +0000
Subject: [PATCH 30/35] fix: generational pcc: make room for promotion in major
 collections

When large objects, previously promoted objects or a shrinking heap have
used up the old space, a major collection had no blocks to promote nursery
objects to, and aborted with "Out of memory", whatever the policy and
however little was live.  Lend it blocks for the duration of the collection;
whether they can be returned then decides whether the heap is full.
---
 src/pcc.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/pcc.c b/src/pcc.c
index 203c8cd..084e6ae 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -835,6 +835,34 @@ determine_collection_kind(struct gc_heap *heap,
   return GC_COLLECTION_COMPACTING;
 }
 
+// A major GC promotes all live nursery objects, but large objects, objects
+// promoted by previous major GCs, or a shrinking heap may have left the oldgen
+// without enough empty blocks for them.  If so, lend some blocks to the oldgen
+// for the duration of this collection.  Returns the number of bytes lent.
+static size_t
+lend_memory_for_promotion(struct gc_heap *heap, int is_minor_gc) {
+  if (!GC_GENERATIONAL || is_minor_gc)
+    return 0;
+  struct copy_space *old_space = heap_old_space(heap);
+  size_t needed = heap_nursery_size(heap);
+  size_t available = copy_space_can_allocate(old_space, needed);
+  if (available >= needed)
+    return 0;
+  size_t bytes =
+    (needed - available) * (COPY_SPACE_BLOCK_SIZE / COPY_SPACE_REGION_SIZE);
+  ssize_t pending = atomic_load(&old_space->bytes_to_page_out);
+  if (pending > 0)
+    bytes += pending;
+  copy_space_expand(old_space, bytes);
+  return bytes;
+}
+
+static void
+reclaim_memory_lent_for_promotion(struct gc_heap *heap, size_t bytes) {
+  if (bytes)
+    copy_space_shrink(heap_old_space(heap), bytes);
+}
+
 static void
 copy_spaces_start_gc(struct gc_heap *heap, int is_minor_gc) {
   if (GC_GENERATIONAL) {
@@ -898,6 +926,7 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   copy_space_add_to_allocation_counter(heap_allocation_space(heap),
                                        counter_loc);
   large_object_space_add_to_allocation_counter(lospace, counter_loc);
+  size_t lent_bytes = lend_memory_for_promotion(heap, is_minor_gc);
   copy_spaces_start_gc(heap, is_minor_gc);
   large_object_space_start_gc(lospace, is_minor_gc);
   gc_extern_space_start_gc(exspace, is_minor_gc);
@@ -915,6 +944,7 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   sweep_ephemerons(heap);
   gc_tracer_release(&heap->tracer);
   copy_spaces_finish_gc(heap, is_minor_gc);
+  reclaim_memory_lent_for_promotion(heap, lent_bytes);
   large_object_space_finish_gc(lospace, is_minor_gc);
   gc_extern_space_finish_gc(exspace, is_minor_gc);
   if (GC_GENERATIONAL && !is_minor_gc)
-- 
2.43.0


From ec9fb6d5e7842356fd734be88363ed0d80344286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:05 +0000
Subject: [PATCH 31/35] fix: semi: leave room for live data and what is about
 to be allocated

The heap sizers don't know that half of a semi-space heap is copy reserve.  A
growable heap with a multiplier below two (the default is 1.75) ran out of space
instead of growing, and an adaptive heap could be resized below its live data,
unmapping part of it.  Keep each half large enough for what is live and what is
about to be allocated, unless the heap size is fixed.
---
 src/semi.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/semi.c b/src/semi.c
index a4ee85f..a915bba 100644
--- a/src/semi.c
+++ b/src/semi.c
@@ -33,6 +33,7 @@ struct semi_space {
   struct region to_space;
   size_t page_size;
   size_t stolen_pages;
+  size_t required_size;
   size_t live_bytes_at_last_gc;
 };
 struct gc_heap {
@@ -158,6 +159,17 @@ static void semi_space_finish_gc(struct semi_space *space,
   space->limit = 0; // set in adjust_heap_size_and_limits
 }
 
+// How large each half has to be to hold what is live and what is about to be
+// allocated, and to leave some room.  The heap sizer doesn't know that there are
+// two halves.
+static void
+semi_space_compute_required_size(struct semi_space *space, size_t for_alloc) {
+  size_t live = space->live_bytes_at_last_gc;
+  size_t stolen = align_up(space->stolen_pages, 2) / 2 * space->page_size;
+  space->required_size =
+    align_up(live + live / 4 + stolen + for_alloc + 1, space->page_size);
+}
+
 static void
 semi_space_add_to_allocation_counter(struct semi_space *space,
                                      uint64_t *counter) {
@@ -316,7 +328,7 @@ static void truncate_region(struct region *region, size_t new_size) {
 static void resize_heap(struct gc_heap *heap, size_t new_heap_size) {
   struct semi_space *semi = heap_semi_space(heap);
   new_heap_size = align_up(new_heap_size, semi->page_size * 2);
-  size_t new_region_size = new_heap_size / 2;
+  size_t new_region_size = max_size(new_heap_size / 2, semi->required_size);
 
   // Note that there is an asymmetry in how heap size is adjusted: we
   // grow in two cycles (first the fromspace, then the tospace after it
@@ -430,12 +442,16 @@ static void collect(struct gc_mutator *mut, size_t for_alloc) {
   size_t live_size = semi->live_bytes_at_last_gc;
   live_size += large_object_space_size_at_last_collection(large);
   live_size += for_alloc;
+  semi_space_compute_required_size(semi, for_alloc);
   uint64_t pause_ns = gc_platform_monotonic_nanoseconds() - start_ns;
   HEAP_EVENT(heap, live_data_size, live_size);
   DEBUG("gc %zu: live size %zu, heap size %zu\n", heap->count, live_size,
         heap->size);
   gc_heap_sizer_on_gc(heap->sizer, heap->size, live_size, pause_ns,
                       resize_heap);
+  if (heap->options->common.heap_size_policy != GC_HEAP_SIZE_FIXED
+      && heap->size < semi->required_size * 2)
+    resize_heap(heap, semi->required_size * 2);
   reset_heap_limits(heap);  
   clear_memory(semi->hp, semi->limit - semi->hp);
 
-- 
2.43.0


From 5c268403cae46c46cef4741822290788b2c21512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:28 +0000
Subject: [PATCH 32/35] fix: pcc: make room for fragmentation in major
 collections

Copying reorders objects, so that the copies can take more blocks than the
originals did; when the space is nearly full, a major collection then aborted
with "Out of memory".  Lend the space blocks for the duration of the
collection, as for promotion in generational heaps.
---
 src/copy-space.h      | 13 +++++++++++++
 src/parallel-tracer.h |  5 +++++
 src/pcc.c             | 42 +++++++++++++++++++++++++-----------------
 src/serial-tracer.h   |  5 +++++
 src/tracer.h          |  3 +++
 5 files changed, 51 insertions(+), 17 deletions(-)

diff --git a/src/copy-space.h b/src/copy-space.h
index 90d5f25..b5de0e9 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -582,6 +582,19 @@ copy_space_can_allocate(struct copy_space *space, size_t bytes) {
   return count;
 }
 
+static size_t
+copy_space_block_count(struct copy_space *space) {
+  // Mutators stopped, can access nonatomically.
+  size_t count = 0;
+  struct copy_space_block *lists[] = {
+    space->empty.list.head, space->partly_full.list.head, space->full.head
+  };
+  for (size_t i = 0; i < 3; i++)
+    for (struct copy_space_block *block = lists[i]; block; block = block->next)
+      count++;
+  return count;
+}
+
 static int
 copy_space_can_allocate_small(struct copy_space *space, size_t size) {
   // Mutators stopped, can access nonatomically.
diff --git a/src/parallel-tracer.h b/src/parallel-tracer.h
index 753a231..81b6fe3 100644
--- a/src/parallel-tracer.h
+++ b/src/parallel-tracer.h
@@ -146,6 +146,11 @@ static void gc_tracer_release(struct gc_tracer *tracer) {
     shared_worklist_release(&tracer->workers[i].shared);
 }
 
+static inline size_t
+gc_tracer_worker_count(struct gc_tracer *tracer) {
+  return tracer->worker_count;
+}
+
 static inline void
 gc_tracer_add_root(struct gc_tracer *tracer, struct gc_root root) {
   root_worklist_push(&tracer->roots, root);
diff --git a/src/pcc.c b/src/pcc.c
index 084e6ae..70be60f 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -835,32 +835,40 @@ determine_collection_kind(struct gc_heap *heap,
   return GC_COLLECTION_COMPACTING;
 }
 
-// A major GC promotes all live nursery objects, but large objects, objects
-// promoted by previous major GCs, or a shrinking heap may have left the oldgen
-// without enough empty blocks for them.  If so, lend some blocks to the oldgen
-// for the duration of this collection.  Returns the number of bytes lent.
+// A major GC needs as many empty blocks as there are blocks in use, and then
+// some: copying reorders objects and so can lose space at the end of each block,
+// and each worker allocates into a block of its own.  In a generational heap, all
+// live nursery objects are promoted too, and large objects, objects promoted by
+// previous major GCs, or a shrinking heap may have left the oldgen without
+// enough empty blocks for them.  If there are too few blocks, lend some for the
+// duration of this collection.  Returns the number of bytes lent.
 static size_t
-lend_memory_for_promotion(struct gc_heap *heap, int is_minor_gc) {
-  if (!GC_GENERATIONAL || is_minor_gc)
+lend_memory_for_copying(struct gc_heap *heap, int is_minor_gc) {
+  if (is_minor_gc)
     return 0;
-  struct copy_space *old_space = heap_old_space(heap);
-  size_t needed = heap_nursery_size(heap);
-  size_t available = copy_space_can_allocate(old_space, needed);
+  struct copy_space *space = heap_resizable_space(heap);
+  size_t used_per_block =
+    COPY_SPACE_REGION_SIZE - gc_allocator_large_threshold();
+  size_t bytes = space->allocated_bytes;
+  if (GC_GENERATIONAL)
+    bytes += heap_nursery_size(heap);
+  size_t needed =
+    bytes / used_per_block + 1 + gc_tracer_worker_count(&heap->tracer);
+  size_t available = copy_space_block_count(space);
   if (available >= needed)
     return 0;
-  size_t bytes =
-    (needed - available) * (COPY_SPACE_BLOCK_SIZE / COPY_SPACE_REGION_SIZE);
-  ssize_t pending = atomic_load(&old_space->bytes_to_page_out);
+  bytes = (needed - available) * COPY_SPACE_BLOCK_SIZE;
+  ssize_t pending = atomic_load(&space->bytes_to_page_out);
   if (pending > 0)
     bytes += pending;
-  copy_space_expand(old_space, bytes);
+  copy_space_expand(space, bytes);
   return bytes;
 }
 
 static void
-reclaim_memory_lent_for_promotion(struct gc_heap *heap, size_t bytes) {
+reclaim_memory_lent_for_copying(struct gc_heap *heap, size_t bytes) {
   if (bytes)
-    copy_space_shrink(heap_old_space(heap), bytes);
+    copy_space_shrink(heap_resizable_space(heap), bytes);
 }
 
 static void
@@ -926,7 +934,7 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   copy_space_add_to_allocation_counter(heap_allocation_space(heap),
                                        counter_loc);
   large_object_space_add_to_allocation_counter(lospace, counter_loc);
-  size_t lent_bytes = lend_memory_for_promotion(heap, is_minor_gc);
+  size_t lent_bytes = lend_memory_for_copying(heap, is_minor_gc);
   copy_spaces_start_gc(heap, is_minor_gc);
   large_object_space_start_gc(lospace, is_minor_gc);
   gc_extern_space_start_gc(exspace, is_minor_gc);
@@ -944,7 +952,7 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   sweep_ephemerons(heap);
   gc_tracer_release(&heap->tracer);
   copy_spaces_finish_gc(heap, is_minor_gc);
-  reclaim_memory_lent_for_promotion(heap, lent_bytes);
+  reclaim_memory_lent_for_copying(heap, lent_bytes);
   large_object_space_finish_gc(lospace, is_minor_gc);
   gc_extern_space_finish_gc(exspace, is_minor_gc);
   if (GC_GENERATIONAL && !is_minor_gc)
diff --git a/src/serial-tracer.h b/src/serial-tracer.h
index a3289e3..7840d88 100644
--- a/src/serial-tracer.h
+++ b/src/serial-tracer.h
@@ -40,6 +40,11 @@ static void gc_tracer_release(struct gc_tracer *tracer) {
   simple_worklist_release(&tracer->worklist);
 }
 
+static inline size_t
+gc_tracer_worker_count(struct gc_tracer *tracer) {
+  return 1;
+}
+
 static inline void
 gc_tracer_add_root(struct gc_tracer *tracer, struct gc_root root) {
   root_worklist_push(&tracer->roots, root);
diff --git a/src/tracer.h b/src/tracer.h
index c563a70..fe05454 100644
--- a/src/tracer.h
+++ b/src/tracer.h
@@ -46,6 +46,9 @@ static void gc_tracer_prepare(struct gc_tracer *tracer);
 // Release any resources allocated during the trace.
 static void gc_tracer_release(struct gc_tracer *tracer);
 
+// Number of workers that may trace, including the thread that collects.
+static inline size_t gc_tracer_worker_count(struct gc_tracer *tracer);
+
 // Add root objects to the trace.  Call before tracer_trace.
 static inline void gc_tracer_add_root(struct gc_tracer *tracer,
                                       struct gc_root root);
-- 
2.43.0


From a35a7f2812a90e952901cb7c808667b2451bbf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 33/35] fix: pcc: grow a growable or adaptive heap that is out
 of space

The heap sizer doesn't know about the copy reserve, nor about what the program is
about to allocate: with the default multiplier, or if a large object was larger
than the heap, pcc collected forever.
---
 src/pcc.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pcc.c b/src/pcc.c
index 70be60f..7f2e50b 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -974,10 +974,18 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
     struct copy_space *space = heap_resizable_space(heap);
     if ((!copy_space_page_out_blocks_until_memory_released(space)
          || (!GC_GENERATIONAL && small_size
-             && !copy_space_can_allocate_small(space, small_size)))
-        && heap->sizer.policy == GC_HEAP_SIZE_FIXED) {
-      fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
-      GC_CRASH();
+             && !copy_space_can_allocate_small(space, small_size)))) {
+      if (heap->sizer.policy == GC_HEAP_SIZE_FIXED) {
+        fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
+        GC_CRASH();
+      }
+      // The sizer doesn't know about the copy reserve, nor about what the
+      // program is about to allocate.
+      ssize_t pending = atomic_load(&space->bytes_to_page_out);
+      size_t bytes = live_size / 4 + COPY_SPACE_BLOCK_SIZE;
+      if (pending > 0)
+        bytes += pending;
+      resize_heap(heap, heap->size + bytes);
     }
   }
   HEAP_EVENT(heap, restarting_mutators);
-- 
2.43.0


From 23f3ce7c2df645b3304a4707c642a97516c40b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 34/35] fix: mmc: count large objects in the live data size of
 major collections

The live data of the last collection was computed after the large object space
had reset its live size, so that large objects were left out.
---
 src/mmc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmc.c b/src/mmc.c
index 5fe70c7..b45bb48 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -815,12 +815,13 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
                          previous_fragmentation);
   int is_minor = gc_kind == GC_COLLECTION_MINOR;
   HEAP_EVENT(heap, prepare_gc, gc_kind);
+  // Starting a collection resets the spaces' live sizes.
+  double yield = heap_last_gc_yield(heap);
   nofl_space_prepare_gc(nofl_space, gc_kind);
   large_object_space_start_gc(lospace, is_minor);
   gc_extern_space_start_gc(exspace, is_minor);
   resolve_ephemerons_lazily(heap);
   gc_tracer_prepare(&heap->tracer);
-  double yield = heap_last_gc_yield(heap);
   double fragmentation = heap_fragmentation(heap);
   size_t live_bytes = heap->size * (1.0 - yield);
   HEAP_EVENT(heap, live_data_size, live_bytes);
-- 
2.43.0


From 3981990b29b832b85bc97687a5a1b59d330a538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 35/35] fix: mmc: grow a growable or adaptive heap that is out
 of space

The heap sizer doesn't know what the program is about to allocate: if a large
object was larger than the heap, mmc collected forever.
---
 src/mmc.c | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index b45bb48..06c96b5 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -487,6 +487,18 @@ resize_heap(struct gc_heap *heap, size_t new_size) {
   HEAP_EVENT(heap, heap_resized, new_size);
 }
 
+// Grow the heap because of what the program is about to allocate, which the
+// sizer can't know.
+static void
+grow_heap(struct gc_heap *heap) {
+  ssize_t pending =
+    atomic_load(&heap_nofl_space(heap)->pending_unavailable_bytes);
+  size_t bytes = heap->size / 4 + NOFL_BLOCK_SIZE;
+  if (pending > 0)
+    bytes += pending;
+  resize_heap(heap, heap->size + bytes);
+}
+
 static double
 heap_last_gc_yield(struct gc_heap *heap) {
   size_t live_size =
@@ -518,32 +530,34 @@ heap_estimate_live_data_after_gc(struct gc_heap *heap,
   return bytes;
 }
 
-static void
+// Return nonzero if collection does not help, and the heap needs to grow; a
+// fixed-size heap is out of memory then.
+static int
 detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc,
                      enum gc_collection_kind previous_gc_kind,
                      size_t previous_fragmentation) {
-  if (heap->sizer.policy != GC_HEAP_SIZE_FIXED)
-    return;
-
   size_t fragmentation = nofl_space_fragmentation(heap_nofl_space(heap));
   if (allocation_since_last_gc > fragmentation)
-    return;
+    return 0;
 
   // Compaction may yet make room, if the last collection didn't compact, or if
   // it did and that helped.
   if (heap->gc_kind == GC_COLLECTION_COMPACTING
       && (previous_gc_kind != GC_COLLECTION_COMPACTING
           || fragmentation + NOFL_BLOCK_SIZE <= previous_fragmentation))
-    return;
+    return 0;
 
   // The last collection may have left free blocks in the evacuation reserve; if
   // so, a collection that doesn't compact makes them available to the mutator.
   if (heap->gc_kind != GC_COLLECTION_COMPACTING
       && nofl_space_has_excess_evacuation_reserve(heap_nofl_space(heap)))
-    return;
+    return 0;
 
   if (previous_gc_kind == GC_COLLECTION_MINOR)
-    return;
+    return 0;
+
+  if (heap->sizer.policy != GC_HEAP_SIZE_FIXED)
+    return 1;
 
   // No allocation since last gc: out of memory.
   fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
@@ -810,9 +824,9 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
     requested_kind = GC_COLLECTION_MAJOR;
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
-  if (!requested_by_user)
-    detect_out_of_memory(heap, allocation_counter, previous_gc_kind,
-                         previous_fragmentation);
+  int needs_to_grow = !requested_by_user
+    && detect_out_of_memory(heap, allocation_counter, previous_gc_kind,
+                            previous_fragmentation);
   int is_minor = gc_kind == GC_COLLECTION_MINOR;
   HEAP_EVENT(heap, prepare_gc, gc_kind);
   // Starting a collection resets the spaces' live sizes.
@@ -855,6 +869,8 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   DEBUG("--- total live bytes estimate: %zu\n", live_bytes_estimate);
   gc_heap_sizer_on_gc(heap->sizer, heap->size, live_bytes_estimate, pause_ns,
                       resize_heap);
+  if (needs_to_grow)
+    grow_heap(heap);
   heap->size_at_last_gc = heap->size;
   HEAP_EVENT(heap, restarting_mutators);
   allow_mutators_to_continue(heap);
-- 
2.43.0

