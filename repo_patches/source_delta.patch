From 215d4e7bda0247a1cf58329f17e114de2c7d44bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:35 +0000
Subject: [PATCH 01/59] fix: serialize a NULL string field as an empty string

A NULL string was written as zero bytes, so the reader took the following
bytes of the stream for the string and lost synchronisation.
---
 lib/include/hawktracer/event_macros.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/include/hawktracer/event_macros.h b/lib/include/hawktracer/event_macros.h
index 4c3618b..360c564 100644
--- a/lib/include/hawktracer/event_macros.h
+++ b/lib/include/hawktracer/event_macros.h
@@ -16,7 +16,7 @@
 #define HT_EVENT_RUNTIME_SIZEOF_INTEGER(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
 #define HT_EVENT_RUNTIME_SIZEOF_POINTER(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
 #define HT_EVENT_RUNTIME_SIZEOF_DOUBLE(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
-#define HT_EVENT_RUNTIME_SIZEOF_STRING(VAR_NAME, FIELD, C_TYPE) (VAR_NAME->FIELD ? strlen(VAR_NAME->FIELD) + 1 : 0)
+#define HT_EVENT_RUNTIME_SIZEOF_STRING(VAR_NAME, FIELD, C_TYPE) (VAR_NAME->FIELD ? strlen(VAR_NAME->FIELD) + 1 : 1)
 #define HT_EVENT_RUNTIME_SIZEOF__(VAR_NAME, DATA_TYPE, C_TYPE, FIELD, ...) +HT_EVENT_RUNTIME_SIZEOF_##DATA_TYPE(VAR_NAME, FIELD, C_TYPE)
 #define HT_EVENT_RUNTIME_SIZEOF_(...) MKCREFLECT_EXPAND_(HT_EVENT_RUNTIME_SIZEOF__(__VA_ARGS__, 0))
 #define HT_EVENT_RUNTIME_SIZEOF(X, USER_DATA) HT_EVENT_RUNTIME_SIZEOF_(USER_DATA, MKCREFLECT_EXPAND_VA_ X)
@@ -28,8 +28,9 @@
 #define HT_EVENT_RUNTIME_SERIALIZE_POINTER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_DOUBLE(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_STRING(C_TYPE, FIELD) do {\
-    size_t len = (VAR_NAME->FIELD) ? strlen(VAR_NAME->FIELD) + 1 : 0; \
-    memcpy(buffer + offset, VAR_NAME->FIELD, len); \
+    const char* str = (VAR_NAME->FIELD) ? VAR_NAME->FIELD : ""; \
+    size_t len = strlen(str) + 1; \
+    memcpy(buffer + offset, str, len); \
     offset += len; \
 } while (0);
 #define HT_EVENT_RUNTIME_SERIALIZE__(DATA_TYPE, C_TYPE, FIELD, ...) HT_EVENT_RUNTIME_SERIALIZE_##DATA_TYPE(C_TYPE, FIELD)
-- 
2.43.0


From 83beda0cef20e7184651647443f6ef3ec0ebec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:40 +0000
Subject: [PATCH 02/59] fix: serialize a struct field at its own offset

A struct field that is not the first one was written over the beginning of
the event.
---
 lib/include/hawktracer/event_macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/hawktracer/event_macros.h b/lib/include/hawktracer/event_macros.h
index 360c564..55cdba2 100644
--- a/lib/include/hawktracer/event_macros.h
+++ b/lib/include/hawktracer/event_macros.h
@@ -23,7 +23,7 @@
 
 #define HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD) memcpy(buffer + offset, (char*)&VAR_NAME->FIELD, sizeof(VAR_NAME->FIELD)), offset += sizeof(VAR_NAME->FIELD);
 
-#define HT_EVENT_RUNTIME_SERIALIZE_STRUCT(C_TYPE, FIELD) offset += HT_EVENT_SERIALIZE_FUNCTION(C_TYPE)(((HT_Event*)&VAR_NAME->FIELD), buffer);
+#define HT_EVENT_RUNTIME_SERIALIZE_STRUCT(C_TYPE, FIELD) offset += HT_EVENT_SERIALIZE_FUNCTION(C_TYPE)(((HT_Event*)&VAR_NAME->FIELD), buffer + offset);
 #define HT_EVENT_RUNTIME_SERIALIZE_INTEGER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_POINTER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_DOUBLE(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
-- 
2.43.0


From ea34546eca24f46827c5628a4294c36add81fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:38 +0000
Subject: [PATCH 03/59] fix: do not overflow the listener buffer with an event
 bigger than it

An unserialized event that does not fit into an empty buffer was serialized
past its end (or to NULL when buffering is disabled).
---
 lib/listener_buffer.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/lib/listener_buffer.c b/lib/listener_buffer.c
index 4249e58..300aae6 100644
--- a/lib/listener_buffer.c
+++ b/lib/listener_buffer.c
@@ -3,7 +3,6 @@
 #include "internal/listener_buffer.h"
 
 #include <string.h>
-#include <assert.h>
 
 #define HT_MIN(a, b) (((a) > (b)) ? (b) : (a))
 #define HT_IS_BYPASS_MODE(buffer) (buffer->max_size == 0)
@@ -75,18 +74,32 @@ ht_listener_buffer_process_unserialized_events(HT_ListenerBuffer* buffer,
 {
     size_t i;
 
-    assert(!HT_IS_BYPASS_MODE(buffer));
-
     for (i = 0; i < size;)
     {
         HT_Event* event = HT_EVENT(events + i);
+        size_t event_size = HT_EVENT_GET_KLASS(event)->get_size(event);
 
-        if (HT_EVENT_GET_KLASS(event)->get_size(event) + buffer->usage > buffer->max_size)
+        if (event_size + buffer->usage > buffer->max_size && buffer->usage > 0)
         {
             ht_listener_buffer_flush(buffer, flush_callback, listener);
         }
 
-        buffer->usage += HT_EVENT_GET_KLASS(event)->serialize(event, buffer->data + buffer->usage);
+        if (event_size > buffer->max_size)
+        {
+            /* The event never fits into the buffer, so it goes directly to the listener. */
+            HT_Byte* event_data = (HT_Byte*)ht_alloc(event_size);
+            if (event_data != NULL)
+            {
+                HT_EVENT_GET_KLASS(event)->serialize(event, event_data);
+                flush_callback(listener, event_data, event_size);
+                ht_free(event_data);
+            }
+        }
+        else
+        {
+            buffer->usage += HT_EVENT_GET_KLASS(event)->serialize(event, buffer->data + buffer->usage);
+        }
+
         i += HT_EVENT_GET_KLASS(event)->type_info->size;
     }
 }
-- 
2.43.0


From 1483d24819f57b85411c707f13cc47f042495339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:42 +0000
Subject: [PATCH 04/59] fix: resize a bag according to the size of its elements

Bags with elements bigger than a pointer (timeline listeners) were shrunk or
grown to too few bytes and overflowed.
---
 lib/include/internal/bag.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/internal/bag.h b/lib/include/internal/bag.h
index e53d5fe..8b5bde3 100644
--- a/lib/include/internal/bag.h
+++ b/lib/include/internal/bag.h
@@ -29,7 +29,7 @@ HT_DECLS_BEGIN
     static HT_INLINE HT_Boolean \
     ht_bag##METHOD_SUFFIX##_resize_(HT_Bag##TYPE_SUFFIX* bag, size_t new_capacity) \
     { \
-        TYPE* ptr = (TYPE*)ht_realloc(bag->data, new_capacity * sizeof(void*)); \
+        TYPE* ptr = (TYPE*)ht_realloc(bag->data, new_capacity * sizeof(TYPE)); \
         \
         if (ptr == NULL) \
         { \
-- 
2.43.0


From f391fc108fd0368a537cefb6b9aa6e329d90b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:06 +0000
Subject: [PATCH 05/59] fix: check the space for raw metadata events by their
 actual size

---
 lib/registry.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index 1ba6a2e..416b95f 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -222,6 +222,12 @@ _ht_registry_init_event_klass_field_info_event(HT_EventKlass* klass, size_t fiel
     event->size = info->size;
 }
 
+static size_t
+_ht_registry_get_event_size(HT_Event* event, HT_Boolean serialize)
+{
+    return serialize ? event->klass->get_size(event) : event->klass->type_info->size;
+}
+
 static size_t
 _ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
 {
@@ -230,7 +236,7 @@ _ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t*
     HT_DECL_EVENT(HT_EventKlassInfoEvent, event);
     _ht_registry_init_event_klass_info_event(klass, &event);
 
-    if (ht_HT_EventKlassInfoEvent_get_size(HT_EVENT(&event)) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
+    if (_ht_registry_get_event_size(HT_EVENT(&event), serialize) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
     {
         callback(data, *data_pos, serialize, listener);
         total_size += *data_pos;
@@ -244,7 +250,7 @@ _ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t*
         HT_DECL_EVENT(HT_EventKlassFieldInfoEvent, field_event);
         _ht_registry_init_event_klass_field_info_event(klass, j, &field_event);
 
-        if (ht_HT_EventKlassFieldInfoEvent_get_size(HT_EVENT(&field_event)) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
+        if (_ht_registry_get_event_size(HT_EVENT(&field_event), serialize) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
         {
             callback(data, *data_pos, serialize, listener);
             total_size += *data_pos;
-- 
2.43.0


From bd9864d9a5119ec93b75c86c7bf268581da7ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:36 +0000
Subject: [PATCH 06/59] fix: assign thread ids atomically

---
 lib/thread.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/thread.c b/lib/thread.c
index 4925b8f..c8fdce1 100644
--- a/lib/thread.c
+++ b/lib/thread.c
@@ -1,6 +1,16 @@
 #include "hawktracer/thread.h"
 
-static HT_ThreadId _ht_current_thread_id = 0; // TODO: this must be atomic
+static volatile HT_ThreadId _ht_current_thread_id = 0;
+
+static HT_ThreadId
+_ht_thread_next_thread_id(void)
+{
+#if defined(__GNUC__)
+    return __sync_add_and_fetch(&_ht_current_thread_id, 1);
+#else
+    return ++_ht_current_thread_id; // TODO: this must be atomic
+#endif
+}
 
 HT_ThreadId
 ht_thread_get_current_thread_id(void)
@@ -9,7 +19,7 @@ ht_thread_get_current_thread_id(void)
 
     if (!thread_id)
     {
-        thread_id = ++_ht_current_thread_id;
+        thread_id = _ht_thread_next_thread_id();
     }
 
     return thread_id;
-- 
2.43.0


From d2da767821f364a7251373bc3230621a2a4e29ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:42 +0000
Subject: [PATCH 07/59] fix: survive failed allocations in timeline and event
 id provider

---
 lib/event_id_provider.cpp |  5 ++++-
 lib/timeline.c            | 10 +++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/event_id_provider.cpp b/lib/event_id_provider.cpp
index 405ca79..a117158 100644
--- a/lib/event_id_provider.cpp
+++ b/lib/event_id_provider.cpp
@@ -25,7 +25,10 @@ HT_EventIdProvider*
 ht_event_id_provider_create(void)
 {
     HT_EventIdProvider* provider = HT_CREATE_TYPE(HT_EventIdProvider);
-    provider->current_identifier = 0;
+    if (provider != NULL)
+    {
+        provider->current_identifier = 0;
+    }
     return provider;
 }
 
diff --git a/lib/timeline.c b/lib/timeline.c
index 5ad67bd..27f2120 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -70,9 +70,12 @@ ht_timeline_push_event(HT_Timeline* timeline, HT_Event* event)
             if (size > sizeof(local_buffer)/sizeof(local_buffer[0]))
             {
                 HT_Byte* buff = (HT_Byte*)ht_alloc(size);
-                event->klass->serialize(event, buff);
-                ht_timeline_listener_container_notify_listeners(timeline->listeners, buff, size, timeline->serialize_events);
-                ht_free(buff);
+                if (buff != NULL)
+                {
+                    event->klass->serialize(event, buff);
+                    ht_timeline_listener_container_notify_listeners(timeline->listeners, buff, size, timeline->serialize_events);
+                    ht_free(buff);
+                }
             }
             else
             {
@@ -192,6 +195,7 @@ ht_timeline_create(size_t buffer_capacity,
 
     if (timeline == NULL)
     {
+        error_code = HT_ERR_OUT_OF_MEMORY;
         goto done;
     }
 
-- 
2.43.0


From 4a2df5a0100f5ec77d2c47fd95bf6decbf8ea5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:48 +0000
Subject: [PATCH 08/59] fix: free the task when it cannot be scheduled

---
 lib/task_scheduler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/task_scheduler.c b/lib/task_scheduler.c
index beb16ca..3bef93d 100644
--- a/lib/task_scheduler.c
+++ b/lib/task_scheduler.c
@@ -109,6 +109,7 @@ ht_task_scheduler_schedule_task(HT_TaskScheduler* task_scheduler,
 
     if (ht_bag_void_ptr_add(&task_scheduler->tasks, task) != HT_ERR_OK)
     {
+        ht_free(task);
         return HT_TASK_SCHEDULER_INVALID_TASK_ID;
     }
 
-- 
2.43.0


From 32d10b551c251af2d0dd8ed0f02d8319922f9e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:54 +0000
Subject: [PATCH 09/59] fix: remove the key that was just added when hash map
 insertion fails

---
 lib/hash_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash_map.c b/lib/hash_map.c
index 44a0361..a90423a 100644
--- a/lib/hash_map.c
+++ b/lib/hash_map.c
@@ -117,7 +117,7 @@ ht_hash_map_insert(HT_HashMap* map, uint64_t key, const char* value, HT_ErrorCod
     err = ht_bag_void_ptr_add(&bucket->value_bag, (void*)value);
     if (err != HT_ERR_OK)
     {
-        ht_bag_uint64_remove_nth(&bucket->key_bag, ht_bag_size(bucket->key_bag));
+        ht_bag_uint64_remove_nth(&bucket->key_bag, ht_bag_size(bucket->key_bag) - 1);
     }
 
     HT_SET_ERROR(out_err, err);
-- 
2.43.0


From 6dc950d50f9380dffa4f26536958bb472c42b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:00 +0000
Subject: [PATCH 10/59] fix: no out-of-bounds read when getting a feature that
 is not registered

---
 lib/timeline.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/timeline.c b/lib/timeline.c
index 27f2120..e0028ab 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -152,6 +152,11 @@ ht_timeline_set_feature(HT_Timeline* timeline, HT_Feature* feature)
 HT_Feature*
 ht_timeline_get_feature(HT_Timeline* timeline, HT_FeatureKlass* feature_klass)
 {
+    if (feature_klass->id >= HT_TIMELINE_MAX_FEATURES)
+    {
+        return NULL;
+    }
+
     return timeline->features[feature_klass->id];
 }
 
-- 
2.43.0


From 71aab58743bad56af51922e388b5d93b67bbcf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:23 +0000
Subject: [PATCH 11/59] fix: keep classes registered over nested and repeated
 initialization

---
 lib/init.c     |  7 +++++--
 lib/registry.c | 21 ++++++++++++---------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/lib/init.c b/lib/init.c
index b6cb515..e4fdf0c 100644
--- a/lib/init.c
+++ b/lib/init.c
@@ -15,6 +15,11 @@ ht_init(int argc, char** argv)
 {
     ht_command_line_parse_args(argc, argv);
 
+    if (_ht_init_counter++ > 0)
+    {
+        return;
+    }
+
     ht_registry_init();
 
     HT_REGISTER_EVENT_KLASS(HT_EndiannessInfoEvent);
@@ -32,8 +37,6 @@ ht_init(int argc, char** argv)
 #ifdef HT_USE_PTHREADS
     _ht_posix_mapped_tracepoint_init();
 #endif
-
-    _ht_init_counter++;
 }
 
 HT_Boolean
diff --git a/lib/registry.c b/lib/registry.c
index 416b95f..761f25c 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -100,19 +100,22 @@ done:
 HT_EventKlassId
 ht_registry_register_event_klass(HT_EventKlass* event_klass)
 {
-    if (event_klass->klass_id == HT_INVALID_KLASS_ID)
-    {
-        ht_mutex_lock(event_klass_registry_register_mutex);
+    HT_EventKlassId klass_id;
 
-        if (ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK)
-        {
-            event_klass->klass_id = (HT_EventKlassId)event_klass_register.size - 1;
-        }
+    ht_mutex_lock(event_klass_registry_register_mutex);
 
-        ht_mutex_unlock(event_klass_registry_register_mutex);
+    klass_id = event_klass->klass_id;
+    /* The class might have been registered before the registry was (re)initialized */
+    if (klass_id >= event_klass_register.size || event_klass_register.data[klass_id] != event_klass)
+    {
+        klass_id = ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK ?
+                    (HT_EventKlassId)event_klass_register.size - 1 : HT_INVALID_KLASS_ID;
+        event_klass->klass_id = klass_id;
     }
 
-    return event_klass->klass_id;
+    ht_mutex_unlock(event_klass_registry_register_mutex);
+
+    return klass_id;
 }
 
 HT_EventKlass**
-- 
2.43.0


From 9c454430c3f9bac1258ba2e9cd92a10a7bb8e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:03 +0000
Subject: [PATCH 12/59] fix: set the feature id before another thread may
 register the feature

---
 lib/registry.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index 761f25c..fe3afae 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -55,10 +55,10 @@ HT_ErrorCode ht_registry_register_feature(HT_FeatureKlass* klass)
     feature_register[feature_count++] = HT_TRUE;
 
 register_feature_finalize:
-    ht_mutex_unlock(features_register_mutex);
-
     klass->id = feature_id;
 
+    ht_mutex_unlock(features_register_mutex);
+
     return err;
 }
 
-- 
2.43.0


From f4a3cbadcb720226423d874f1a00c487284ea039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:10 +0000
Subject: [PATCH 13/59] fix: share named listener containers also when threads
 or allocation failures race

---
 lib/registry.c          | 41 ++++++++++++++++++++++++-----------------
 lib/timeline_listener.c | 12 +++++++++---
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index fe3afae..e151237 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -143,51 +143,58 @@ ht_registry_deinit(void)
     ht_bag_void_ptr_deinit(&event_klass_register);
 }
 
-HT_TimelineListenerContainer*
-ht_registry_find_listener_container(const char* name)
+static HT_TimelineListenerContainer*
+_ht_registry_find_listener_container_unlocked(uint32_t id)
 {
     size_t i;
-    uint32_t id = djb2_hash(name);
 
-    ht_mutex_lock(listeners_register_mutex);
     for (i = 0; i < listeners_register.size; i++)
     {
         if (ht_timeline_listener_container_get_id((HT_TimelineListenerContainer*)listeners_register.data[i]) == id)
         {
-            HT_TimelineListenerContainer* container = (HT_TimelineListenerContainer*)listeners_register.data[i];
-            ht_mutex_unlock(listeners_register_mutex);
-            return container;
+            return (HT_TimelineListenerContainer*)listeners_register.data[i];
         }
     }
-    ht_mutex_unlock(listeners_register_mutex);
 
     return NULL;
 }
 
+HT_TimelineListenerContainer*
+ht_registry_find_listener_container(const char* name)
+{
+    HT_TimelineListenerContainer* container;
+
+    ht_mutex_lock(listeners_register_mutex);
+    container = _ht_registry_find_listener_container_unlocked(djb2_hash(name));
+    ht_mutex_unlock(listeners_register_mutex);
+
+    return container;
+}
+
 HT_ErrorCode
 ht_registry_register_listener_container(const char* name, HT_TimelineListenerContainer* container)
 {
     HT_ErrorCode error_code;
+    uint32_t id = djb2_hash(name);
 
-    if (ht_registry_find_listener_container(name) != NULL)
+    ht_mutex_lock(listeners_register_mutex);
+
+    if (_ht_registry_find_listener_container_unlocked(id) != NULL)
     {
+        ht_mutex_unlock(listeners_register_mutex);
         return HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED;
     }
 
-    ht_mutex_lock(listeners_register_mutex);
-    ht_timeline_listener_container_set_id(container, djb2_hash(name));
-    ht_timeline_listener_container_ref(container);
-
     error_code = ht_bag_void_ptr_add(&listeners_register, container);
-    if (error_code != HT_ERR_OK)
+    if (error_code == HT_ERR_OK)
     {
-        ht_mutex_unlock(listeners_register_mutex);
-        return error_code;
+        ht_timeline_listener_container_set_id(container, id);
+        ht_timeline_listener_container_ref(container);
     }
 
     ht_mutex_unlock(listeners_register_mutex);
 
-    return HT_ERR_OK;
+    return error_code;
 }
 
 #define REGISTRY_LISETNER_BUFF_SIZE 4096
diff --git a/lib/timeline_listener.c b/lib/timeline_listener.c
index 1bdd207..3de83ed 100644
--- a/lib/timeline_listener.c
+++ b/lib/timeline_listener.c
@@ -184,14 +184,20 @@ ht_find_or_create_listener(const char* name)
         if (container == NULL)
         {
             container = ht_timeline_listener_container_create();
-            if (container != NULL)
+            if (container != NULL && ht_registry_register_listener_container(name, container) != HT_ERR_OK)
             {
-                ht_registry_register_listener_container(name, container);
+                ht_timeline_listener_container_unref(container);
+                /* another thread might have registered the container in the meantime */
+                container = ht_registry_find_listener_container(name);
+                if (container != NULL)
+                {
+                    ht_timeline_listener_container_ref(container);
+                }
             }
         }
         else
         {
-            container->refcount++;
+            ht_timeline_listener_container_ref(container);
         }
     }
 
-- 
2.43.0


From 4bcf74728090ce9ee398a73e33de7e08e581ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:15 +0000
Subject: [PATCH 14/59] fix: add a dynamic label atomically and check for
 allocation failures

---
 lib/feature_cached_string.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/feature_cached_string.c b/lib/feature_cached_string.c
index 0cd7c8b..eb431a6 100644
--- a/lib/feature_cached_string.c
+++ b/lib/feature_cached_string.c
@@ -177,14 +177,29 @@ ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char*
 
     if (ht_hash_map_get_value(&f->dynamic_hashes, hash_value) == NULL)
     {
-        HT_FCS_UNLOCK_(f);
-
+        HT_ErrorCode error_code = HT_ERR_OUT_OF_MEMORY;
         size_t label_len = strlen(label);
         char* new_label = (char*)ht_alloc(label_len + 1);
-        memcpy(new_label, label, label_len);
-        new_label[label_len] = 0;
 
-        ht_feature_cached_string_add_mapping_(timeline, &f->dynamic_hashes, hash_value, new_label);
+        if (new_label != NULL)
+        {
+            memcpy(new_label, label, label_len);
+            new_label[label_len] = 0;
+            ht_hash_map_insert(&f->dynamic_hashes, hash_value, new_label, &error_code);
+        }
+
+        HT_FCS_UNLOCK_(f);
+
+        if (error_code != HT_ERR_OK)
+        {
+            if (new_label != NULL)
+            {
+                ht_free(new_label);
+            }
+            return 0;
+        }
+
+        HT_TIMELINE_PUSH_EVENT(timeline, HT_StringMappingEvent, hash_value, new_label);
     }
     else
     {
-- 
2.43.0


From 7763304d775951a8d07982920f0204aba6eb6937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:58 +0000
Subject: [PATCH 15/59] fix: convert durations with 64-bit arithmetic

---
 lib/include/hawktracer/duration_conversion.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/hawktracer/duration_conversion.h b/lib/include/hawktracer/duration_conversion.h
index 7a09e54..679d2ff 100644
--- a/lib/include/hawktracer/duration_conversion.h
+++ b/lib/include/hawktracer/duration_conversion.h
@@ -2,12 +2,12 @@
 #define HAWKTRACER_DURATION_CONVERSION_H
 
 /** Converts @p X value to nanoseconds. */
-#define HT_DUR_NS(X) X
+#define HT_DUR_NS(X) (X)
 /** Converts @p X value to microseconds. */
-#define HT_DUR_US(X) (1000u * X)
+#define HT_DUR_US(X) (1000ull * (X))
 /** Converts @p X value to milliseconds. */
-#define HT_DUR_MS(X) (1000u * HT_DUR_US(X))
+#define HT_DUR_MS(X) (1000ull * HT_DUR_US(X))
 /** Converts @p X value to seconds. */
-#define HT_DUR_S(X) (1000u * HT_DUR_MS(X))
+#define HT_DUR_S(X) (1000ull * HT_DUR_MS(X))
 
 #endif /* HAWKTRACER_DURATION_CONVERSION_H */
-- 
2.43.0


From 447ac9b260d91e02996a4fab893fef8b13e47889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:54 +0000
Subject: [PATCH 16/59] fix: keep start and stop of spans paired when a span
 cannot be recorded

---
 lib/feature_callstack.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/feature_callstack.c b/lib/feature_callstack.c
index 71f2d96..1908249 100644
--- a/lib/feature_callstack.c
+++ b/lib/feature_callstack.c
@@ -9,6 +9,7 @@ typedef struct
 {
     HT_Feature base;
     HT_Stack stack;
+    size_t lost_events; /* number of innermost events that could not be put on the stack */
 } HT_FeatureCallstack;
 
 static void
@@ -28,6 +29,7 @@ ht_feature_callstack_create(HT_ErrorCode* out_err)
         return NULL;
     }
 
+    feature->lost_events = 0;
     error_code = ht_stack_init(&feature->stack, 1024, 32);
 
     if (error_code != HT_ERR_OK)
@@ -55,16 +57,25 @@ ht_feature_callstack_start(HT_Timeline* timeline, HT_CallstackBaseEvent* event)
     HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
 
     ht_timeline_init_event(timeline, HT_EVENT(event));
-    /* TODO: handle ht_stack_push() error */
-    ht_stack_push(&f->stack, event, event->base.klass->type_info->size);
+    if (f->lost_events > 0 || ht_stack_push(&f->stack, event, event->base.klass->type_info->size) != HT_ERR_OK)
+    {
+        f->lost_events++;
+    }
 }
 
 void
 ht_feature_callstack_stop(HT_Timeline* timeline)
 {
     HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
-    HT_CallstackBaseEvent* event = (HT_CallstackBaseEvent*)ht_stack_top(&f->stack);
+    HT_CallstackBaseEvent* event;
+
+    if (f->lost_events > 0)
+    {
+        f->lost_events--;
+        return;
+    }
 
+    event = (HT_CallstackBaseEvent*)ht_stack_top(&f->stack);
     event->duration = ht_monotonic_clock_get_timestamp() - HT_EVENT(event)->timestamp;
     event->thread_id = ht_thread_get_current_thread_id();
 
-- 
2.43.0


From 6a1ad91016eecbb57c31492e1022b41c79f37cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:47 +0000
Subject: [PATCH 17/59] fix: do not ask a custom allocator to free NULL

---
 lib/alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/alloc.c b/lib/alloc.c
index f80e603..76f1db9 100644
--- a/lib/alloc.c
+++ b/lib/alloc.c
@@ -27,7 +27,7 @@ void ht_free(void* ptr)
     {
         free(ptr);
     }
-    else
+    else if (ptr != NULL)
     {
         realloc_fnc_(ptr, 0, user_data_);
     }
-- 
2.43.0


From b2911cb227417af6caf8eb0a1b24ab7db9a4f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:00 +0000
Subject: [PATCH 18/59] fix: make the static label tracepoint usable from C

---
 lib/include/hawktracer/string_scoped_tracepoint.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/hawktracer/string_scoped_tracepoint.h b/lib/include/hawktracer/string_scoped_tracepoint.h
index 448cc2e..d44264d 100644
--- a/lib/include/hawktracer/string_scoped_tracepoint.h
+++ b/lib/include/hawktracer/string_scoped_tracepoint.h
@@ -23,9 +23,11 @@
 
 #include <hawktracer/posix_mapped_tracepoint.h>
 
+#include <pthread.h>
+
 #define HT_TP_STRACEPOINT(timeline, label) \
     static HT_THREAD_LOCAL pthread_once_t HT_UNIQUE_VAR_NAME(ht_var_once) = PTHREAD_ONCE_INIT; \
-    static HT_THREAD_LOCAL uintptr_t HT_UNIQUE_VAR_NAME(fnc_track) = label; \
+    static const char* HT_UNIQUE_VAR_NAME(fnc_track) = label; \
     ht_pthread_mapped_tracepoint_enter(timeline, HT_UNIQUE_VAR_NAME(fnc_track)); \
     pthread_once(&HT_UNIQUE_VAR_NAME(ht_var_once), ht_pthread_mapped_tracepoint_add_mapping); \
     ht_pthread_mapped_tracepoint_leave(); \
-- 
2.43.0


From 164c10c8f314e1e782aa93181edcb2ec1cdb268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:04 +0000
Subject: [PATCH 19/59] fix: allow registering a known class while metadata is
 being pushed

---
 lib/registry.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index e151237..fa1f998 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -100,22 +100,19 @@ done:
 HT_EventKlassId
 ht_registry_register_event_klass(HT_EventKlass* event_klass)
 {
-    HT_EventKlassId klass_id;
+    if (event_klass->klass_id == HT_INVALID_KLASS_ID)
+    {
+        ht_mutex_lock(event_klass_registry_register_mutex);
 
-    ht_mutex_lock(event_klass_registry_register_mutex);
+        if (event_klass->klass_id == HT_INVALID_KLASS_ID && ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK)
+        {
+            event_klass->klass_id = (HT_EventKlassId)event_klass_register.size - 1;
+        }
 
-    klass_id = event_klass->klass_id;
-    /* The class might have been registered before the registry was (re)initialized */
-    if (klass_id >= event_klass_register.size || event_klass_register.data[klass_id] != event_klass)
-    {
-        klass_id = ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK ?
-                    (HT_EventKlassId)event_klass_register.size - 1 : HT_INVALID_KLASS_ID;
-        event_klass->klass_id = klass_id;
+        ht_mutex_unlock(event_klass_registry_register_mutex);
     }
 
-    ht_mutex_unlock(event_klass_registry_register_mutex);
-
-    return klass_id;
+    return event_klass->klass_id;
 }
 
 HT_EventKlass**
@@ -136,6 +133,12 @@ ht_registry_deinit(void)
         ht_timeline_listener_container_unref((HT_TimelineListenerContainer*)listeners_register.data[i]);
     }
 
+    /* The classes have to be registered again when the registry is initialized again */
+    for (i = 0; i < event_klass_register.size; i++)
+    {
+        ((HT_EventKlass*)event_klass_register.data[i])->klass_id = HT_INVALID_KLASS_ID;
+    }
+
     ht_mutex_destroy(features_register_mutex);
     ht_mutex_destroy(event_klass_registry_register_mutex);
     ht_mutex_destroy(listeners_register_mutex);
-- 
2.43.0


From fd1ebe53a0a103ddad7896ed9f2e733cc8872927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:45 +0000
Subject: [PATCH 20/59] fix: reader stops instead of crashing at an event or
 field of an unknown class

---
 parser/protocol_reader.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 4c4a7cd..dbbb53f 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -81,7 +81,13 @@ void ProtocolReader::_read_events()
             continue;
         }
 
-        Event event(_klass_register->get_klass(base_event.get_value<uint32_t>("klass_id")));
+        auto klass = _klass_register->get_klass(klass_id);
+        if (!klass)
+        {
+            break;
+        }
+
+        Event event(std::move(klass));
         if (_flat_events)
         {
             _read_event(is_error, event, nullptr);
@@ -224,8 +230,14 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
     }
     else
     {
+        auto klass = _klass_register->get_klass(field.get_type_name());
+        if (!klass)
+        {
+            return false;
+        }
+
         bool is_error;
-        Event sub_event(_klass_register->get_klass(_klass_register->get_klass_id(field.get_type_name())));
+        Event sub_event(std::move(klass));
         _read_event(is_error, sub_event, base_event);
         if (_flat_events)
         {
-- 
2.43.0


From 4242c540c08e6beec5decb90c01b36c8f12f4e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:29 +0000
Subject: [PATCH 21/59] fix: reader stops instead of terminating the process at
 a malformed class description

---
 parser/event_klass.cpp                              |  2 +-
 .../include/hawktracer/parser/protocol_reader.hpp   |  1 +
 parser/protocol_reader.cpp                          | 13 +++++++++++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/parser/event_klass.cpp b/parser/event_klass.cpp
index 3e39284..7f1deef 100644
--- a/parser/event_klass.cpp
+++ b/parser/event_klass.cpp
@@ -81,7 +81,7 @@ FieldTypeId get_type_id(uint64_t type_size, HT_MKCREFLECT_Types_Ext data_type)
         break;
     case HT_MKCREFLECT_TYPES_EXT_STRUCT:
         return FieldTypeId::STRUCT;
-    default: assert(0); // TODO other types
+    default: // TODO other types
         throw std::runtime_error("invalid type id");
     }
 }
diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 819b0ec..972acaf 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -49,6 +49,7 @@ private:
     std::condition_variable _cv;
     std::mutex _mtx_cv;
     bool _flat_events;
+    bool _is_malformed = false;
     HT_Endianness _endianness = HT_ENDIANNESS_LITTLE;
 };
 
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index dbbb53f..7217af8 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -6,6 +6,7 @@
 #include <cassert>
 #include <cstring>
 #include <cstdlib>
+#include <exception>
 
 namespace HawkTracer
 {
@@ -18,7 +19,14 @@ ProtocolReader::ProtocolReader(KlassRegister* klass_register, std::unique_ptr<St
     _flat_events(flat_events)
 {
     register_events_listener([this] (const Event& event) {
-        _klass_register->handle_register_events(event);
+        try
+        {
+            _klass_register->handle_register_events(event);
+        }
+        catch (const std::exception&)
+        {
+            _is_malformed = true;
+        }
     });
 }
 
@@ -37,6 +45,7 @@ bool ProtocolReader::start()
     if (_stream->start())
     {
         _is_running = true;
+        _is_malformed = false;
         _thread = std::thread([this] { _read_events(); });
         return true;
     }
@@ -62,7 +71,7 @@ void ProtocolReader::wait_for_complete()
 
 void ProtocolReader::_read_events()
 {
-    while (_is_running)
+    while (_is_running && !_is_malformed)
     {
         bool is_error = false;
         Event base_event(_klass_register->get_klass(to_underlying(WellKnownKlasses::EventKlass)));
-- 
2.43.0


From ecfc6f30bdf57bd030f4daed5a79d76186e97d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:35 +0000
Subject: [PATCH 22/59] fix: wait_for_complete neither misses the end of the
 stream nor hangs on a reader that never started

---
 parser/include/hawktracer/parser/protocol_reader.hpp | 2 +-
 parser/protocol_reader.cpp                           | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 972acaf..e5376d8 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -45,7 +45,7 @@ private:
     std::vector<OnNewEventCallback> _on_new_event_callbacks;
     std::unique_ptr<Stream> _stream;
     std::thread _thread;
-    std::atomic_bool _is_running;
+    std::atomic_bool _is_running{false};
     std::condition_variable _cv;
     std::mutex _mtx_cv;
     bool _flat_events;
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 7217af8..3270596 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -120,8 +120,11 @@ void ProtocolReader::_read_events()
         _call_callbacks(event);
     }
 
-    _is_running = false;
-    _cv.notify_one();
+    {
+        std::lock_guard<std::mutex> l(_mtx_cv);
+        _is_running = false;
+    }
+    _cv.notify_all();
 }
 
 void ProtocolReader::_read_event(bool& is_error, Event& event, Event* base_event)
-- 
2.43.0


From f0fd0e69c5c2377b19c3cb2de01a6a5d747e5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:36 +0000
Subject: [PATCH 23/59] fix: FileStream reports a read error instead of
 returning data it did not read

---
 parser/file_stream.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/file_stream.cpp b/parser/file_stream.cpp
index dc610e6..b8cdeb0 100644
--- a/parser/file_stream.cpp
+++ b/parser/file_stream.cpp
@@ -30,8 +30,7 @@ void FileStream::stop()
 
 bool FileStream::read_data(char* buff, size_t size)
 {
-    fread(buff, 1, size, _file);
-    return !feof(_file);
+    return fread(buff, 1, size, _file) == size;
 }
 
 int FileStream::read_byte()
-- 
2.43.0


From b78589f0958878548f924d3cbd30b3837b93b9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:36 +0000
Subject: [PATCH 24/59] fix: reader consumes the header of events embedded in
 other events

---
 .../hawktracer/parser/protocol_reader.hpp     |  4 +-
 parser/protocol_reader.cpp                    | 37 ++++++++++++-------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index e5376d8..0f33974 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -34,10 +34,10 @@ public:
 
 private:
     void _read_events();
-    void _read_event(bool& is_error, Event& event, Event* base_event);
+    void _read_event(bool& is_error, Event& event, Event*& base_event);
     bool _read_string(FieldType& value);
     bool _read_numeric(FieldType& value, const EventKlassField& field);
-    bool _read_struct(FieldType& value, const EventKlassField& field, Event* event, Event* base_event);
+    bool _read_struct(FieldType& value, const EventKlassField& field, Event* event, Event*& base_event);
 
     void _call_callbacks(const Event& event);
 
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 3270596..9d93966 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -75,7 +75,8 @@ void ProtocolReader::_read_events()
     {
         bool is_error = false;
         Event base_event(_klass_register->get_klass(to_underlying(WellKnownKlasses::EventKlass)));
-        _read_event(is_error, base_event, nullptr);
+        Event* no_base = nullptr;
+        _read_event(is_error, base_event, no_base);
 
         if (is_error)
         {
@@ -97,15 +98,12 @@ void ProtocolReader::_read_events()
         }
 
         Event event(std::move(klass));
+        Event* unread_base = &base_event;
+        _read_event(is_error, event, unread_base);
         if (_flat_events)
         {
-            _read_event(is_error, event, nullptr);
             event.merge(std::move(base_event));
         }
-        else
-        {
-            _read_event(is_error, event, &base_event);
-        }
 
         if (is_error)
         {
@@ -127,7 +125,7 @@ void ProtocolReader::_read_events()
     _cv.notify_all();
 }
 
-void ProtocolReader::_read_event(bool& is_error, Event& event, Event* base_event)
+void ProtocolReader::_read_event(bool& is_error, Event& event, Event*& base_event)
 {
     for (const auto& field : event.get_klass()->get_fields())
     {
@@ -229,16 +227,29 @@ bool ProtocolReader::_read_numeric(FieldType& value, const EventKlassField& fiel
     return true;
 }
 
-bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field, Event* event, Event* base_event)
+bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field, Event* event, Event*& base_event)
 {
-    if (field.get_type_name() == "HT_Event" && field.get_name() == "base")
+    if (field.get_type_name() == "HT_Event")
     {
-        if (!_flat_events)
+        // The header of the event itself has already been read,
+        // but the ones of the events embedded in it have not.
+        Event header(_klass_register->get_klass(to_underlying(WellKnownKlasses::EventKlass)));
+        bool is_error = false;
+        if (base_event && field.get_name() == "base")
         {
-            assert(base_event != nullptr);
-            value.f_EVENT = new Event(std::move(*base_event));
+            header = *base_event;
+            base_event = nullptr;
         }
-        return true;
+        else
+        {
+            Event* no_base = nullptr;
+            _read_event(is_error, header, no_base);
+        }
+        if (!is_error && !_flat_events)
+        {
+            value.f_EVENT = new Event(std::move(header));
+        }
+        return !is_error;
     }
     else
     {
-- 
2.43.0


From 998b94eec7c6fffbbe8b14a0e151f4385d2fc610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:08 +0000
Subject: [PATCH 25/59] fix: events do not leak the values they drop

---
 parser/event.cpp                           | 51 ++++++++++++++--------
 parser/include/hawktracer/parser/event.hpp |  2 +-
 parser/protocol_reader.cpp                 |  6 ++-
 3 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/parser/event.cpp b/parser/event.cpp
index 7e9dd12..f038134 100644
--- a/parser/event.cpp
+++ b/parser/event.cpp
@@ -70,26 +70,39 @@ void Event::Value::_swap(Value& other)
     std::swap(value, other.value);
 }
 
+static void release_value(const Event::Value& value)
+{
+    if (value.field == nullptr)
+    {
+        return;
+    }
+
+    switch (value.field->get_type_id())
+    {
+    case FieldTypeId::STRING:
+        free(value.value.f_STRING);
+        break;
+    case FieldTypeId::STRUCT:
+        delete value.value.f_EVENT;
+        break;
+    default:
+        break;
+    }
+}
+
+Event& Event::operator=(Event other)
+{
+    std::swap(_values, other._values);
+    std::swap(_klass, other._klass);
+    std::swap(_timestamp, other._timestamp);
+    return *this;
+}
+
 Event::~Event()
 {
     for (const auto& value : _values)
     {
-        if (value.second.field == nullptr)
-        {
-            continue;
-        }
-
-        switch (value.second.field->get_type_id())
-        {
-        case FieldTypeId::STRING:
-            free(value.second.value.f_STRING);
-            break;
-        case FieldTypeId::STRUCT:
-            delete value.second.value.f_EVENT;
-            break;
-        default:
-            break;
-        }
+        release_value(value.second);
     }
 }
 
@@ -114,7 +127,11 @@ void Event::merge(Event event)
 
 void Event::set_value(const EventKlassField* field, FieldType value)
 {
-    _values.insert(std::make_pair(field->get_name(), Value(std::move(value), field)));
+    if (!_values.insert(std::make_pair(field->get_name(), Value(value, field))).second)
+    {
+        release_value(Value(value, field));
+        return;
+    }
 
     if (field->get_name() == "timestamp")
     {
diff --git a/parser/include/hawktracer/parser/event.hpp b/parser/include/hawktracer/parser/event.hpp
index c96269c..280b3b1 100644
--- a/parser/include/hawktracer/parser/event.hpp
+++ b/parser/include/hawktracer/parser/event.hpp
@@ -37,7 +37,7 @@ public:
     {
     }
     Event(const Event& other) = default;
-    Event& operator=(const Event& other) = default;
+    Event& operator=(Event other);
     Event(Event&&) = default;
 
     ~Event();
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 9d93966..5eaa6ae 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -262,6 +262,10 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
         bool is_error;
         Event sub_event(std::move(klass));
         _read_event(is_error, sub_event, base_event);
+        if (is_error)
+        {
+            return false;
+        }
         if (_flat_events)
         {
             event->merge(std::move(sub_event));
@@ -270,7 +274,7 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
         {
             value.f_EVENT = new Event(std::move(sub_event));
         }
-        return !is_error;
+        return true;
     }
 }
 
-- 
2.43.0


From 2654d6dfd98513c6d76a142937c07cb525cf8c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:43 +0000
Subject: [PATCH 26/59] fix: classes described as containing themselves do not
 exhaust the stack

---
 parser/event_klass.cpp                        |  2 +-
 .../hawktracer/parser/protocol_reader.hpp     |  3 +++
 parser/klass_register.cpp                     | 22 +++++++++++++++++++
 parser/protocol_reader.cpp                    |  7 ++++++
 4 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/parser/event_klass.cpp b/parser/event_klass.cpp
index 7f1deef..ba35633 100644
--- a/parser/event_klass.cpp
+++ b/parser/event_klass.cpp
@@ -107,7 +107,7 @@ std::shared_ptr<const EventKlassField> EventKlass::_get_field(const char* name,
         {
             return field;
         }
-        else if (field->get_type_id() == FieldTypeId::STRUCT && recursive)
+        else if (field->get_type_id() == FieldTypeId::STRUCT && recursive && field->get_klass())
         {
             auto base_field = field->get_klass()->get_field(name, recursive);
             if (base_field)
diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 0f33974..4cbb8dc 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -33,6 +33,8 @@ public:
     void wait_for_complete();
 
 private:
+    static constexpr size_t MAX_NESTING_LEVEL = 64;
+
     void _read_events();
     void _read_event(bool& is_error, Event& event, Event*& base_event);
     bool _read_string(FieldType& value);
@@ -50,6 +52,7 @@ private:
     std::mutex _mtx_cv;
     bool _flat_events;
     bool _is_malformed = false;
+    size_t _nesting_level = 0;
     HT_Endianness _endianness = HT_ENDIANNESS_LITTLE;
 };
 
diff --git a/parser/klass_register.cpp b/parser/klass_register.cpp
index c5430a1..a4ca2e2 100644
--- a/parser/klass_register.cpp
+++ b/parser/klass_register.cpp
@@ -2,9 +2,27 @@
 #include "hawktracer/parser/event.hpp"
 #include "hawktracer/parser/make_unique.hpp"
 
+#include <stdexcept>
+
 namespace HawkTracer {
 namespace parser {
 
+static bool contains_klass(const EventKlass& klass, HT_EventKlassId klass_id)
+{
+    if (klass.get_id() == klass_id)
+    {
+        return true;
+    }
+    for (const auto& field : klass.get_fields())
+    {
+        if (field->get_klass() && contains_klass(*field->get_klass(), klass_id))
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
 KlassRegister::KlassRegister()
 {
     auto base_event = make_unique<EventKlass>("HT_Event", to_underlying(WellKnownKlasses::EventKlass));
@@ -66,6 +84,10 @@ void KlassRegister::handle_register_events(const Event& event)
             if (type == HT_MKCREFLECT_TYPES_EXT_STRUCT)
             {
                 type_klass = get_klass(field_type);
+                if (type_klass && contains_klass(*type_klass, klass_id))
+                {
+                    throw std::runtime_error("class contains itself");
+                }
             }
 
             auto field = HawkTracer::parser::make_unique<EventKlassField>(
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 5eaa6ae..c4e1001 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -259,9 +259,16 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
             return false;
         }
 
+        if (_nesting_level == MAX_NESTING_LEVEL) // e.g. a class which contains itself
+        {
+            return false;
+        }
+
         bool is_error;
         Event sub_event(std::move(klass));
+        _nesting_level++;
         _read_event(is_error, sub_event, base_event);
+        _nesting_level--;
         if (is_error)
         {
             return false;
-- 
2.43.0


From 6a641a4bab4655c30443f3059140b4bb32960eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:02 +0000
Subject: [PATCH 27/59] fix: Chrome trace output escapes labels and field
 values

---
 client/chrome_trace_converter.cpp | 32 ++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/client/chrome_trace_converter.cpp b/client/chrome_trace_converter.cpp
index e5cfb9d..9ba92ad 100644
--- a/client/chrome_trace_converter.cpp
+++ b/client/chrome_trace_converter.cpp
@@ -7,6 +7,32 @@ static uint64_t ns_to_ms(uint64_t nano_secs)
     return nano_secs / 1000u;
 }
 
+static std::string escape_json(const std::string& str)
+{
+    static const char* hex_digits = "0123456789abcdef";
+    std::string ret;
+
+    for (char c : str)
+    {
+        if (c == '"' || c == '\\')
+        {
+            ret += '\\';
+            ret += c;
+        }
+        else if ((unsigned char)c < 0x20)
+        {
+            ret += "\\u00";
+            ret += hex_digits[c >> 4];
+            ret += hex_digits[c & 0xf];
+        }
+        else
+        {
+            ret += c;
+        }
+    }
+    return ret;
+}
+
 namespace HawkTracer
 {
 namespace client
@@ -49,7 +75,7 @@ void ChromeTraceConverter::process_event(const parser::Event& event)
 
     // Chrome expects the timestamps/durations to be microseconds
     // so we need to convert from nano to micro
-    _file << "{\"name\": \"" << label
+    _file << "{\"name\": \"" << escape_json(label)
          << "\", \"ph\": \"X\", \"ts\": " << ns_to_ms(event.get_timestamp())
          << ", \"dur\": " << ns_to_ms(event.get_value_or_default<HT_DurationNs>("duration", 0u))
          << ", \"pid\": 0, \"tid\": " << event.get_value_or_default<HT_ThreadId>("thread_id", 0u)
@@ -87,7 +113,7 @@ std::string ChromeTraceConverter::_get_args(const parser::Event& event)
         {
             ret += ",";
         }
-        ret += "\"" + value.first + "\": " + _get_json_value(value.second);
+        ret += "\"" + escape_json(value.first) + "\": " + _get_json_value(value.second);
     }
     return ret;
 }
@@ -103,7 +129,7 @@ std::string ChromeTraceConverter::_get_json_value(const parser::Event::Value& va
     {
     MKCREFLECT_FOREACH(PRINT_INT_VALUE, 0, INT_TYPE_LIST)
     case parser::FieldTypeId::STRING:
-        return std::string("\"") + value.value.f_STRING + "\"";
+        return "\"" + escape_json(value.value.f_STRING) + "\"";
     default:
         return "\"unsupported type\"";
     }
-- 
2.43.0


From 9d329970e481e5cb2f9900546af449c38058d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:08 +0000
Subject: [PATCH 28/59] fix: converters check the type of the fields they
 interpret as text

---
 client/converter.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/client/converter.cpp b/client/converter.cpp
index 0013daa..636010b 100644
--- a/client/converter.cpp
+++ b/client/converter.cpp
@@ -13,6 +13,11 @@ namespace HawkTracer
 namespace client
 {
 
+static bool has_field(const parser::Event& event, const char* name, parser::FieldTypeId type_id)
+{
+    return event.has_value(name) && event.get_raw_value(name).field->get_type_id() == type_id;
+}
+
 Converter::Converter() :
     _tracepoint_map(HawkTracer::parser::make_unique<TracepointMap>()),
     _mapping_klass_name("HT_StringMappingEvent")
@@ -66,13 +71,17 @@ std::string Converter::_get_label(const parser::Event& event)
     }
     else if (event.get_klass()->get_id() == _mapping_klass_id)
     {
+        if (!has_field(event, "identifier", parser::FieldTypeId::UINT64) || !has_field(event, "label", parser::FieldTypeId::STRING))
+        {
+            return label;
+        }
         _tracepoint_map->add_map_entry(event.get_value<uint64_t>("identifier"), event.get_value<char*>("label"));
     } 
     else if (event.has_value("label"))
     {
         label = _convert_value_to_string(event.get_raw_value("label")); 
     }
-    else if (event.has_value("name"))
+    else if (has_field(event, "name", parser::FieldTypeId::STRING))
     {
         label = event.get_value<char*>("name");
     }
-- 
2.43.0


From 518acaf12464cf958a5598366f71ceb354febb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:13 +0000
Subject: [PATCH 29/59] fix: call graph puts calls which start together with
 their caller under it

---
 client/call_graph.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/call_graph.cpp b/client/call_graph.cpp
index 2dcc827..1612fd0 100644
--- a/client/call_graph.cpp
+++ b/client/call_graph.cpp
@@ -10,9 +10,12 @@ namespace client
 std::vector<std::pair<std::shared_ptr<CallGraph::TreeNode>, int>> 
     CallGraph::make(std::vector<NodeData>& events)
 {
-    std::sort(events.begin(), events.end(), 
+    // Spans are reported when they end, so out of the spans which cover the same period
+    // the one reported last is the caller.
+    std::reverse(events.begin(), events.end());
+    std::stable_sort(events.begin(), events.end(),
             [](const NodeData& e1, const NodeData& e2){
-                return e1.start_ts < e2.start_ts;
+                return e1.start_ts != e2.start_ts ? e1.start_ts < e2.start_ts : e1.stop_ts > e2.stop_ts;
             });
     for (const auto& event : events)
     {
-- 
2.43.0


From 0fe29183d7c724130fc13a7254e07125f30b03e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:42 +0000
Subject: [PATCH 30/59] fix: a port number out of range is not replaced by an
 arbitrary other port

---
 client_utils/stream_factory.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/client_utils/stream_factory.cpp b/client_utils/stream_factory.cpp
index 86fe6ad..387ccc3 100644
--- a/client_utils/stream_factory.cpp
+++ b/client_utils/stream_factory.cpp
@@ -4,6 +4,8 @@
 #include "hawktracer/parser/file_stream.hpp"
 #include "hawktracer/parser/make_unique.hpp"
 
+#include <cstdint>
+#include <cstdio>
 #include <fstream>
 #include <iostream>
 
@@ -14,13 +16,14 @@ namespace ClientUtils
 
 static bool scan_ip_address(const std::string& address, std::string& out_ip, uint16_t& out_port, uint16_t default_port)
 {
-    unsigned n1, n2, n3, n4, port;
-    int num = sscanf(address.c_str(), "%u.%u.%u.%u:%u", &n1, &n2, &n3, &n4, &port);
+    unsigned n1, n2, n3, n4;
+    unsigned long port;
+    int num = sscanf(address.c_str(), "%u.%u.%u.%u:%lu", &n1, &n2, &n3, &n4, &port);
 
     if (num >= 4)
     {
         out_ip = address.substr(0, address.find(':'));
-        out_port = (num == 5) ? (uint16_t)port : default_port;
+        out_port = (num == 5 && port <= UINT16_MAX) ? (uint16_t)port : default_port;
         return true;
     }
     return false;
-- 
2.43.0


From badff349a0e7ea8244316e0d99264700b0a6123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:49 +0000
Subject: [PATCH 31/59] fix: TCP stream does not report bytes above 127 as end
 of stream

---
 client_utils/tcp_client_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index b06546c..7759179 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -153,7 +153,7 @@ int TCPClientStream::read_byte()
     else
     {
         auto& buffer = _datas.front();
-        int b = buffer.second[buffer.first++];
+        int b = (unsigned char)buffer.second[buffer.first++];
         _pop_if_used();
         return b;
     }
-- 
2.43.0


From 33a62a387dcd386942d39681f74ac897760865f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:56 +0000
Subject: [PATCH 32/59] fix: stopping a TCP stream wakes up its threads and
 closes the socket once

---
 .../client_utils/tcp_client_stream.hpp        |  1 +
 client_utils/tcp_client_stream.cpp            | 44 ++++++++++++++-----
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp b/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
index 54b6135..5cb10e7 100644
--- a/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
+++ b/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
@@ -32,6 +32,7 @@ public:
 
 private:
     void _run();
+    void _disconnect();
 
     bool _wait_for_data(std::unique_lock<std::mutex>& l);
     void _pop_if_used() { if (_datas.front().second.size() == _datas.front().first) { _datas.pop(); } }
diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index 7759179..1abce76 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -6,6 +6,7 @@
 #pragma comment(lib, "Ws2_32.lib")
 #else
 #include <arpa/inet.h>
+#include <sys/socket.h>
 #include <unistd.h>
 #endif
 #include <cstring>
@@ -25,6 +26,15 @@ static int close_socket(int sock_fd)
 #endif
 }
 
+static void shutdown_socket(int sock_fd)
+{
+#ifdef _WIN32
+    shutdown(sock_fd, SD_BOTH);
+#else
+    shutdown(sock_fd, SHUT_RDWR);
+#endif
+}
+
 TCPClientStream::TCPClientStream(const std::string& ip_address, uint16_t port, bool wait_for_server) :
     _sock_fd(-1),
     _ip_address(ip_address),
@@ -89,20 +99,37 @@ bool TCPClientStream::start()
 
 void TCPClientStream::stop()
 {
-    if (is_connected())
     {
-        close_socket(_sock_fd);
-        _sock_fd = -1;
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        if (is_connected())
+        {
+            shutdown_socket(_sock_fd); // wakes up the receiving thread
+        }
+    }
+
+    if (_thread.joinable())
+    {
+        _thread.join();
     }
 
+    _disconnect();
+
 #ifdef _WIN32
     WSACleanup();
 #endif
+}
 
-    if (_thread.joinable())
+void TCPClientStream::_disconnect()
+{
     {
-        _thread.join();
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        if (is_connected())
+        {
+            close_socket(_sock_fd);
+            _sock_fd = -1;
+        }
     }
+    _datas_cv.notify_all();
 }
 
 void TCPClientStream::_run()
@@ -112,11 +139,10 @@ void TCPClientStream::_run()
     while (is_connected())
     {
         int size = recv(_sock_fd, buf, BUFSIZE, 0);
-        
+
         if (size == 0 || size == -1)
         {
-            close_socket(_sock_fd);
-            _sock_fd = -1;
+            _disconnect();
         }
         else if (size > 0)
         {
@@ -127,8 +153,6 @@ void TCPClientStream::_run()
             _datas_cv.notify_one();
         }
     }
-
-    _datas_cv.notify_one();
 }
 
 bool TCPClientStream::is_connected() const
-- 
2.43.0


From 05f2a7a5cb9b977b9eedff2629677fcaa9b6d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:16 +0000
Subject: [PATCH 33/59] fix: a TCP stream can be started again after the server
 disconnected

---
 client_utils/tcp_client_stream.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index 1abce76..0412cf6 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -50,10 +50,8 @@ TCPClientStream::~TCPClientStream()
 
 bool TCPClientStream::start()
 {
-    if (is_connected())
-    {
-        stop();
-    }
+    stop();
+    _datas = {};
 
 #ifdef _WIN32
     WSAData wsa_data;
-- 
2.43.0


From 2dd87a1b971468267d64bf5d3f4f99f709ce2c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:23 +0000
Subject: [PATCH 34/59] fix: stopping a reader does not wait for data from an
 idle server

---
 parser/protocol_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index c4e1001..908b733 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -56,6 +56,10 @@ bool ProtocolReader::start()
 void ProtocolReader::stop()
 {
     _is_running = false;
+    if (_stream->is_continuous())
+    {
+        _stream->stop(); // the reading thread might wait for data
+    }
     if (_thread.joinable())
     {
         _thread.join();
-- 
2.43.0


From 478e0f63e6b98e71f9d7f79eb10f4e924c937bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:45 +0000
Subject: [PATCH 35/59] fix: malformed process statistics do not crash the CPU
 usage reader

---
 lib/platform/linux/cpu_usage.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/platform/linux/cpu_usage.c b/lib/platform/linux/cpu_usage.c
index 473fddc..60e8dbe 100644
--- a/lib/platform/linux/cpu_usage.c
+++ b/lib/platform/linux/cpu_usage.c
@@ -52,9 +52,15 @@ _get_process_time(unsigned long* total_time, int pid)
     }
     buf[num] = '\0';
 
+    const char* comm_end = strrchr(buf, ')');
+    if (comm_end == NULL)
+    {
+        return HT_FALSE;
+    }
+
     /* Read stat file: http://man7.org/linux/man-pages/man5/proc.5.html */
-    int ret = sscanf(strrchr(buf, ')') + 2, /* pid (comm) */
-           "%c " /* state */
+    int ret = sscanf(comm_end + 1, /* pid (comm) */
+           " %c " /* state */
            "%d %d %d %d %d " /* ppid pgrp session tty_nr tpgid */
            "%u " /* flags */
            "%lu %lu %lu %lu " /* minflt cminflt majflt cmajflt  */
-- 
2.43.0


From 293a7c39afc33354d19aac7ed4ec2ee0cf74ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:50 +0000
Subject: [PATCH 36/59] fix: memory usage of a process is read also when its
 figures are short

---
 lib/platform/linux/memory_usage.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/platform/linux/memory_usage.c b/lib/platform/linux/memory_usage.c
index 617c8a9..b7f733d 100644
--- a/lib/platform/linux/memory_usage.c
+++ b/lib/platform/linux/memory_usage.c
@@ -62,11 +62,6 @@ ht_memory_usage_get_usage(HT_MemoryUsageContext* context,
     size_t num = fread(buf, 1, sizeof(buf) - 1, fp);
     fclose(fp);
 
-    if (num < 16)
-    {
-        return HT_ERR_INVALID_FORMAT;
-    }
-
     buf[num] = '\0';
 
     if (sscanf(buf, "%llu %llu %llu", &virt_mem, &resident_mem, &shared_mem) != 3)
-- 
2.43.0


From 89bc8f84116012d5898005a8e0c1f226e6d8f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:12 +0000
Subject: [PATCH 37/59] fix: a TCP listener that cannot be created or has no
 callback does not crash

---
 lib/listeners/tcp_listener.c | 31 +++++++++++++++++++++++++------
 lib/tcp_server.cpp           | 29 +++++++++++++++++++++++++++--
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index a6ce6a3..63923ac 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -73,18 +73,34 @@ ht_tcp_listener_client_connected(int sock_fd, void* user_data)
 static HT_ErrorCode
 ht_tcp_listener_init(HT_TCPListener* listener, int port, size_t buffer_size)
 {
-    HT_ErrorCode error_code = ht_listener_buffer_init(&listener->_buffer, buffer_size);
+    HT_ErrorCode error_code;
+
+    listener->_push_action_mutex = NULL;
+    listener->_tcp_server = NULL;
+    listener->_last_client_sock_fd = 0;
+    listener->_was_flushed = HT_FALSE;
+    listener->_client_connected_callback = NULL;
+    listener->_client_connected_user_data = NULL;
+
+    error_code = ht_listener_buffer_init(&listener->_buffer, buffer_size);
     if (error_code != HT_ERR_OK)
     {
         return error_code;
     }
 
-    listener->_last_client_sock_fd = 0;
-    listener->_was_flushed = HT_FALSE;
-
-    // TODO handle if return null
     listener->_push_action_mutex = ht_mutex_create();
+    if (listener->_push_action_mutex == NULL)
+    {
+        ht_listener_buffer_deinit(&listener->_buffer);
+        return HT_ERR_OUT_OF_MEMORY;
+    }
+
     listener->_tcp_server = ht_tcp_server_create();
+    if (listener->_tcp_server == NULL)
+    {
+        ht_listener_buffer_deinit(&listener->_buffer);
+        return HT_ERR_OUT_OF_MEMORY;
+    }
 
     if (ht_tcp_server_start(listener->_tcp_server, port, ht_tcp_listener_client_connected, listener))
     {
@@ -193,7 +209,10 @@ ht_tcp_listener_destroy(HT_TCPListener* listener)
     {
         ht_tcp_listener_stop(listener);
     }
-    ht_mutex_destroy(listener->_push_action_mutex);
+    if (listener->_push_action_mutex != NULL)
+    {
+        ht_mutex_destroy(listener->_push_action_mutex);
+    }
     ht_free(listener);
 }
 
diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 742d457..e9e116a 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -56,6 +56,10 @@ static HT_Thread*
 ht_thread_create(ht_thread_callback_t callback, void* user_data)
 {
     HT_Thread* th = HT_CREATE_TYPE(HT_Thread);
+    if (th == NULL)
+    {
+        return NULL;
+    }
 
 #ifdef HT_THREAD_IMPL_CPP11
     new(&th->th) HT_Thread();
@@ -126,10 +130,26 @@ HT_TCPServer*
 ht_tcp_server_create(void)
 {
     HT_TCPServer* server = HT_CREATE_TYPE(HT_TCPServer);
+    if (server == NULL)
+    {
+        return NULL;
+    }
+
+    if (ht_bag_int_init(&server->client_sock_fd, 8) != HT_ERR_OK)
+    {
+        ht_free(server);
+        return NULL;
+    }
 
-    ht_bag_int_init(&server->client_sock_fd, 8);
-    server->accept_client_thread = NULL;
     server->client_mutex = ht_mutex_create();
+    if (server->client_mutex == NULL)
+    {
+        ht_bag_int_deinit(&server->client_sock_fd);
+        ht_free(server);
+        return NULL;
+    }
+
+    server->accept_client_thread = NULL;
     server->server_sock_fd = -1;
     server->client_connected_cb = NULL;
     server->client_connected_ud = NULL;
@@ -197,6 +217,11 @@ ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected client_con
     server->client_connected_cb = client_connected_cb;
     server->client_connected_ud = user_data;
     server->accept_client_thread = ht_thread_create(_ht_tcp_server_run, server);
+    if (server->accept_client_thread == NULL)
+    {
+        ht_tcp_server_stop(server);
+        return HT_FALSE;
+    }
 
     return HT_TRUE;
 }
-- 
2.43.0


From bfafc171240aebe86624b8450db714cf17d8bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:18 +0000
Subject: [PATCH 38/59] fix: a TCP listener can be stopped twice and while it
 is in use

---
 lib/listeners/tcp_listener.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index 63923ac..bb98fa6 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -225,22 +225,25 @@ ht_tcp_listener_callback(TEventPtr events, size_t size, HT_Boolean serialized, v
 void
 ht_tcp_listener_stop(HT_TCPListener* listener)
 {
+    HT_TCPServer* tcp_server;
+
     ht_mutex_lock(listener->_push_action_mutex);
 
-    if (!_ht_tcp_listener_is_stopped(listener))
+    if (_ht_tcp_listener_is_stopped(listener))
     {
         ht_mutex_unlock(listener->_push_action_mutex);
+        return;
     }
 
     ht_tcp_listener_flush(listener);
-    ht_tcp_server_stop(listener->_tcp_server);
-    ht_listener_buffer_deinit(&listener->_buffer);
-    ht_tcp_server_destroy(listener->_tcp_server);
+    tcp_server = listener->_tcp_server;
     listener->_tcp_server = NULL;
+    ht_listener_buffer_deinit(&listener->_buffer);
 
     ht_mutex_unlock(listener->_push_action_mutex);
 
-    ht_mutex_unlock(listener->_push_action_mutex);
+    /* The server waits for its thread, which might need the mutex for sending metadata to a new client */
+    ht_tcp_server_destroy(tcp_server);
 }
 
 #endif /* HT_ENABLE_TCP_LISTENER */
-- 
2.43.0


From 5242ad2b85dd9e04dafa00977576f40fb9aabd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:06 +0000
Subject: [PATCH 39/59] fix: a client that closes its connection does not
 terminate the process

---
 lib/tcp_server.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index e9e116a..7db175b 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -106,6 +106,7 @@ ht_thread_destroy(HT_Thread* th)
 #pragma comment(lib, "Ws2_32.lib")
 #else
 #include <arpa/inet.h>
+#include <errno.h>
 #include <netinet/in.h>
 #include <sys/socket.h>
 #include <unistd.h>
@@ -113,6 +114,13 @@ ht_thread_destroy(HT_Thread* th)
 
 #include <string.h>
 
+/* A client which closed its connection must not terminate the whole process */
+#ifdef MSG_NOSIGNAL
+#  define HT_SEND_FLAGS MSG_NOSIGNAL
+#else
+#  define HT_SEND_FLAGS 0
+#endif
+
 static void *_ht_tcp_server_run(void *user_data);
 
 struct _HT_TCPServer
@@ -293,7 +301,14 @@ ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, s
 
     while (sent < size)
     {
-        int n = send(sock_fd, buffer + sent, size - sent, 0);
+        int n = send(sock_fd, buffer + sent, size - sent, HT_SEND_FLAGS);
+
+#ifndef _WIN32
+        if (n < 0 && errno == EINTR)
+        {
+            continue;
+        }
+#endif
 
         if (n <= 0)
         {
-- 
2.43.0


From 6d926e71af919cf1dd1d39c4cffef32af7c6cd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:48 +0000
Subject: [PATCH 40/59] fix: a TCP server closes the sockets it is done with

---
 lib/tcp_server.cpp | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 7db175b..c54dcc8 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -123,6 +123,16 @@ ht_thread_destroy(HT_Thread* th)
 
 static void *_ht_tcp_server_run(void *user_data);
 
+static void
+_ht_tcp_server_close_socket(int sock_fd)
+{
+#ifdef _WIN32
+    closesocket(sock_fd);
+#else
+    close(sock_fd);
+#endif
+}
+
 struct _HT_TCPServer
 {
     HT_Thread* accept_client_thread;
@@ -242,15 +252,11 @@ ht_tcp_server_stop(HT_TCPServer* server)
         return;
     }
 
-    ht_mutex_lock(server->client_mutex);
-    ht_bag_int_clear(&server->client_sock_fd);
-    ht_mutex_unlock(server->client_mutex);
-
+    size_t i;
     int prev_sock_fd = server->server_sock_fd;
     server->server_sock_fd = -1;
 #ifdef _WIN32
     closesocket(prev_sock_fd);
-    WSACleanup();
 #else
     shutdown(prev_sock_fd, 2);
 #endif
@@ -261,6 +267,22 @@ ht_tcp_server_stop(HT_TCPServer* server)
         ht_thread_destroy(server->accept_client_thread);
         server->accept_client_thread = NULL;
     }
+
+#ifndef _WIN32
+    _ht_tcp_server_close_socket(prev_sock_fd);
+#endif
+
+    ht_mutex_lock(server->client_mutex);
+    for (i = 0; i < ht_bag_size(server->client_sock_fd); i++)
+    {
+        _ht_tcp_server_close_socket(ht_bag_nth(server->client_sock_fd, i));
+    }
+    ht_bag_int_clear(&server->client_sock_fd);
+    ht_mutex_unlock(server->client_mutex);
+
+#ifdef _WIN32
+    WSACleanup();
+#endif
 }
 
 HT_Boolean
@@ -280,6 +302,7 @@ ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size)
     {
         if (!ht_tcp_server_write_to_socket(server, ht_bag_nth(server->client_sock_fd, i), buffer, size))
         {
+            _ht_tcp_server_close_socket(ht_bag_nth(server->client_sock_fd, i));
             ht_bag_int_remove_nth(&server->client_sock_fd, i);
             i--;
         }
@@ -340,7 +363,10 @@ _ht_tcp_server_run(void* user_data)
         {
             server->client_connected_cb(client_fd, server->client_connected_ud);
             ht_mutex_lock(server->client_mutex);
-            ht_bag_int_add(&server->client_sock_fd, client_fd);
+            if (ht_bag_int_add(&server->client_sock_fd, client_fd) != HT_ERR_OK)
+            {
+                _ht_tcp_server_close_socket(client_fd);
+            }
             ht_mutex_unlock(server->client_mutex);
         }
     }
-- 
2.43.0


From a6f159d9979fc06f177198a129676b3eb64dd300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:54 +0000
Subject: [PATCH 41/59] fix: TCP clients never receive a part of an event only

---
 lib/include/internal/listeners/tcp_server.h |  5 +++++
 lib/listeners/tcp_listener.c                |  7 +++++++
 lib/tcp_server.cpp                          | 16 ++++++++++++++--
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/lib/include/internal/listeners/tcp_server.h b/lib/include/internal/listeners/tcp_server.h
index e798f6a..9f515f4 100644
--- a/lib/include/internal/listeners/tcp_server.h
+++ b/lib/include/internal/listeners/tcp_server.h
@@ -12,6 +12,11 @@ HT_TCPServer* ht_tcp_server_create(void);
 
 void ht_tcp_server_destroy(HT_TCPServer* server);
 
+/* No client joins or leaves between those calls. They must surround calls to ht_tcp_server_write(). */
+void ht_tcp_server_lock_clients(HT_TCPServer* server);
+
+void ht_tcp_server_unlock_clients(HT_TCPServer* server);
+
 void ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size);
 
 HT_Boolean ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected client_connected_cb, void* user_data);
diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index bb98fa6..00ab7bb 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -125,6 +125,9 @@ ht_tcp_listener_push_events(HT_TCPListener* listener, TEventPtr events, size_t s
         goto push_event_done;
     }
 
+    /* A single event might be written in many pieces, so no client can join in the meantime. */
+    ht_tcp_server_lock_clients(listener->_tcp_server);
+
     if (serialized)
     {
         ht_listener_buffer_process_serialized_events(&listener->_buffer, events, size, ht_tcp_listener_f_flush, listener);
@@ -140,6 +143,8 @@ ht_tcp_listener_push_events(HT_TCPListener* listener, TEventPtr events, size_t s
         listener->_was_flushed = HT_FALSE;
     }
 
+    ht_tcp_server_unlock_clients(listener->_tcp_server);
+
 push_event_done:
     ht_mutex_unlock(listener->_push_action_mutex);
 }
@@ -235,7 +240,9 @@ ht_tcp_listener_stop(HT_TCPListener* listener)
         return;
     }
 
+    ht_tcp_server_lock_clients(listener->_tcp_server);
     ht_tcp_listener_flush(listener);
+    ht_tcp_server_unlock_clients(listener->_tcp_server);
     tcp_server = listener->_tcp_server;
     listener->_tcp_server = NULL;
     ht_listener_buffer_deinit(&listener->_buffer);
diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index c54dcc8..92ead5d 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -296,8 +296,6 @@ ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size)
 {
     size_t i;
 
-    ht_mutex_lock(server->client_mutex);
-
     for (i = 0; i < ht_bag_size(server->client_sock_fd); i++)
     {
         if (!ht_tcp_server_write_to_socket(server, ht_bag_nth(server->client_sock_fd, i), buffer, size))
@@ -307,7 +305,17 @@ ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size)
             i--;
         }
     }
+}
+
+void
+ht_tcp_server_lock_clients(HT_TCPServer* server)
+{
+    ht_mutex_lock(server->client_mutex);
+}
 
+void
+ht_tcp_server_unlock_clients(HT_TCPServer* server)
+{
     ht_mutex_unlock(server->client_mutex);
 }
 
@@ -335,6 +343,10 @@ ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, s
 
         if (n <= 0)
         {
+#ifndef _WIN32
+            /* nothing may follow incomplete data */
+            shutdown(sock_fd, 2);
+#endif
             return HT_FALSE;
         }
 
-- 
2.43.0


From 2b987b6cfbf84b284ab2b6520986838c6fe60abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:18 +0000
Subject: [PATCH 42/59] fix: a reader can be started again after its stream
 ended

---
 parser/protocol_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 908b733..a156d7b 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -42,6 +42,11 @@ void ProtocolReader::register_events_listener(OnNewEventCallback callback)
 
 bool ProtocolReader::start()
 {
+    if (_thread.joinable())
+    {
+        stop(); // a previous run might have come to the end of its stream
+    }
+
     if (_stream->start())
     {
         _is_running = true;
-- 
2.43.0


From 9f8fe60fdfc0e591b1eca5c8389794a16291bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 43/59] fix: a function whose name is missing or not UTF-8 can
 be traced from Python

---
 bindings/python3/hawktracer_core_python.cpp | 45 ++++++++++++++++-----
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 36ced90..a69fe6c 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -13,25 +13,41 @@ ht_python_core_trace_function(PyObject* function, PyObject *args);
 
 static PyMethodDef ht_python_core_trace_function_md = {"trace_function", ht_python_core_trace_function, METH_VARARGS, ""};
 
+/* Returns 0 (and leaves no error set) if the object can't be used as a label. */
 static uintptr_t
 ht_python_core_get_label_address(PyObject* function_name_attr)
 {
-    if (!PyDict_Contains(tracepoint_map, function_name_attr))
+    if (!PyUnicode_Check(function_name_attr))
     {
-        /* TODO: improve cached string feature so it can handle custom pointers.
-        Then we can simply push all the mapping to a listener if it's registered too late. */
-        uintptr_t address = (uintptr_t)function_name_attr;
-        PyDict_SetItem(tracepoint_map, function_name_attr, PyLong_FromSize_t(address));
-        PyObject* function_name = PyUnicode_AsEncodedString(function_name_attr, "UTF-8", "strict");
-        HT_TIMELINE_PUSH_EVENT(ht_global_timeline_get(), HT_StringMappingEvent, address, PyBytes_AsString(function_name));
-        Py_DECREF(function_name);
+        return 0;
+    }
+
+    PyObject* known_address = PyDict_GetItemWithError(tracepoint_map, function_name_attr);
+    if (known_address)
+    {
+        return PyLong_AsSize_t(known_address);
+    }
+
+    /* TODO: improve cached string feature so it can handle custom pointers.
+    Then we can simply push all the mapping to a listener if it's registered too late. */
+    uintptr_t address = (uintptr_t)function_name_attr;
+    PyObject* new_address = PyLong_FromSize_t(address);
+    PyObject* function_name = PyUnicode_AsEncodedString(function_name_attr, "UTF-8", "backslashreplace");
 
-        return address;
+    if (!PyErr_Occurred() && PyDict_SetItem(tracepoint_map, function_name_attr, new_address) == 0)
+    {
+        HT_TIMELINE_PUSH_EVENT(ht_global_timeline_get(), HT_StringMappingEvent, address, PyBytes_AsString(function_name));
     }
     else
     {
-        return PyLong_AsSize_t(PyDict_GetItem(tracepoint_map, function_name_attr));
+        PyErr_Clear();
+        address = 0;
     }
+
+    Py_XDECREF(new_address);
+    Py_XDECREF(function_name);
+
+    return address;
 }
 
 static PyObject*
@@ -51,9 +67,16 @@ ht_python_core_trace_function(PyObject* function, PyObject *args)
         if (function_name_attr)
         {
             address = ht_python_core_get_label_address(function_name_attr);
-            ht_feature_callstack_start_int(ht_global_timeline_get(), address);
+            if (address)
+            {
+                ht_feature_callstack_start_int(ht_global_timeline_get(), address);
+            }
             Py_DECREF(function_name_attr);
         }
+        else
+        {
+            PyErr_Clear();
+        }
     }
 
     PyObject* ret = PyEval_CallObject(function, args);
-- 
2.43.0


From 784b1063b8f1076f6b3b5d2aac86cc118e013410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 44/59] fix: functions traced from Python accept keyword
 arguments

---
 bindings/python3/hawktracer_core_python.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index a69fe6c..fa7053e 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -9,9 +9,11 @@ static HT_Boolean is_initialized = HT_FALSE;
 static PyObject* tracepoint_map = NULL;
 
 static PyObject*
-ht_python_core_trace_function(PyObject* function, PyObject *args);
+ht_python_core_trace_function(PyObject* function, PyObject* args, PyObject* kwargs);
 
-static PyMethodDef ht_python_core_trace_function_md = {"trace_function", ht_python_core_trace_function, METH_VARARGS, ""};
+static PyMethodDef ht_python_core_trace_function_md = {
+    "trace_function", (PyCFunction)(void(*)(void))ht_python_core_trace_function, METH_VARARGS | METH_KEYWORDS, ""
+};
 
 /* Returns 0 (and leaves no error set) if the object can't be used as a label. */
 static uintptr_t
@@ -51,7 +53,7 @@ ht_python_core_get_label_address(PyObject* function_name_attr)
 }
 
 static PyObject*
-ht_python_core_trace_function(PyObject* function, PyObject *args)
+ht_python_core_trace_function(PyObject* function, PyObject* args, PyObject* kwargs)
 {
     uintptr_t address = 0;
 
@@ -79,7 +81,7 @@ ht_python_core_trace_function(PyObject* function, PyObject *args)
         }
     }
 
-    PyObject* ret = PyEval_CallObject(function, args);
+    PyObject* ret = PyObject_Call(function, args, kwargs);
 
     if (address)
     {
-- 
2.43.0


From bd65da4b2515d4aa7247f2c131cbdfd19b4e16e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:28 +0000
Subject: [PATCH 45/59] fix: events traced from Python are written before the
 interpreter ends

---
 bindings/python3/hawktracer_core_python.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index fa7053e..807d2eb 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -147,8 +147,8 @@ ht_python_core_disable_tracing(PyObject* Py_UNUSED(self), PyObject* Py_UNUSED(ig
     Py_RETURN_NONE;
 }
 
-static int
-ht_python_core_clear_module(PyObject* m)
+static void
+ht_python_core_free_module(void* Py_UNUSED(m))
 {
     if (is_initialized)
     {
@@ -160,12 +160,12 @@ ht_python_core_clear_module(PyObject* m)
         }
 
         ht_deinit();
+        is_initialized = HT_FALSE;
+        file_listener = NULL;
     }
 
-    Py_DECREF(tracepoint_map);
-
-    Py_CLEAR(m);
-    return 0;
+    tracing_enabled = HT_FALSE; /* traced functions might outlive the module */
+    Py_CLEAR(tracepoint_map);
 }
 
 static PyObject*
@@ -261,8 +261,8 @@ static struct PyModuleDef HawkTracer_Python_Core_module = {
     HawkTracer_methods,
     NULL,
     NULL,
-    ht_python_core_clear_module,
-    NULL
+    NULL,
+    ht_python_core_free_module
 };
 
 PyMODINIT_FUNC
-- 
2.43.0


From 5bdd4eea5d1a40210e113eadb0c113a1faee849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 46/59] fix: negative integers reach Python as they were
 recorded

---
 bindings/python3/client_context.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index e0e8c84..3bb2ee5 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -8,9 +8,13 @@ namespace Python
 
 static PyObject* event_to_dictionary(const parser::Event& event)
 {
-#define CREATE_INT_TYPE(HAWKTRACER_TYPE, C_TYPE) \
+#define CREATE_UINT_TYPE(HAWKTRACER_TYPE) \
     case parser::FieldTypeId::HAWKTRACER_TYPE: \
-    val = PyLong_FromUnsignedLongLong((C_TYPE)p.second.value.f_##HAWKTRACER_TYPE); \
+    val = PyLong_FromUnsignedLongLong((uint64_t)p.second.value.f_##HAWKTRACER_TYPE); \
+    break;
+#define CREATE_INT_TYPE(HAWKTRACER_TYPE) \
+    case parser::FieldTypeId::HAWKTRACER_TYPE: \
+    val = PyLong_FromLongLong(p.second.value.f_##HAWKTRACER_TYPE); \
     break;
 
     PyObject* dict = PyDict_New();
@@ -20,8 +24,16 @@ static PyObject* event_to_dictionary(const parser::Event& event)
         PyObject* val = nullptr;
         switch (p.second.field->get_type_id())
         {
-        MKCREFLECT_FOREACH(CREATE_INT_TYPE, uint64_t, UINT8, UINT16, UINT32, UINT64, POINTER)
-        MKCREFLECT_FOREACH(CREATE_INT_TYPE, int64_t, INT8, INT16, INT32, INT64)
+        CREATE_UINT_TYPE(UINT8)
+        CREATE_UINT_TYPE(UINT16)
+        CREATE_UINT_TYPE(UINT32)
+        CREATE_UINT_TYPE(UINT64)
+        CREATE_UINT_TYPE(POINTER)
+        CREATE_INT_TYPE(INT8)
+        CREATE_INT_TYPE(INT16)
+        CREATE_INT_TYPE(INT32)
+        CREATE_INT_TYPE(INT64)
+#undef CREATE_UINT_TYPE
 #undef CREATE_INT_TYPE
         case parser::FieldTypeId::STRING:
             val = PyUnicode_FromString(p.second.value.f_STRING);
-- 
2.43.0


From ca19430e54829780180620b7739565e27808f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 47/59] fix: events are turned into Python objects under the
 interpreter lock

---
 bindings/python3/client_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 3bb2ee5..df98b3b 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -98,9 +98,9 @@ PyObject* Context::poll_event()
 
 void Context::_trigger_callback(const parser::Event& event)
 {
-    PyObject* arglist = Py_BuildValue("(sO)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyGILState_STATE gstate = PyGILState_Ensure();
 
+    PyObject* arglist = Py_BuildValue("(sO)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
     Py_DECREF(arglist);
 
-- 
2.43.0


From 5cdcc04277b709a15172b02b1b728467f99d0bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 48/59] fix: Python objects created for an event are released

---
 bindings/python3/client_context.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index df98b3b..0356988 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -47,7 +47,8 @@ static PyObject* event_to_dictionary(const parser::Event& event)
             continue;
         }
 
-        PyDict_SetItem(dict, PyUnicode_FromString(p.first.c_str()), val);
+        PyDict_SetItemString(dict, p.first.c_str(), val);
+        Py_DECREF(val);
     }
 
     return dict;
@@ -93,14 +94,14 @@ PyObject* Context::poll_event()
     parser::Event evt = _events.front();
     PyObject* py_event = event_to_dictionary(evt);
     _events.pop();
-    return Py_BuildValue("sO", evt.get_klass()->get_name().c_str(), py_event);
+    return Py_BuildValue("sN", evt.get_klass()->get_name().c_str(), py_event);
 }
 
 void Context::_trigger_callback(const parser::Event& event)
 {
     PyGILState_STATE gstate = PyGILState_Ensure();
 
-    PyObject* arglist = Py_BuildValue("(sO)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
+    PyObject* arglist = Py_BuildValue("(sN)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
     Py_DECREF(arglist);
 
-- 
2.43.0


From 67a34a7ad9637179b6c08988d8af9f097d2f75c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:49 +0000
Subject: [PATCH 49/59] fix: strings that are not UTF-8 reach Python

---
 bindings/python3/client_context.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 0356988..5a938a2 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -1,11 +1,19 @@
 #include "client_context.hpp"
 #include "hawktracer/parser/event.hpp"
 
+#include <cstring>
+
 namespace HawkTracer
 {
 namespace Python
 {
 
+// Strings come from the traced application and don't have to be UTF-8.
+static PyObject* to_python_string(const char* str)
+{
+    return PyUnicode_DecodeUTF8(str, strlen(str), "surrogateescape");
+}
+
 static PyObject* event_to_dictionary(const parser::Event& event)
 {
 #define CREATE_UINT_TYPE(HAWKTRACER_TYPE) \
@@ -36,7 +44,7 @@ static PyObject* event_to_dictionary(const parser::Event& event)
 #undef CREATE_UINT_TYPE
 #undef CREATE_INT_TYPE
         case parser::FieldTypeId::STRING:
-            val = PyUnicode_FromString(p.second.value.f_STRING);
+            val = to_python_string(p.second.value.f_STRING);
             break;
         default:
             break;
@@ -47,7 +55,9 @@ static PyObject* event_to_dictionary(const parser::Event& event)
             continue;
         }
 
-        PyDict_SetItemString(dict, p.first.c_str(), val);
+        PyObject* key = to_python_string(p.first.c_str());
+        PyDict_SetItem(dict, key, val);
+        Py_DECREF(key);
         Py_DECREF(val);
     }
 
@@ -94,14 +104,14 @@ PyObject* Context::poll_event()
     parser::Event evt = _events.front();
     PyObject* py_event = event_to_dictionary(evt);
     _events.pop();
-    return Py_BuildValue("sN", evt.get_klass()->get_name().c_str(), py_event);
+    return Py_BuildValue("NN", to_python_string(evt.get_klass()->get_name().c_str()), py_event);
 }
 
 void Context::_trigger_callback(const parser::Event& event)
 {
     PyGILState_STATE gstate = PyGILState_Ensure();
 
-    PyObject* arglist = Py_BuildValue("(sN)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
+    PyObject* arglist = Py_BuildValue("(NN)", to_python_string(event.get_klass()->get_name().c_str()), event_to_dictionary(event));
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
     Py_DECREF(arglist);
 
-- 
2.43.0


From 78e4eb69adb8492976d8bfefa9501ed5f6c1298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 50/59] fix: a Python client can be asked for events before it
 is started

---
 bindings/python3/hawktracer_client_python.cpp | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index f72eb00..0bee679 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -66,25 +66,49 @@ client_start(HT_Python_Client* self, PyObject* args)
     Py_RETURN_NONE;
 }
 
+static Context*
+client_get_context(HT_Python_Client* self)
+{
+    if (!self->context)
+    {
+        PyErr_SetString(PyExc_RuntimeError, "client has not been started");
+    }
+
+    return self->context;
+}
+
 static PyObject *
 client_stop(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    self->context->stop();
+    auto context = client_get_context(self);
+    if (!context)
+    {
+        return nullptr;
+    }
+
+    context->stop();
     Py_RETURN_NONE;
 }
 
 static PyObject *
 client_poll_event(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    return self->context->poll_event();
+    auto context = client_get_context(self);
+    return context ? context->poll_event() : nullptr;
 }
 
 static PyObject *
 client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
+    auto context = client_get_context(self);
+    if (!context)
+    {
+        return nullptr;
+    }
+
     Py_BEGIN_ALLOW_THREADS
 
-    self->context->wait_for_complete();
+    context->wait_for_complete();
 
     Py_END_ALLOW_THREADS
     Py_RETURN_NONE;
@@ -93,7 +117,8 @@ client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 static PyObject *
 client_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    return PyBool_FromLong(self->context->eos());
+    auto context = client_get_context(self);
+    return context ? PyBool_FromLong(context->eos()) : nullptr;
 }
 
 static void
-- 
2.43.0


From 7b6d9f62e37ed42d327f54927d981a36f0b55067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:00 +0000
Subject: [PATCH 51/59] fix: a Python client waits for its reader without the
 interpreter lock

---
 bindings/python3/client_context.cpp           | 33 +++++++++++++++----
 bindings/python3/client_context.hpp           |  5 +--
 bindings/python3/hawktracer_client_python.cpp | 25 +++++++-------
 3 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 5a938a2..676716c 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -86,12 +86,33 @@ Context::Context(std::unique_ptr<parser::Stream> stream, PyObject* on_new_event)
 }
 
 Context::~Context()
- {
-     if (_on_new_event)
-     {
-         Py_DECREF(_on_new_event);
-     }
- }
+{
+    stop(); // the callback might be running
+
+    if (_on_new_event)
+    {
+        Py_DECREF(_on_new_event);
+    }
+}
+
+// The functions below are called with the interpreter lock held, and the reading
+// thread needs that lock to call the callback, so they must not wait with the lock.
+void Context::stop()
+{
+    Py_BEGIN_ALLOW_THREADS
+    {
+        std::lock_guard<std::mutex> l(_stop_mtx);
+        _reader.stop();
+    }
+    Py_END_ALLOW_THREADS
+}
+
+void Context::wait_for_complete()
+{
+    Py_BEGIN_ALLOW_THREADS
+    _reader.wait_for_complete();
+    Py_END_ALLOW_THREADS
+}
 
 PyObject* Context::poll_event()
 {
diff --git a/bindings/python3/client_context.hpp b/bindings/python3/client_context.hpp
index d823caf..d7f2838 100644
--- a/bindings/python3/client_context.hpp
+++ b/bindings/python3/client_context.hpp
@@ -22,14 +22,15 @@ public:
     ~Context();
 
     void start() { _reader.start(); }
-    void stop() { _reader.stop(); }
+    void stop();
     PyObject* poll_event();
     bool eos() { return _reader.eos(); }
-    void wait_for_complete() { _reader.wait_for_complete(); }
+    void wait_for_complete();
 
 private:
     void _trigger_callback(const parser::Event& event);
 
+    std::mutex _stop_mtx;
     std::mutex _events_mtx;
     std::queue<parser::Event> _events;
     parser::KlassRegister _klass_register;
diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index 0bee679..b3a4344 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -3,6 +3,9 @@
 #include "client_context.hpp"
 #include <hawktracer/client_utils/stream_factory.hpp>
 
+#include <memory>
+#include <new>
+
 namespace HawkTracer
 {
 namespace Python
@@ -13,7 +16,7 @@ using namespace HawkTracer;
 struct HT_Python_Client
 {
     PyObject_HEAD
-    Context* context;
+    std::shared_ptr<Context> context; // other threads might use it while the client is started again
 };
 
 static PyObject *
@@ -27,7 +30,7 @@ client_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     auto self = reinterpret_cast<HT_Python_Client*>(type->tp_alloc(type, 0));
     if (self)
     {
-        self->context = nullptr;
+        new (&self->context) std::shared_ptr<Context>();
     }
 
     return reinterpret_cast<PyObject*>(self);
@@ -56,17 +59,19 @@ client_start(HT_Python_Client* self, PyObject* args)
         return nullptr;
     }
 
-    if (self->context)
+    auto previous_context = self->context;
+    if (previous_context)
     {
-        delete self->context;
+        previous_context->stop();
     }
 
-    self->context = new Context(std::move(stream), callback_obj);
-    self->context->start();
+    auto context = std::make_shared<Context>(std::move(stream), callback_obj);
+    context->start();
+    self->context = context;
     Py_RETURN_NONE;
 }
 
-static Context*
+static std::shared_ptr<Context>
 client_get_context(HT_Python_Client* self)
 {
     if (!self->context)
@@ -106,11 +111,7 @@ client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
         return nullptr;
     }
 
-    Py_BEGIN_ALLOW_THREADS
-
     context->wait_for_complete();
-
-    Py_END_ALLOW_THREADS
     Py_RETURN_NONE;
 }
 
@@ -125,7 +126,7 @@ static void
 client_dealloc(PyObject* self)
 {
     auto client = reinterpret_cast<HT_Python_Client*>(self);
-    delete client->context;
+    client->context.~shared_ptr();
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
 
-- 
2.43.0


From 49d055bc9afa3d68f3cd6eb6bc005ddb865f9271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 52/59] fix: a reader can be stopped from its own callback

---
 bindings/python3/client_context.cpp                 | 13 +++++++++++--
 bindings/python3/client_context.hpp                 |  3 +++
 .../include/hawktracer/parser/protocol_reader.hpp   |  1 +
 parser/protocol_reader.cpp                          |  7 +++++++
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 676716c..45cc9cd 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -101,8 +101,16 @@ void Context::stop()
 {
     Py_BEGIN_ALLOW_THREADS
     {
-        std::lock_guard<std::mutex> l(_stop_mtx);
-        _reader.stop();
+        // The callback doesn't wait for a thread which waits for the callback.
+        std::unique_lock<std::mutex> l(_stop_mtx, std::defer_lock);
+        if (std::this_thread::get_id() != _callback_thread_id)
+        {
+            l.lock();
+        }
+        if (l.owns_lock() || l.try_lock())
+        {
+            _reader.stop();
+        }
     }
     Py_END_ALLOW_THREADS
 }
@@ -132,6 +140,7 @@ void Context::_trigger_callback(const parser::Event& event)
 {
     PyGILState_STATE gstate = PyGILState_Ensure();
 
+    _callback_thread_id = std::this_thread::get_id();
     PyObject* arglist = Py_BuildValue("(NN)", to_python_string(event.get_klass()->get_name().c_str()), event_to_dictionary(event));
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
     Py_DECREF(arglist);
diff --git a/bindings/python3/client_context.hpp b/bindings/python3/client_context.hpp
index d7f2838..43ced47 100644
--- a/bindings/python3/client_context.hpp
+++ b/bindings/python3/client_context.hpp
@@ -7,8 +7,10 @@
 #include "hawktracer/parser/klass_register.hpp"
 #include "hawktracer/parser/protocol_reader.hpp"
 
+#include <atomic>
 #include <mutex>
 #include <queue>
+#include <thread>
 
 namespace HawkTracer
 {
@@ -31,6 +33,7 @@ private:
     void _trigger_callback(const parser::Event& event);
 
     std::mutex _stop_mtx;
+    std::atomic<std::thread::id> _callback_thread_id{std::thread::id()};
     std::mutex _events_mtx;
     std::queue<parser::Event> _events;
     parser::KlassRegister _klass_register;
diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 4cbb8dc..38e5bf3 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -47,6 +47,7 @@ private:
     std::vector<OnNewEventCallback> _on_new_event_callbacks;
     std::unique_ptr<Stream> _stream;
     std::thread _thread;
+    std::atomic<std::thread::id> _reading_thread_id{std::thread::id()};
     std::atomic_bool _is_running{false};
     std::condition_variable _cv;
     std::mutex _mtx_cv;
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index a156d7b..e5b5e47 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -65,6 +65,10 @@ void ProtocolReader::stop()
     {
         _stream->stop(); // the reading thread might wait for data
     }
+    if (_reading_thread_id == std::this_thread::get_id())
+    {
+        return; // called from a callback; the thread can't wait for itself
+    }
     if (_thread.joinable())
     {
         _thread.join();
@@ -80,6 +84,8 @@ void ProtocolReader::wait_for_complete()
 
 void ProtocolReader::_read_events()
 {
+    _reading_thread_id = std::this_thread::get_id();
+
     while (_is_running && !_is_malformed)
     {
         bool is_error = false;
@@ -127,6 +133,7 @@ void ProtocolReader::_read_events()
         _call_callbacks(event);
     }
 
+    _reading_thread_id = std::thread::id();
     {
         std::lock_guard<std::mutex> l(_mtx_cv);
         _is_running = false;
-- 
2.43.0


From f0fa05cbd2917030e49ed7b368703156d7d3f887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 53/59] fix: labels of one character get an identifier

---
 tools/generate_tracepoint_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/generate_tracepoint_labels.py b/tools/generate_tracepoint_labels.py
index b6aa80f..2e7de7f 100644
--- a/tools/generate_tracepoint_labels.py
+++ b/tools/generate_tracepoint_labels.py
@@ -135,11 +135,11 @@ def run_program(argv):
     languages = [
         LanguageSupport(
             LanguageSupportArgs(parser, 'cpp', 'C/C++', '.*\.(c|cpp|h|hpp)',
-                                '^\s*HT_TP_GLOBAL_SCOPED_INT\s*\(([_A-Za-z][A-Za-z_0-9]+)\)\s*;\s*$'),
+                                '^\s*HT_TP_GLOBAL_SCOPED_INT\s*\(([_A-Za-z][A-Za-z_0-9]*)\)\s*;\s*$'),
             generate_c_cpp_header),
         LanguageSupport(
             LanguageSupportArgs(parser, 'lua', 'LUA', '.*\.lua',
-                                '^\s*--@TracepointStart\s+([_A-Za-z][A-Za-z_0-9]+)\s*$'),
+                                '^\s*--@TracepointStart\s+([_A-Za-z][A-Za-z_0-9]*)\s*$'),
             generate_lua_file)
     ]
 
-- 
2.43.0


From 95b4f38a3472caa1def00767feea6eba450af36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 54/59] fix: a generated Lua file without labels is valid Lua

---
 tools/generate_tracepoint_labels.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/generate_tracepoint_labels.py b/tools/generate_tracepoint_labels.py
index 2e7de7f..6b7e290 100644
--- a/tools/generate_tracepoint_labels.py
+++ b/tools/generate_tracepoint_labels.py
@@ -112,6 +112,9 @@ def generate_c_cpp_header(cpp_labels, stream):
 
 
 def generate_lua_file(lua_labels, stream):
+    if not lua_labels:
+        return
+
     stream.write('local {} = {}\n'.format(
         ','.join([l[0] for l in lua_labels]), ','.join([str(l[1]) for l in lua_labels])))
 
-- 
2.43.0


From edf7ebe643d00d5b57f7c01b01bcd4550505e3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:08 +0000
Subject: [PATCH 55/59] fix: the label generator does not take a directory or
 another extension for a source file

---
 tools/generate_tracepoint_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/generate_tracepoint_labels.py b/tools/generate_tracepoint_labels.py
index 6b7e290..0ebb1d2 100644
--- a/tools/generate_tracepoint_labels.py
+++ b/tools/generate_tracepoint_labels.py
@@ -137,11 +137,11 @@ def run_program(argv):
 
     languages = [
         LanguageSupport(
-            LanguageSupportArgs(parser, 'cpp', 'C/C++', '.*\.(c|cpp|h|hpp)',
+            LanguageSupportArgs(parser, 'cpp', 'C/C++', '.*\.(c|cc|cpp|cxx|h|hh|hpp|hxx)$',
                                 '^\s*HT_TP_GLOBAL_SCOPED_INT\s*\(([_A-Za-z][A-Za-z_0-9]*)\)\s*;\s*$'),
             generate_c_cpp_header),
         LanguageSupport(
-            LanguageSupportArgs(parser, 'lua', 'LUA', '.*\.lua',
+            LanguageSupportArgs(parser, 'lua', 'LUA', '.*\.lua$',
                                 '^\s*--@TracepointStart\s+([_A-Za-z][A-Za-z_0-9]*)\s*$'),
             generate_lua_file)
     ]
-- 
2.43.0


From 470d65476665b8b644c688d27051157e50e78635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:54 +0000
Subject: [PATCH 56/59] fix: a scheduled task can remove tasks, its own one
 included

---
 lib/task_scheduler.c | 47 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/lib/task_scheduler.c b/lib/task_scheduler.c
index 3bef93d..f627002 100644
--- a/lib/task_scheduler.c
+++ b/lib/task_scheduler.c
@@ -12,6 +12,7 @@ struct _HT_TaskScheduler
 {
     HT_BagVoidPtr tasks;
     HT_TaskId next_task_id;
+    HT_Boolean task_removed; /* set whenever a task is removed by ht_task_scheduler_remove_task() */
 };
 
 typedef struct
@@ -22,6 +23,7 @@ typedef struct
     HT_TimestampNs next_action_ts;
     HT_TaskId id;
     HT_TaskSchedulingMode mode;
+    HT_Boolean executed; /* the task has already been executed in the current tick */
 } HT_Task;
 
 #define HT_TASK(task) ((HT_Task*)task)
@@ -60,6 +62,7 @@ ht_task_scheduler_create(HT_ErrorCode* out_err)
     }
 
     task_scheduler->next_task_id = 0;
+    task_scheduler->task_removed = HT_FALSE;
 
 done:
     HT_SET_ERROR(out_err, error_code);
@@ -106,6 +109,7 @@ ht_task_scheduler_schedule_task(HT_TaskScheduler* task_scheduler,
     task->next_action_ts = ht_monotonic_clock_get_timestamp() + period;
     task->id = task_scheduler->next_task_id++;
     task->mode = mode;
+    task->executed = HT_FALSE;
 
     if (ht_bag_void_ptr_add(&task_scheduler->tasks, task) != HT_ERR_OK)
     {
@@ -116,24 +120,56 @@ ht_task_scheduler_schedule_task(HT_TaskScheduler* task_scheduler,
     return task->id;
 }
 
+static size_t
+ht_task_scheduler_find_task(HT_TaskScheduler* task_scheduler, HT_TaskId task_id)
+{
+    size_t i = 0;
+
+    while (i < task_scheduler->tasks.size && HT_TASK(task_scheduler->tasks.data[i])->id != task_id)
+    {
+        i++;
+    }
+
+    return i;
+}
+
 void
 ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
 {
     size_t i;
     HT_Boolean result;
 
+    for (i = 0; i < task_scheduler->tasks.size; i++)
+    {
+        HT_TASK(task_scheduler->tasks.data[i])->executed = HT_FALSE;
+    }
+
     for (i = 0; i < task_scheduler->tasks.size; i++)
     {
         HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
         HT_TimestampNs now_ts = ht_monotonic_clock_get_timestamp();
-        if (task->next_action_ts > now_ts)
+        HT_TaskId task_id = task->id;
+        if (task->executed || task->next_action_ts > now_ts)
         {
             continue;
         }
 
+        task->executed = HT_TRUE;
+        task_scheduler->task_removed = HT_FALSE;
+
         result = task->callback(task->user_data);
 
-        if (result == HT_FALSE)
+        if (task_scheduler->task_removed)
+        {
+            /* The callback has removed tasks, perhaps this one, and others might have moved */
+            i = ht_task_scheduler_find_task(task_scheduler, task_id);
+        }
+
+        if (i == task_scheduler->tasks.size)
+        {
+            /* The task has been removed by its own callback */
+        }
+        else if (result == HT_FALSE)
         {
             ht_bag_void_ptr_remove_nth(&task_scheduler->tasks, i);
             ht_free(task);
@@ -145,6 +181,12 @@ ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
                         task->next_action_ts + task->period :
                         ht_monotonic_clock_get_timestamp() + task->period;
         }
+
+        if (task_scheduler->task_removed)
+        {
+            /* Check all the tasks again, as the ones that moved might have been passed over */
+            i = (size_t)-1;
+        }
     }
 }
 
@@ -178,6 +220,7 @@ ht_task_scheduler_remove_task(HT_TaskScheduler* task_scheduler, HT_TaskId task_i
         {
             ht_task_scheduler_remove_task_entry(&task_scheduler->tasks, task);
             ht_free(task);
+            task_scheduler->task_removed = HT_TRUE;
             return HT_TRUE;
         }
     }
-- 
2.43.0


From 0a65554736d2cd20a8a553e1a5acda9b9f50b792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 57/59] fix: do not ask a custom allocator for a block of size
 0, which means releasing one

---
 lib/alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/alloc.c b/lib/alloc.c
index 76f1db9..7889c17 100644
--- a/lib/alloc.c
+++ b/lib/alloc.c
@@ -13,7 +13,7 @@ void ht_allocator_set(realloc_function func, void* user_data)
 
 void* ht_alloc(size_t size)
 {
-    return (realloc_fnc_ == NULL) ? malloc(size) : realloc_fnc_(NULL, size, user_data_);
+    return (realloc_fnc_ == NULL) ? malloc(size) : realloc_fnc_(NULL, size > 0 ? size : 1, user_data_); /* size 0 means free */
 }
 
 void* ht_realloc(void* ptr, size_t size)
-- 
2.43.0


From 1dd5d2336ac525ebf1aaa776587fcff431712cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:25 +0000
Subject: [PATCH 58/59] fix: a reader started again forgets the byte order of
 the previous run

---
 parser/protocol_reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index e5b5e47..a2ac407 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -51,6 +51,7 @@ bool ProtocolReader::start()
     {
         _is_running = true;
         _is_malformed = false;
+        _endianness = HT_ENDIANNESS_LITTLE;
         _thread = std::thread([this] { _read_events(); });
         return true;
     }
-- 
2.43.0


From cedbc1fa371f27d9be0c9380d9400ad24d6bbadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:32 +0000
Subject: [PATCH 59/59] fix: the client's output path may be longer than 127
 characters

---
 client/main.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/client/main.cpp b/client/main.cpp
index 0e2c764..16557bf 100644
--- a/client/main.cpp
+++ b/client/main.cpp
@@ -17,10 +17,16 @@ std::string create_output_path(const char* path)
     time_t rawtime;
     time(&rawtime);
     struct tm* time_info = localtime (&rawtime);
-    char file_name_buffer[128];
-    strftime(file_name_buffer, 128, path, time_info);
+    // strftime() returns 0 if the result does not fit, but also if the result is empty; the leading space rules the latter out
+    std::string format = std::string(" ") + path;
+    std::string file_name(128, '\0');
+    size_t length;
+    while ((length = strftime(&file_name[0], file_name.size(), format.c_str(), time_info)) == 0)
+    {
+        file_name.resize(file_name.size() * 2);
+    }
 
-    return file_name_buffer;
+    return file_name.substr(1, length - 1);
 }
 
 std::string supported_formats(std::map<std::string, std::unique_ptr<client::Converter>>& formats)
-- 
2.43.0

