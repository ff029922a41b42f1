From c1b8f15ecf4b085ea76a00671083034abd521e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:49 +0000
Subject: [PATCH 01/70] fix: bag grows and shrinks by the size of its element
 type

Resizing used sizeof(void*) for every element type, so the 17th listener of a
listener set was written behind the end of the allocated block.
---
 lib/include/internal/bag.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/internal/bag.h b/lib/include/internal/bag.h
index e53d5fe..8b5bde3 100644
--- a/lib/include/internal/bag.h
+++ b/lib/include/internal/bag.h
@@ -29,7 +29,7 @@ HT_DECLS_BEGIN
     static HT_INLINE HT_Boolean \
     ht_bag##METHOD_SUFFIX##_resize_(HT_Bag##TYPE_SUFFIX* bag, size_t new_capacity) \
     { \
-        TYPE* ptr = (TYPE*)ht_realloc(bag->data, new_capacity * sizeof(void*)); \
+        TYPE* ptr = (TYPE*)ht_realloc(bag->data, new_capacity * sizeof(TYPE)); \
         \
         if (ptr == NULL) \
         { \
-- 
2.43.0


From db542890a66d257baeb21c97470fa6c3c0a60d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:01 +0000
Subject: [PATCH 02/70] fix: concurrently created timelines of one name share
 their listeners

Two threads that created the first timelines of a name at the same time got
one listener container each, and the reference count of an existing container
was increased without its lock. A container that could not be added to the
registry for lack of memory kept a reference forever.
---
 lib/registry.c          | 40 ++++++++++++++++++++++++----------------
 lib/timeline_listener.c | 27 +++++++++++++++++++++------
 2 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index 1ba6a2e..a7873e9 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -140,51 +140,59 @@ ht_registry_deinit(void)
     ht_bag_void_ptr_deinit(&event_klass_register);
 }
 
-HT_TimelineListenerContainer*
-ht_registry_find_listener_container(const char* name)
+static HT_TimelineListenerContainer*
+_ht_registry_find_listener_container(const char* name)
 {
     size_t i;
     uint32_t id = djb2_hash(name);
 
-    ht_mutex_lock(listeners_register_mutex);
     for (i = 0; i < listeners_register.size; i++)
     {
-        if (ht_timeline_listener_container_get_id((HT_TimelineListenerContainer*)listeners_register.data[i]) == id)
+        HT_TimelineListenerContainer* container = (HT_TimelineListenerContainer*)listeners_register.data[i];
+        if (ht_timeline_listener_container_get_id(container) == id)
         {
-            HT_TimelineListenerContainer* container = (HT_TimelineListenerContainer*)listeners_register.data[i];
-            ht_mutex_unlock(listeners_register_mutex);
             return container;
         }
     }
-    ht_mutex_unlock(listeners_register_mutex);
 
     return NULL;
 }
 
+HT_TimelineListenerContainer*
+ht_registry_find_listener_container(const char* name)
+{
+    HT_TimelineListenerContainer* container;
+
+    ht_mutex_lock(listeners_register_mutex);
+    container = _ht_registry_find_listener_container(name);
+    ht_mutex_unlock(listeners_register_mutex);
+
+    return container;
+}
+
 HT_ErrorCode
 ht_registry_register_listener_container(const char* name, HT_TimelineListenerContainer* container)
 {
     HT_ErrorCode error_code;
 
-    if (ht_registry_find_listener_container(name) != NULL)
+    ht_mutex_lock(listeners_register_mutex);
+
+    if (_ht_registry_find_listener_container(name) != NULL)
     {
+        ht_mutex_unlock(listeners_register_mutex);
         return HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED;
     }
 
-    ht_mutex_lock(listeners_register_mutex);
-    ht_timeline_listener_container_set_id(container, djb2_hash(name));
-    ht_timeline_listener_container_ref(container);
-
     error_code = ht_bag_void_ptr_add(&listeners_register, container);
-    if (error_code != HT_ERR_OK)
+    if (error_code == HT_ERR_OK)
     {
-        ht_mutex_unlock(listeners_register_mutex);
-        return error_code;
+        ht_timeline_listener_container_set_id(container, djb2_hash(name));
+        ht_timeline_listener_container_ref(container);
     }
 
     ht_mutex_unlock(listeners_register_mutex);
 
-    return HT_ERR_OK;
+    return error_code;
 }
 
 #define REGISTRY_LISETNER_BUFF_SIZE 4096
diff --git a/lib/timeline_listener.c b/lib/timeline_listener.c
index 1bdd207..fa3ce9c 100644
--- a/lib/timeline_listener.c
+++ b/lib/timeline_listener.c
@@ -183,16 +183,31 @@ ht_find_or_create_listener(const char* name)
         container = ht_registry_find_listener_container(name);
         if (container == NULL)
         {
+            HT_ErrorCode error_code;
+
             container = ht_timeline_listener_container_create();
-            if (container != NULL)
+            if (container == NULL)
             {
-                ht_registry_register_listener_container(name, container);
+                return NULL;
             }
+
+            error_code = ht_registry_register_listener_container(name, container);
+            if (error_code == HT_ERR_OK)
+            {
+                return container;
+            }
+
+            ht_timeline_listener_container_unref(container);
+            if (error_code != HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED)
+            {
+                return NULL;
+            }
+
+            /* another thread has registered the container in the meantime */
+            container = ht_registry_find_listener_container(name);
         }
-        else
-        {
-            container->refcount++;
-        }
+
+        ht_timeline_listener_container_ref(container);
     }
 
     return container;
-- 
2.43.0


From bf2bec5bf24fc9a90b1bc2fefb1406ef7aa811bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:07 +0000
Subject: [PATCH 03/70] fix: listener containers are found by their name, not
 by its hash

Timelines whose listener-container names have the same hash (for example
"ab" and "bA") shared one set of listeners.
---
 .../internal/timeline_listener_container.h    |  4 +--
 lib/registry.c                                | 13 +++----
 lib/timeline_listener.c                       | 35 +++++++++++++++----
 3 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/lib/include/internal/timeline_listener_container.h b/lib/include/internal/timeline_listener_container.h
index 106bfdc..2291fcf 100644
--- a/lib/include/internal/timeline_listener_container.h
+++ b/lib/include/internal/timeline_listener_container.h
@@ -9,9 +9,9 @@ typedef struct _HT_TimelineListenerContainer HT_TimelineListenerContainer;
 
 void ht_timeline_listener_container_notify_listeners(HT_TimelineListenerContainer* listeners, TEventPtr events, size_t size, HT_Boolean serialize_events);
 
-uint32_t ht_timeline_listener_container_get_id(HT_TimelineListenerContainer* listeners);
+const char* ht_timeline_listener_container_get_name(HT_TimelineListenerContainer* listeners);
 
-void ht_timeline_listener_container_set_id(HT_TimelineListenerContainer* container, uint32_t id);
+HT_ErrorCode ht_timeline_listener_container_set_name(HT_TimelineListenerContainer* container, const char* name);
 
 void ht_timeline_listener_container_ref(HT_TimelineListenerContainer* container);
 
diff --git a/lib/registry.c b/lib/registry.c
index a7873e9..b4ebf3c 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -1,7 +1,6 @@
 #include "hawktracer/alloc.h"
 #include "hawktracer/core_events.h"
 #include "internal/bag.h"
-#include "internal/hash.h"
 #include "internal/feature.h"
 #include "internal/registry.h"
 #include "internal/mutex.h"
@@ -144,12 +143,11 @@ static HT_TimelineListenerContainer*
 _ht_registry_find_listener_container(const char* name)
 {
     size_t i;
-    uint32_t id = djb2_hash(name);
 
     for (i = 0; i < listeners_register.size; i++)
     {
         HT_TimelineListenerContainer* container = (HT_TimelineListenerContainer*)listeners_register.data[i];
-        if (ht_timeline_listener_container_get_id(container) == id)
+        if (strcmp(ht_timeline_listener_container_get_name(container), name) == 0)
         {
             return container;
         }
@@ -183,11 +181,14 @@ ht_registry_register_listener_container(const char* name, HT_TimelineListenerCon
         return HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED;
     }
 
-    error_code = ht_bag_void_ptr_add(&listeners_register, container);
+    error_code = ht_timeline_listener_container_set_name(container, name);
     if (error_code == HT_ERR_OK)
     {
-        ht_timeline_listener_container_set_id(container, djb2_hash(name));
-        ht_timeline_listener_container_ref(container);
+        error_code = ht_bag_void_ptr_add(&listeners_register, container);
+        if (error_code == HT_ERR_OK)
+        {
+            ht_timeline_listener_container_ref(container);
+        }
     }
 
     ht_mutex_unlock(listeners_register_mutex);
diff --git a/lib/timeline_listener.c b/lib/timeline_listener.c
index fa3ce9c..6a63b57 100644
--- a/lib/timeline_listener.c
+++ b/lib/timeline_listener.c
@@ -10,6 +10,7 @@
 #include "internal/system_info.h"
 
 #include <assert.h>
+#include <string.h>
 
 typedef struct
 {
@@ -25,7 +26,7 @@ struct _HT_TimelineListenerContainer
 {
     HT_BagListener entries;
     HT_Mutex* mutex;
-    uint32_t id;
+    char* name;
     uint32_t refcount;
 };
 
@@ -47,15 +48,31 @@ _ht_timeline_listener_container_unregister_all_listeners(
     ht_bag_listener_clear(&container->entries);
 }
 
-uint32_t
-ht_timeline_listener_container_get_id(HT_TimelineListenerContainer* container)
+const char*
+ht_timeline_listener_container_get_name(HT_TimelineListenerContainer* container)
 {
-    return container->id;
+    return container->name;
 }
 
-void ht_timeline_listener_container_set_id(HT_TimelineListenerContainer* container, uint32_t id)
+HT_ErrorCode
+ht_timeline_listener_container_set_name(HT_TimelineListenerContainer* container, const char* name)
 {
-    container->id = id;
+    size_t size = strlen(name) + 1;
+    char* copy = (char*)ht_alloc(size);
+
+    if (copy == NULL)
+    {
+        return HT_ERR_OUT_OF_MEMORY;
+    }
+
+    memcpy(copy, name, size);
+    if (container->name != NULL)
+    {
+        ht_free(container->name);
+    }
+    container->name = copy;
+
+    return HT_ERR_OK;
 }
 
 void
@@ -90,7 +107,7 @@ ht_timeline_listener_container_create(void)
         goto error_create_mutex;
     }
 
-    container->id = 0;
+    container->name = NULL;
     container->refcount = 1;
     goto done;
 
@@ -127,6 +144,10 @@ ht_timeline_listener_container_unref(HT_TimelineListenerContainer* container)
         ht_mutex_unlock(container->mutex);
         ht_mutex_destroy(container->mutex);
 
+        if (container->name != NULL)
+        {
+            ht_free(container->name);
+        }
         ht_free(container);
     }
     else
-- 
2.43.0


From e3dfd2e9aa0f91893e42af3d14eda0b91ede5e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:51 +0000
Subject: [PATCH 04/70] fix: thread identifiers are drawn atomically

Two threads that asked for their identifier for the first time at the same
time could get the same one.
---
 lib/thread.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/thread.c b/lib/thread.c
index 4925b8f..0af19d9 100644
--- a/lib/thread.c
+++ b/lib/thread.c
@@ -1,6 +1,17 @@
 #include "hawktracer/thread.h"
 
-static HT_ThreadId _ht_current_thread_id = 0; // TODO: this must be atomic
+#if defined(HT_ENABLE_THREADS) && defined(_MSC_VER)
+#  include <intrin.h>
+static volatile long _ht_current_thread_id = 0;
+#  define HT_NEXT_THREAD_ID_() ((HT_ThreadId)_InterlockedIncrement(&_ht_current_thread_id))
+#else
+static HT_ThreadId _ht_current_thread_id = 0;
+#  if defined(HT_ENABLE_THREADS) && defined(__GNUC__)
+#    define HT_NEXT_THREAD_ID_() __sync_add_and_fetch(&_ht_current_thread_id, 1)
+#  else
+#    define HT_NEXT_THREAD_ID_() (++_ht_current_thread_id)
+#  endif
+#endif
 
 HT_ThreadId
 ht_thread_get_current_thread_id(void)
@@ -9,7 +20,7 @@ ht_thread_get_current_thread_id(void)
 
     if (!thread_id)
     {
-        thread_id = ++_ht_current_thread_id;
+        thread_id = HT_NEXT_THREAD_ID_();
     }
 
     return thread_id;
-- 
2.43.0


From 0767849af0980a1ab1b74351c23a70a86c1d1e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:46 +0000
Subject: [PATCH 05/70] fix: repeated initialisation does not reset the
 registry

Every ht_init() call created a new, empty registry, so that all event classes
and listener containers registered so far were lost (and leaked).
---
 lib/init.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/init.c b/lib/init.c
index b6cb515..e4fdf0c 100644
--- a/lib/init.c
+++ b/lib/init.c
@@ -15,6 +15,11 @@ ht_init(int argc, char** argv)
 {
     ht_command_line_parse_args(argc, argv);
 
+    if (_ht_init_counter++ > 0)
+    {
+        return;
+    }
+
     ht_registry_init();
 
     HT_REGISTER_EVENT_KLASS(HT_EndiannessInfoEvent);
@@ -32,8 +37,6 @@ ht_init(int argc, char** argv)
 #ifdef HT_USE_PTHREADS
     _ht_posix_mapped_tracepoint_init();
 #endif
-
-    _ht_init_counter++;
 }
 
 HT_Boolean
-- 
2.43.0


From 52a393450af2d7af5636d53e1fd5c34d7aef9648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:42 +0000
Subject: [PATCH 06/70] fix: event classes are registered once, also after a
 shutdown or concurrently

The classes kept their identifiers when ht_deinit() destroyed the registry, so
a new ht_init() did not register them and later traces could not be decoded.
Whether a class is registered already was decided outside the lock, so two
threads registering the same class could add it twice.
---
 lib/registry.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index b4ebf3c..16e98c5 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -99,19 +99,25 @@ done:
 HT_EventKlassId
 ht_registry_register_event_klass(HT_EventKlass* event_klass)
 {
-    if (event_klass->klass_id == HT_INVALID_KLASS_ID)
-    {
-        ht_mutex_lock(event_klass_registry_register_mutex);
+    HT_EventKlassId klass_id;
+
+    ht_mutex_lock(event_klass_registry_register_mutex);
 
+    /* the class might still have an identifier from the registry that existed before ht_deinit() */
+    klass_id = event_klass->klass_id;
+    if (klass_id >= event_klass_register.size || event_klass_register.data[klass_id] != event_klass)
+    {
+        klass_id = HT_INVALID_KLASS_ID;
         if (ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK)
         {
-            event_klass->klass_id = (HT_EventKlassId)event_klass_register.size - 1;
+            klass_id = (HT_EventKlassId)event_klass_register.size - 1;
         }
-
-        ht_mutex_unlock(event_klass_registry_register_mutex);
+        event_klass->klass_id = klass_id;
     }
 
-    return event_klass->klass_id;
+    ht_mutex_unlock(event_klass_registry_register_mutex);
+
+    return klass_id;
 }
 
 HT_EventKlass**
-- 
2.43.0


From 9bc990bd868ef094797a319e70170470e16af3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:06 +0000
Subject: [PATCH 07/70] fix: metadata of many or long-named classes fits its
 buffer

The space left in the buffer was compared with the serialized size of an event
although the whole structure is copied for non-serializing listeners, and an
event with a name longer than the buffer was written over its end.
---
 lib/registry.c | 51 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index 16e98c5..63f6acb 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -238,35 +238,54 @@ _ht_registry_init_event_klass_field_info_event(HT_EventKlass* klass, size_t fiel
 }
 
 static size_t
-_ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
+_ht_registry_push_event_to_listener(HT_Event* event, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
 {
-    size_t j;
-    size_t total_size = 0;
-    HT_DECL_EVENT(HT_EventKlassInfoEvent, event);
-    _ht_registry_init_event_klass_info_event(klass, &event);
+    HT_EventKlass* klass = HT_EVENT_GET_KLASS(event);
+    size_t event_size = serialize ? klass->get_size(event) : klass->type_info->size;
+    size_t pushed_size = 0;
 
-    if (ht_HT_EventKlassInfoEvent_get_size(HT_EVENT(&event)) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
+    if (event_size > REGISTRY_LISETNER_BUFF_SIZE - *data_pos && *data_pos > 0)
     {
         callback(data, *data_pos, serialize, listener);
-        total_size += *data_pos;
+        pushed_size += *data_pos;
         *data_pos = 0;
     }
 
-    *data_pos += ht_event_utils_serialize_event_to_buffer(HT_EVENT(&event), data + *data_pos, serialize);
+    if (event_size > REGISTRY_LISETNER_BUFF_SIZE)
+    {
+        HT_Byte* buffer = (HT_Byte*)ht_alloc(event_size);
+        if (buffer != NULL)
+        {
+            ht_event_utils_serialize_event_to_buffer(event, buffer, serialize);
+            callback(buffer, event_size, serialize, listener);
+            pushed_size += event_size;
+            ht_free(buffer);
+        }
+    }
+    else
+    {
+        *data_pos += ht_event_utils_serialize_event_to_buffer(event, data + *data_pos, serialize);
+    }
+
+    return pushed_size;
+}
+
+static size_t
+_ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
+{
+    size_t j;
+    size_t total_size = 0;
+    HT_DECL_EVENT(HT_EventKlassInfoEvent, event);
+    _ht_registry_init_event_klass_info_event(klass, &event);
+
+    total_size += _ht_registry_push_event_to_listener(HT_EVENT(&event), data, data_pos, callback, listener, serialize);
 
     for (j = 0; j < klass->type_info->fields_count; j++)
     {
         HT_DECL_EVENT(HT_EventKlassFieldInfoEvent, field_event);
         _ht_registry_init_event_klass_field_info_event(klass, j, &field_event);
 
-        if (ht_HT_EventKlassFieldInfoEvent_get_size(HT_EVENT(&field_event)) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
-        {
-            callback(data, *data_pos, serialize, listener);
-            total_size += *data_pos;
-            *data_pos = 0;
-        }
-
-        *data_pos += ht_event_utils_serialize_event_to_buffer(HT_EVENT(&field_event), data + *data_pos, serialize);
+        total_size += _ht_registry_push_event_to_listener(HT_EVENT(&field_event), data, data_pos, callback, listener, serialize);
     }
 
     return total_size;
-- 
2.43.0


From 22bb9a77e30dd34937aa6b9bbba2840f39c5e09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:01 +0000
Subject: [PATCH 08/70] fix: a raw event larger than the listener buffer does
 not overflow it

---
 lib/listener_buffer.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/listener_buffer.c b/lib/listener_buffer.c
index 4249e58..3fac990 100644
--- a/lib/listener_buffer.c
+++ b/lib/listener_buffer.c
@@ -80,13 +80,29 @@ ht_listener_buffer_process_unserialized_events(HT_ListenerBuffer* buffer,
     for (i = 0; i < size;)
     {
         HT_Event* event = HT_EVENT(events + i);
+        size_t event_size = HT_EVENT_GET_KLASS(event)->get_size(event);
 
-        if (HT_EVENT_GET_KLASS(event)->get_size(event) + buffer->usage > buffer->max_size)
+        if (event_size + buffer->usage > buffer->max_size)
         {
             ht_listener_buffer_flush(buffer, flush_callback, listener);
         }
 
-        buffer->usage += HT_EVENT_GET_KLASS(event)->serialize(event, buffer->data + buffer->usage);
+        if (event_size > buffer->max_size)
+        {
+            /* the event is bigger than the whole buffer */
+            HT_Byte* data = (HT_Byte*)ht_alloc(event_size);
+            if (data != NULL)
+            {
+                HT_EVENT_GET_KLASS(event)->serialize(event, data);
+                flush_callback(listener, data, event_size);
+                ht_free(data);
+            }
+        }
+        else
+        {
+            buffer->usage += HT_EVENT_GET_KLASS(event)->serialize(event, buffer->data + buffer->usage);
+        }
+
         i += HT_EVENT_GET_KLASS(event)->type_info->size;
     }
 }
-- 
2.43.0


From f6d9721123e000fecbd7c3f4994d24e5324922c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 09/70] fix: string identifiers are unique and announced before
 they are handed out

---
 lib/feature_cached_string.c | 96 +++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 37 deletions(-)

diff --git a/lib/feature_cached_string.c b/lib/feature_cached_string.c
index 0cd7c8b..4062d3e 100644
--- a/lib/feature_cached_string.c
+++ b/lib/feature_cached_string.c
@@ -9,6 +9,7 @@
 #include "internal/hash_map.h"
 
 #include <assert.h>
+#include <string.h>
 
 static void
 ht_feature_cached_string_destroy(HT_Feature* f);
@@ -109,36 +110,82 @@ ht_feature_cached_string_destroy(HT_Feature* f)
     ht_free(feature);
 }
 
+static char*
+ht_feature_cached_string_copy_label_(const char* label)
+{
+    size_t label_size = strlen(label) + 1;
+    char* new_label = (char*)ht_alloc(label_size);
+
+    if (new_label != NULL)
+    {
+        memcpy(new_label, label, label_size);
+    }
+
+    return new_label;
+}
+
 static uintptr_t
-ht_feature_cached_string_add_mapping_(HT_Timeline* timeline, HT_HashMap* map, uintptr_t hash, const char* label)
+ht_feature_cached_string_add_mapping_(HT_Timeline* timeline, uintptr_t identifier, const char* label, HT_Boolean is_dynamic)
 {
     HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
-    HT_ErrorCode error_code;
+    HT_HashMap* map;
+    HT_HashMap* other_map;
+    const char* known_label;
+    HT_ErrorCode error_code = HT_ERR_OK;
 
     assert(f);
 
+    map = is_dynamic ? &f->dynamic_hashes : &f->static_hashes;
+    other_map = is_dynamic ? &f->static_hashes : &f->dynamic_hashes;
+
     HT_FCS_LOCK_(f);
 
-    const char* ret = ht_hash_map_insert(map, hash, label, &error_code);
+    /* the identifier might already be used by another label */
+    while ((known_label = ht_hash_map_get_value(map, identifier)) != NULL || ht_hash_map_get_value(other_map, identifier) != NULL)
+    {
+        if (known_label != NULL && (is_dynamic ? strcmp(known_label, label) == 0 : known_label == label))
+        {
+            HT_FCS_UNLOCK_(f);
+            return identifier;
+        }
+        identifier++;
+    }
 
-    HT_FCS_UNLOCK_(f);
-    if (error_code != HT_ERR_OK)
+    if (is_dynamic)
     {
-        return 0;
+        label = ht_feature_cached_string_copy_label_(label);
+        if (label == NULL)
+        {
+            HT_FCS_UNLOCK_(f);
+            return 0;
+        }
     }
 
-    if (ret == NULL)
+    ht_hash_map_insert(map, identifier, label, &error_code);
+
+    if (error_code == HT_ERR_OK)
     {
-        HT_TIMELINE_PUSH_EVENT(timeline, HT_StringMappingEvent, hash, label);
+        /* pushed before another thread can get the identifier */
+        HT_TIMELINE_PUSH_EVENT(timeline, HT_StringMappingEvent, identifier, label);
     }
-    return hash;
+    else
+    {
+        if (is_dynamic)
+        {
+            ht_free((void*)label);
+        }
+        identifier = 0;
+    }
+
+    HT_FCS_UNLOCK_(f);
+
+    return identifier;
 }
 
 uintptr_t
 ht_feature_cached_string_add_mapping(HT_Timeline* timeline, const char* label)
 {
-    HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
-    return ht_feature_cached_string_add_mapping_(timeline, &f->static_hashes, (uintptr_t)label, label);
+    return ht_feature_cached_string_add_mapping_(timeline, (uintptr_t)label, label, HT_FALSE);
 }
 
 static HT_Boolean
@@ -166,32 +213,7 @@ ht_feature_cached_string_push_map(HT_Timeline* timeline)
 uintptr_t
 ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char* label)
 {
-    HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
-    uintptr_t hash_value;
-
-    assert(f);
-
-    hash_value = djb2_hash(label);
-
-    HT_FCS_LOCK_(f);
-
-    if (ht_hash_map_get_value(&f->dynamic_hashes, hash_value) == NULL)
-    {
-        HT_FCS_UNLOCK_(f);
-
-        size_t label_len = strlen(label);
-        char* new_label = (char*)ht_alloc(label_len + 1);
-        memcpy(new_label, label, label_len);
-        new_label[label_len] = 0;
-
-        ht_feature_cached_string_add_mapping_(timeline, &f->dynamic_hashes, hash_value, new_label);
-    }
-    else
-    {
-        HT_FCS_UNLOCK_(f);
-    }
-
-    return hash_value;
+    return ht_feature_cached_string_add_mapping_(timeline, djb2_hash(label), label, HT_TRUE);
 }
 
 HT_ErrorCode
-- 
2.43.0


From 4c362ad12c9c5768c9588ec744314c95f9df6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:20 +0000
Subject: [PATCH 10/70] fix: looking up a feature that is not registered
 returns nothing

---
 lib/timeline.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/timeline.c b/lib/timeline.c
index 5ad67bd..ccdc4ee 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -149,6 +149,11 @@ ht_timeline_set_feature(HT_Timeline* timeline, HT_Feature* feature)
 HT_Feature*
 ht_timeline_get_feature(HT_Timeline* timeline, HT_FeatureKlass* feature_klass)
 {
+    if (feature_klass->id == HT_INVALID_FEATURE_ID || feature_klass->id >= HT_TIMELINE_MAX_FEATURES)
+    {
+        return NULL;
+    }
+
     return timeline->features[feature_klass->id];
 }
 
-- 
2.43.0


From f263817b48110129636b66dc6d4ab4af5f2e34e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:26 +0000
Subject: [PATCH 11/70] fix: concurrent registration of a feature gives it one
 slot

---
 lib/registry.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index 63f6acb..0a99ada 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -54,10 +54,10 @@ HT_ErrorCode ht_registry_register_feature(HT_FeatureKlass* klass)
     feature_register[feature_count++] = HT_TRUE;
 
 register_feature_finalize:
-    ht_mutex_unlock(features_register_mutex);
-
     klass->id = feature_id;
 
+    ht_mutex_unlock(features_register_mutex);
+
     return err;
 }
 
-- 
2.43.0


From 101eb79141e78e0273d2c8eacb27da9946c60161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:38 +0000
Subject: [PATCH 12/70] fix: timeline creation reports exhausted memory and
 does not request empty blocks

---
 lib/timeline.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/timeline.c b/lib/timeline.c
index ccdc4ee..f549ad1 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -197,12 +197,14 @@ ht_timeline_create(size_t buffer_capacity,
 
     if (timeline == NULL)
     {
+        error_code = HT_ERR_OUT_OF_MEMORY;
         goto done;
     }
 
-    timeline->buffer = (HT_Byte*)ht_alloc(buffer_capacity);
+    /* an allocator is not obliged to return a block of size 0 */
+    timeline->buffer = buffer_capacity > 0 ? (HT_Byte*)ht_alloc(buffer_capacity) : NULL;
 
-    if (timeline->buffer == NULL)
+    if (timeline->buffer == NULL && buffer_capacity > 0)
     {
         error_code = HT_ERR_OUT_OF_MEMORY;
         goto error_allocate_buffer;
-- 
2.43.0


From f0e0139b68fefc4d6aca6eb0be58056570d47b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:44 +0000
Subject: [PATCH 13/70] fix: pushing a large event does not crash when memory
 is exhausted

---
 lib/timeline.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/timeline.c b/lib/timeline.c
index f549ad1..7a41694 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -70,9 +70,12 @@ ht_timeline_push_event(HT_Timeline* timeline, HT_Event* event)
             if (size > sizeof(local_buffer)/sizeof(local_buffer[0]))
             {
                 HT_Byte* buff = (HT_Byte*)ht_alloc(size);
-                event->klass->serialize(event, buff);
-                ht_timeline_listener_container_notify_listeners(timeline->listeners, buff, size, timeline->serialize_events);
-                ht_free(buff);
+                if (buff != NULL)
+                {
+                    event->klass->serialize(event, buff);
+                    ht_timeline_listener_container_notify_listeners(timeline->listeners, buff, size, timeline->serialize_events);
+                    ht_free(buff);
+                }
             }
             else
             {
-- 
2.43.0


From 8b6d6f75235d240484b91c2fc6268b40fae9f6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 14/70] fix: a task that cannot be added is released

---
 lib/task_scheduler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/task_scheduler.c b/lib/task_scheduler.c
index beb16ca..3bef93d 100644
--- a/lib/task_scheduler.c
+++ b/lib/task_scheduler.c
@@ -109,6 +109,7 @@ ht_task_scheduler_schedule_task(HT_TaskScheduler* task_scheduler,
 
     if (ht_bag_void_ptr_add(&task_scheduler->tasks, task) != HT_ERR_OK)
     {
+        ht_free(task);
         return HT_TASK_SCHEDULER_INVALID_TASK_ID;
     }
 
-- 
2.43.0


From 41d948c37826e58158de075ea6ca742d803e2363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:57 +0000
Subject: [PATCH 15/70] fix: creating an event id provider reports exhausted
 memory

---
 lib/event_id_provider.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/event_id_provider.cpp b/lib/event_id_provider.cpp
index 405ca79..a117158 100644
--- a/lib/event_id_provider.cpp
+++ b/lib/event_id_provider.cpp
@@ -25,7 +25,10 @@ HT_EventIdProvider*
 ht_event_id_provider_create(void)
 {
     HT_EventIdProvider* provider = HT_CREATE_TYPE(HT_EventIdProvider);
-    provider->current_identifier = 0;
+    if (provider != NULL)
+    {
+        provider->current_identifier = 0;
+    }
     return provider;
 }
 
-- 
2.43.0


From 0466079fc8a4dc9efc9784be68974173956c33b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:02 +0000
Subject: [PATCH 16/70] fix: the global timeline survives exhausted memory

---
 lib/global_timeline.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/global_timeline.cpp b/lib/global_timeline.cpp
index 614c10d..9087385 100644
--- a/lib/global_timeline.cpp
+++ b/lib/global_timeline.cpp
@@ -19,8 +19,17 @@ static HT_Timeline* _ht_global_timeline_create(void)
 {
     HT_Timeline* c_timeline = ht_timeline_create(global_timeline_buffer_size, HT_FALSE, HT_TRUE, "HT_GlobalTimeline", NULL);
 
-    ht_feature_callstack_enable(c_timeline);
-    ht_feature_cached_string_enable(c_timeline, HT_FALSE);
+    if (c_timeline == NULL)
+    {
+        return NULL;
+    }
+
+    if (ht_feature_callstack_enable(c_timeline) != HT_ERR_OK ||
+        ht_feature_cached_string_enable(c_timeline, HT_FALSE) != HT_ERR_OK)
+    {
+        ht_timeline_destroy(c_timeline);
+        return NULL;
+    }
 
     return c_timeline;
 }
@@ -49,13 +58,15 @@ struct GlobalTimeline
 {
     GlobalTimeline()
     {
-        /* TODO: handle ht_timeline_create() error? */
         c_timeline = _ht_global_timeline_create();
     }
 
     ~GlobalTimeline()
     {
-        ht_timeline_destroy(c_timeline);
+        if (c_timeline != NULL)
+        {
+            ht_timeline_destroy(c_timeline);
+        }
     }
 
     HT_Timeline* c_timeline;
@@ -65,6 +76,11 @@ HT_Timeline* ht_global_timeline_get(void)
 {
     static HT_THREAD_LOCAL GlobalTimeline timeline;
 
+    if (timeline.c_timeline == NULL)
+    {
+        timeline.c_timeline = _ht_global_timeline_create();
+    }
+
     return timeline.c_timeline;
 }
 
-- 
2.43.0


From 02b6daaca0d36e917c8799cf48e383c99fd9bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:11 +0000
Subject: [PATCH 17/70] fix: reject malformed values of
 --ht-global-timeline-buffer-size

---
 lib/command_line_parser.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/command_line_parser.c b/lib/command_line_parser.c
index 795940e..d1dde70 100644
--- a/lib/command_line_parser.c
+++ b/lib/command_line_parser.c
@@ -1,6 +1,7 @@
 #include "internal/command_line_parser.h"
 #include "internal/global_timeline.h"
 
+#include <ctype.h>
 #include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -42,6 +43,12 @@ set_global_timeline_buffer_size(int argc, char** argv, int pos)
     }
 
     const char* s = argv[pos + 1];
+    if (!isdigit((unsigned char)s[0]))
+    {
+        /* strtoul() would skip spaces, and accept negative numbers by wrapping them */
+        return HT_ERR_INVALID_FORMAT;
+    }
+
     char* end;
     errno = 0;
     unsigned long value = strtoul(s, &end, 10);
@@ -52,7 +59,7 @@ set_global_timeline_buffer_size(int argc, char** argv, int pos)
         return HT_ERR_OUT_OF_RANGE;
     }
 
-    if (end - s == 0)
+    if (end - s == 0 || *end != '\0')
     {
         return HT_ERR_INVALID_FORMAT;
     }
-- 
2.43.0


From 2c20955cd6cb77d18db94d4a08afcc364d979263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:16 +0000
Subject: [PATCH 18/70] fix: don't truncate or corrupt output paths longer than
 127 characters

---
 client/main.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/client/main.cpp b/client/main.cpp
index 0e2c764..b06fd4d 100644
--- a/client/main.cpp
+++ b/client/main.cpp
@@ -7,7 +7,10 @@
 #include <hawktracer/client_utils/command_line_parser.hpp>
 #include <hawktracer/client_utils/stream_factory.hpp>
 #include <iostream>
+#include <ctime>
 #include <map>
+#include <string>
+#include <vector>
 
 using namespace HawkTracer;
 using ClientUtils::CommandLineParser;
@@ -17,10 +20,17 @@ std::string create_output_path(const char* path)
     time_t rawtime;
     time(&rawtime);
     struct tm* time_info = localtime (&rawtime);
-    char file_name_buffer[128];
-    strftime(file_name_buffer, 128, path, time_info);
 
-    return file_name_buffer;
+    // the extra character tells an empty result from a too small buffer
+    std::string format = std::string(path) + ' ';
+    std::vector<char> file_name_buffer(format.size() + 128);
+    size_t length;
+    while ((length = strftime(file_name_buffer.data(), file_name_buffer.size(), format.c_str(), time_info)) == 0)
+    {
+        file_name_buffer.resize(file_name_buffer.size() * 2);
+    }
+
+    return std::string(file_name_buffer.data(), length - 1);
 }
 
 std::string supported_formats(std::map<std::string, std::unique_ptr<client::Converter>>& formats)
-- 
2.43.0


From 4fa7f38710477f30dfdbb2b941ccecc7a448f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:54 +0000
Subject: [PATCH 19/70] fix: TCPClientStream::read_byte() reported bytes above
 0x7f as end of stream

---
 client_utils/tcp_client_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index b06546c..34cf8bc 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -153,7 +153,7 @@ int TCPClientStream::read_byte()
     else
     {
         auto& buffer = _datas.front();
-        int b = buffer.second[buffer.first++];
+        int b = static_cast<unsigned char>(buffer.second[buffer.first++]);
         _pop_if_used();
         return b;
     }
-- 
2.43.0


From c27d03a95149e5e140e9a129ddc9d73617ebe125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:46 +0000
Subject: [PATCH 20/70] fix: lost wake-ups and socket use after close in
 TCPClientStream

---
 client_utils/tcp_client_stream.cpp | 55 ++++++++++++++++++------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index 34cf8bc..0e627ba 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -25,6 +25,15 @@ static int close_socket(int sock_fd)
 #endif
 }
 
+static int shutdown_socket(int sock_fd)
+{
+#ifdef _WIN32
+    return shutdown(sock_fd, SD_BOTH);
+#else
+    return shutdown(sock_fd, SHUT_RDWR);
+#endif
+}
+
 TCPClientStream::TCPClientStream(const std::string& ip_address, uint16_t port, bool wait_for_server) :
     _sock_fd(-1),
     _ip_address(ip_address),
@@ -77,6 +86,8 @@ bool TCPClientStream::start()
     {
         if (connect(_sock_fd, (struct sockaddr*)&serveraddr, sizeof(serveraddr)) < 0)
         {
+            close_socket(_sock_fd);
+            _sock_fd = -1;
             stop();
             return false;
         }
@@ -89,46 +100,46 @@ bool TCPClientStream::start()
 
 void TCPClientStream::stop()
 {
-    if (is_connected())
     {
-        close_socket(_sock_fd);
-        _sock_fd = -1;
+        // Wakes up the receiving thread, which then closes the socket.
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        if (is_connected())
+        {
+            shutdown_socket(_sock_fd);
+        }
     }
 
-#ifdef _WIN32
-    WSACleanup();
-#endif
-
     if (_thread.joinable())
     {
         _thread.join();
     }
+
+#ifdef _WIN32
+    WSACleanup();
+#endif
 }
 
 void TCPClientStream::_run()
 {
     char buf[BUFSIZE];
+    const int sock_fd = _sock_fd;
+    int size;
 
-    while (is_connected())
+    while ((size = recv(sock_fd, buf, BUFSIZE, 0)) > 0)
     {
-        int size = recv(_sock_fd, buf, BUFSIZE, 0);
-        
-        if (size == 0 || size == -1)
         {
-            close_socket(_sock_fd);
-            _sock_fd = -1;
-        }
-        else if (size > 0)
-        {
-            {
-                std::lock_guard<std::mutex> l(_datas_mtx);
-                _datas.push(std::make_pair(0u, std::vector<char>(buf, buf + size)));
-            }
-            _datas_cv.notify_one();
+            std::lock_guard<std::mutex> l(_datas_mtx);
+            _datas.push(std::make_pair(0u, std::vector<char>(buf, buf + size)));
         }
+        _datas_cv.notify_one();
     }
 
-    _datas_cv.notify_one();
+    {
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        _sock_fd = -1;
+    }
+    _datas_cv.notify_all();
+    close_socket(sock_fd);
 }
 
 bool TCPClientStream::is_connected() const
-- 
2.43.0


From 7af37a5731a380f385ad4702df4a920a1990908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:09 +0000
Subject: [PATCH 21/70] fix: restarting a TCPClientStream kept the previous
 connection's data and thread

---
 client_utils/tcp_client_stream.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index 0e627ba..643ce73 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -49,10 +49,9 @@ TCPClientStream::~TCPClientStream()
 
 bool TCPClientStream::start()
 {
-    if (is_connected())
-    {
-        stop();
-    }
+    // also when the peer has closed the connection, the old thread has to be joined, and the old data dropped
+    stop();
+    _datas = decltype(_datas)();
 
 #ifdef _WIN32
     WSAData wsa_data;
-- 
2.43.0


From f38571476b00df614acfb43f5f10175d8e245e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:47 +0000
Subject: [PATCH 22/70] fix: ProtocolReader's running flag was uninitialised
 until start()

---
 parser/include/hawktracer/parser/protocol_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 819b0ec..c69c87a 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -45,7 +45,7 @@ private:
     std::vector<OnNewEventCallback> _on_new_event_callbacks;
     std::unique_ptr<Stream> _stream;
     std::thread _thread;
-    std::atomic_bool _is_running;
+    std::atomic_bool _is_running{false};
     std::condition_variable _cv;
     std::mutex _mtx_cv;
     bool _flat_events;
-- 
2.43.0


From f5bf11e1291f76f640e5dd40318ceef6ece13498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:52 +0000
Subject: [PATCH 23/70] fix: lost wake-up in
 ProtocolReader::wait_for_complete()

---
 parser/protocol_reader.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 4c4a7cd..0fe1cbe 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -105,8 +105,11 @@ void ProtocolReader::_read_events()
         _call_callbacks(event);
     }
 
-    _is_running = false;
-    _cv.notify_one();
+    {
+        std::lock_guard<std::mutex> l(_mtx_cv);
+        _is_running = false;
+    }
+    _cv.notify_all();
 }
 
 void ProtocolReader::_read_event(bool& is_error, Event& event, Event* base_event)
-- 
2.43.0


From 521515a40c4eac7252ae1ccf165a4cdd181750a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:14 +0000
Subject: [PATCH 24/70] fix: ProtocolReader::stop() blocked as long as a
 continuous stream was idle

---
 parser/protocol_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 0fe1cbe..2846928 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -49,6 +49,11 @@ void ProtocolReader::stop()
     _is_running = false;
     if (_thread.joinable())
     {
+        if (_stream->is_continuous())
+        {
+            // the reading thread might be waiting for data that never comes
+            _stream->stop();
+        }
         _thread.join();
     }
     _stream->stop();
-- 
2.43.0


From 0cd1b5d92473671c04e5cbc157d0561a19ae50e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:13 +0000
Subject: [PATCH 25/70] fix: client-connected callback of the TCP listener was
 uninitialised

---
 lib/listeners/tcp_listener.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index a6ce6a3..e2c7108 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -81,6 +81,8 @@ ht_tcp_listener_init(HT_TCPListener* listener, int port, size_t buffer_size)
 
     listener->_last_client_sock_fd = 0;
     listener->_was_flushed = HT_FALSE;
+    listener->_client_connected_callback = NULL;
+    listener->_client_connected_user_data = NULL;
 
     // TODO handle if return null
     listener->_push_action_mutex = ht_mutex_create();
-- 
2.43.0


From b9acd0e08e1703eecdd3fe53898b108a977203aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:20 +0000
Subject: [PATCH 26/70] fix: ht_tcp_listener_stop() released the mutex too
 early and twice, and crashed when called twice

---
 lib/listeners/tcp_listener.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index e2c7108..f915658 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -208,22 +208,26 @@ ht_tcp_listener_callback(TEventPtr events, size_t size, HT_Boolean serialized, v
 void
 ht_tcp_listener_stop(HT_TCPListener* listener)
 {
+    HT_TCPServer* tcp_server;
+
     ht_mutex_lock(listener->_push_action_mutex);
 
-    if (!_ht_tcp_listener_is_stopped(listener))
+    if (_ht_tcp_listener_is_stopped(listener))
     {
         ht_mutex_unlock(listener->_push_action_mutex);
+        return;
     }
 
     ht_tcp_listener_flush(listener);
-    ht_tcp_server_stop(listener->_tcp_server);
     ht_listener_buffer_deinit(&listener->_buffer);
-    ht_tcp_server_destroy(listener->_tcp_server);
+    tcp_server = listener->_tcp_server;
     listener->_tcp_server = NULL;
 
     ht_mutex_unlock(listener->_push_action_mutex);
 
-    ht_mutex_unlock(listener->_push_action_mutex);
+    /* The server waits for its thread, which might be waiting for the mutex */
+    ht_tcp_server_stop(tcp_server);
+    ht_tcp_server_destroy(tcp_server);
 }
 
 #endif /* HT_ENABLE_TCP_LISTENER */
-- 
2.43.0


From 089463423d5f9e847fa872abb92e1a524069c427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:24 +0000
Subject: [PATCH 27/70] fix: a disconnected TCP client killed the traced
 process with SIGPIPE

---
 lib/tcp_server.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 742d457..dde3de5 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -109,6 +109,13 @@ ht_thread_destroy(HT_Thread* th)
 
 #include <string.h>
 
+#ifdef MSG_NOSIGNAL
+/* a client that has gone must not kill the process with SIGPIPE */
+#  define HT_SEND_FLAGS MSG_NOSIGNAL
+#else
+#  define HT_SEND_FLAGS 0
+#endif
+
 static void *_ht_tcp_server_run(void *user_data);
 
 struct _HT_TCPServer
@@ -268,7 +275,7 @@ ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, s
 
     while (sent < size)
     {
-        int n = send(sock_fd, buffer + sent, size - sent, 0);
+        int n = send(sock_fd, buffer + sent, size - sent, HT_SEND_FLAGS);
 
         if (n <= 0)
         {
-- 
2.43.0


From 530bb7796a61d2f11d91c2b6f59c184776cdf06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:42 +0000
Subject: [PATCH 28/70] fix: TCP server never closed its sockets

---
 lib/tcp_server.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index dde3de5..0231449 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -118,6 +118,16 @@ ht_thread_destroy(HT_Thread* th)
 
 static void *_ht_tcp_server_run(void *user_data);
 
+static void
+_ht_tcp_server_close_socket(int sock_fd)
+{
+#ifdef _WIN32
+    closesocket(sock_fd);
+#else
+    close(sock_fd);
+#endif
+}
+
 struct _HT_TCPServer
 {
     HT_Thread* accept_client_thread;
@@ -216,10 +226,6 @@ ht_tcp_server_stop(HT_TCPServer* server)
         return;
     }
 
-    ht_mutex_lock(server->client_mutex);
-    ht_bag_int_clear(&server->client_sock_fd);
-    ht_mutex_unlock(server->client_mutex);
-
     int prev_sock_fd = server->server_sock_fd;
     server->server_sock_fd = -1;
 #ifdef _WIN32
@@ -235,6 +241,18 @@ ht_tcp_server_stop(HT_TCPServer* server)
         ht_thread_destroy(server->accept_client_thread);
         server->accept_client_thread = NULL;
     }
+
+#ifndef _WIN32
+    close(prev_sock_fd);
+#endif
+
+    ht_mutex_lock(server->client_mutex);
+    for (size_t i = 0; i < ht_bag_size(server->client_sock_fd); i++)
+    {
+        _ht_tcp_server_close_socket(ht_bag_nth(server->client_sock_fd, i));
+    }
+    ht_bag_int_clear(&server->client_sock_fd);
+    ht_mutex_unlock(server->client_mutex);
 }
 
 HT_Boolean
@@ -254,6 +272,7 @@ ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size)
     {
         if (!ht_tcp_server_write_to_socket(server, ht_bag_nth(server->client_sock_fd, i), buffer, size))
         {
+            _ht_tcp_server_close_socket(ht_bag_nth(server->client_sock_fd, i));
             ht_bag_int_remove_nth(&server->client_sock_fd, i);
             i--;
         }
-- 
2.43.0


From 8a71c6c86b91cb42e0948377058a695a6609500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:35 +0000
Subject: [PATCH 29/70] fix: a TCP client could miss events, or get half an
 event, when it connected during a push

---
 lib/include/internal/listeners/tcp_server.h |  5 ++++-
 lib/listeners/tcp_listener.c                | 10 +++++++---
 lib/tcp_server.cpp                          | 13 +++++++++----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/lib/include/internal/listeners/tcp_server.h b/lib/include/internal/listeners/tcp_server.h
index e798f6a..8e83916 100644
--- a/lib/include/internal/listeners/tcp_server.h
+++ b/lib/include/internal/listeners/tcp_server.h
@@ -6,7 +6,8 @@
 HT_DECLS_BEGIN
 
 typedef struct _HT_TCPServer HT_TCPServer;
-typedef void(*OnClientConnected)(int, void*);
+/* The callback must call ht_tcp_server_add_client(), so the client gets the data passed to ht_tcp_server_write() */
+typedef void(*OnClientConnected)(HT_TCPServer*, int, void*);
 
 HT_TCPServer* ht_tcp_server_create(void);
 
@@ -16,6 +17,8 @@ void ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size);
 
 HT_Boolean ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected client_connected_cb, void* user_data);
 
+void ht_tcp_server_add_client(HT_TCPServer* server, int sock_fd);
+
 void ht_tcp_server_stop(HT_TCPServer* server);
 
 HT_Boolean ht_tcp_server_is_running(const HT_TCPServer* server);
diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index f915658..5943f77 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -52,17 +52,21 @@ ht_tcp_listener_metadata_pusher(TEventPtr e, size_t c, HT_Boolean serialized, vo
     assert(serialized);
     (void) serialized;
     HT_TCPListener* listener = (HT_TCPListener*)user_data;
-    ht_mutex_lock(listener->_push_action_mutex);
     ht_tcp_server_write_to_socket(listener->_tcp_server, listener->_last_client_sock_fd, (char*)e, c);
-    ht_mutex_unlock(listener->_push_action_mutex);
 }
 
 static void
-ht_tcp_listener_client_connected(int sock_fd, void* user_data)
+ht_tcp_listener_client_connected(HT_TCPServer* server, int sock_fd, void* user_data)
 {
     HT_TCPListener* listener = (HT_TCPListener*)user_data;
+
+    /* No events must be sent between the metadata and adding the client, nor must
+     * the client be added when an event is partially sent. */
+    ht_mutex_lock(listener->_push_action_mutex);
     listener->_last_client_sock_fd = sock_fd;
     ht_timeline_listener_push_metadata(ht_tcp_listener_metadata_pusher, user_data, HT_TRUE);
+    ht_tcp_server_add_client(server, sock_fd);
+    ht_mutex_unlock(listener->_push_action_mutex);
 
     if (listener->_client_connected_callback)
     {
diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 0231449..0a2bffc 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -255,6 +255,14 @@ ht_tcp_server_stop(HT_TCPServer* server)
     ht_mutex_unlock(server->client_mutex);
 }
 
+void
+ht_tcp_server_add_client(HT_TCPServer* server, int sock_fd)
+{
+    ht_mutex_lock(server->client_mutex);
+    ht_bag_int_add(&server->client_sock_fd, sock_fd);
+    ht_mutex_unlock(server->client_mutex);
+}
+
 HT_Boolean
 ht_tcp_server_is_running(const HT_TCPServer* server)
 {
@@ -324,10 +332,7 @@ _ht_tcp_server_run(void* user_data)
 
         if (client_fd >= 0)
         {
-            server->client_connected_cb(client_fd, server->client_connected_ud);
-            ht_mutex_lock(server->client_mutex);
-            ht_bag_int_add(&server->client_sock_fd, client_fd);
-            ht_mutex_unlock(server->client_mutex);
+            server->client_connected_cb(server, client_fd, server->client_connected_ud);
         }
     }
     return NULL;
-- 
2.43.0


From a0891c922bb8dd30fea6eb99f91fd149333b679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:51 +0000
Subject: [PATCH 30/70] fix: handle memory exhaustion in the TCP listener

---
 lib/listeners/tcp_listener.c | 22 +++++++++++++++++++---
 lib/tcp_server.cpp           | 34 +++++++++++++++++++++++++++++++---
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index 5943f77..069eecf 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -88,16 +88,32 @@ ht_tcp_listener_init(HT_TCPListener* listener, int port, size_t buffer_size)
     listener->_client_connected_callback = NULL;
     listener->_client_connected_user_data = NULL;
 
-    // TODO handle if return null
+    error_code = HT_ERR_OUT_OF_MEMORY;
+
     listener->_push_action_mutex = ht_mutex_create();
+    if (listener->_push_action_mutex == NULL)
+    {
+        goto error_create_mutex;
+    }
+
     listener->_tcp_server = ht_tcp_server_create();
+    if (listener->_tcp_server == NULL)
+    {
+        goto error_create_server;
+    }
 
     if (ht_tcp_server_start(listener->_tcp_server, port, ht_tcp_listener_client_connected, listener))
     {
         return HT_ERR_OK;
     }
 
-    return HT_ERR_CANT_START_TCP_SERVER;
+    error_code = HT_ERR_CANT_START_TCP_SERVER;
+    ht_tcp_server_destroy(listener->_tcp_server);
+error_create_server:
+    ht_mutex_destroy(listener->_push_action_mutex);
+error_create_mutex:
+    ht_listener_buffer_deinit(&listener->_buffer);
+    return error_code;
 }
 
 static void
@@ -147,7 +163,7 @@ ht_tcp_listener_create(int port, size_t buffer_size, HT_ErrorCode* out_err)
     HT_ErrorCode error_code = ht_tcp_listener_init(listener, port, buffer_size);
     if (error_code != HT_ERR_OK)
     {
-        ht_tcp_listener_destroy(listener);
+        ht_free(listener);
         listener = NULL;
     }
 
diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 0a2bffc..2ea23f9 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -56,6 +56,10 @@ static HT_Thread*
 ht_thread_create(ht_thread_callback_t callback, void* user_data)
 {
     HT_Thread* th = HT_CREATE_TYPE(HT_Thread);
+    if (th == NULL)
+    {
+        return NULL;
+    }
 
 #ifdef HT_THREAD_IMPL_CPP11
     new(&th->th) HT_Thread();
@@ -143,10 +147,26 @@ HT_TCPServer*
 ht_tcp_server_create(void)
 {
     HT_TCPServer* server = HT_CREATE_TYPE(HT_TCPServer);
+    if (server == NULL)
+    {
+        return NULL;
+    }
+
+    if (ht_bag_int_init(&server->client_sock_fd, 8) != HT_ERR_OK)
+    {
+        ht_free(server);
+        return NULL;
+    }
 
-    ht_bag_int_init(&server->client_sock_fd, 8);
-    server->accept_client_thread = NULL;
     server->client_mutex = ht_mutex_create();
+    if (server->client_mutex == NULL)
+    {
+        ht_bag_int_deinit(&server->client_sock_fd);
+        ht_free(server);
+        return NULL;
+    }
+
+    server->accept_client_thread = NULL;
     server->server_sock_fd = -1;
     server->client_connected_cb = NULL;
     server->client_connected_ud = NULL;
@@ -214,6 +234,11 @@ ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected client_con
     server->client_connected_cb = client_connected_cb;
     server->client_connected_ud = user_data;
     server->accept_client_thread = ht_thread_create(_ht_tcp_server_run, server);
+    if (server->accept_client_thread == NULL)
+    {
+        ht_tcp_server_stop(server);
+        return HT_FALSE;
+    }
 
     return HT_TRUE;
 }
@@ -259,7 +284,10 @@ void
 ht_tcp_server_add_client(HT_TCPServer* server, int sock_fd)
 {
     ht_mutex_lock(server->client_mutex);
-    ht_bag_int_add(&server->client_sock_fd, sock_fd);
+    if (ht_bag_int_add(&server->client_sock_fd, sock_fd) != HT_ERR_OK)
+    {
+        _ht_tcp_server_close_socket(sock_fd);
+    }
     ht_mutex_unlock(server->client_mutex);
 }
 
-- 
2.43.0


From f86007d58ecee7d2eb9fd1f2a4e233b8b25fb65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:50 +0000
Subject: [PATCH 31/70] fix: a null string field made the event undecodable

---
 lib/include/hawktracer/event_macros.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/include/hawktracer/event_macros.h b/lib/include/hawktracer/event_macros.h
index 4c3618b..55cea4a 100644
--- a/lib/include/hawktracer/event_macros.h
+++ b/lib/include/hawktracer/event_macros.h
@@ -16,7 +16,7 @@
 #define HT_EVENT_RUNTIME_SIZEOF_INTEGER(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
 #define HT_EVENT_RUNTIME_SIZEOF_POINTER(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
 #define HT_EVENT_RUNTIME_SIZEOF_DOUBLE(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
-#define HT_EVENT_RUNTIME_SIZEOF_STRING(VAR_NAME, FIELD, C_TYPE) (VAR_NAME->FIELD ? strlen(VAR_NAME->FIELD) + 1 : 0)
+#define HT_EVENT_RUNTIME_SIZEOF_STRING(VAR_NAME, FIELD, C_TYPE) ((VAR_NAME->FIELD ? strlen(VAR_NAME->FIELD) : 0) + 1)
 #define HT_EVENT_RUNTIME_SIZEOF__(VAR_NAME, DATA_TYPE, C_TYPE, FIELD, ...) +HT_EVENT_RUNTIME_SIZEOF_##DATA_TYPE(VAR_NAME, FIELD, C_TYPE)
 #define HT_EVENT_RUNTIME_SIZEOF_(...) MKCREFLECT_EXPAND_(HT_EVENT_RUNTIME_SIZEOF__(__VA_ARGS__, 0))
 #define HT_EVENT_RUNTIME_SIZEOF(X, USER_DATA) HT_EVENT_RUNTIME_SIZEOF_(USER_DATA, MKCREFLECT_EXPAND_VA_ X)
@@ -28,8 +28,10 @@
 #define HT_EVENT_RUNTIME_SERIALIZE_POINTER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_DOUBLE(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_STRING(C_TYPE, FIELD) do {\
-    size_t len = (VAR_NAME->FIELD) ? strlen(VAR_NAME->FIELD) + 1 : 0; \
-    memcpy(buffer + offset, VAR_NAME->FIELD, len); \
+    /* a missing string is an empty one, the reader always expects the terminator */ \
+    const char* str = (VAR_NAME->FIELD) ? (VAR_NAME->FIELD) : ""; \
+    size_t len = strlen(str) + 1; \
+    memcpy(buffer + offset, str, len); \
     offset += len; \
 } while (0);
 #define HT_EVENT_RUNTIME_SERIALIZE__(DATA_TYPE, C_TYPE, FIELD, ...) HT_EVENT_RUNTIME_SERIALIZE_##DATA_TYPE(C_TYPE, FIELD)
-- 
2.43.0


From 88030915c780470853723c509d99324c0b1b4268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:11 +0000
Subject: [PATCH 32/70] fix: FileStream took a failed read for a successful one

---
 parser/file_stream.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/file_stream.cpp b/parser/file_stream.cpp
index dc610e6..b8cdeb0 100644
--- a/parser/file_stream.cpp
+++ b/parser/file_stream.cpp
@@ -30,8 +30,7 @@ void FileStream::stop()
 
 bool FileStream::read_data(char* buff, size_t size)
 {
-    fread(buff, 1, size, _file);
-    return !feof(_file);
+    return fread(buff, 1, size, _file) == size;
 }
 
 int FileStream::read_byte()
-- 
2.43.0


From b1b96b6fc10e85a08cefbe50b2ff040e72363097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:25 +0000
Subject: [PATCH 33/70] fix: an event of an unknown class crashed the reader

---
 parser/protocol_reader.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 2846928..0a86238 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -86,7 +86,14 @@ void ProtocolReader::_read_events()
             continue;
         }
 
-        Event event(_klass_register->get_klass(base_event.get_value<uint32_t>("klass_id")));
+        auto klass = _klass_register->get_klass(klass_id);
+        if (!klass)
+        {
+            // the stream is damaged, there's no way to tell where the next event starts
+            break;
+        }
+
+        Event event(std::move(klass));
         if (_flat_events)
         {
             _read_event(is_error, event, nullptr);
@@ -233,7 +240,12 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
     else
     {
         bool is_error;
-        Event sub_event(_klass_register->get_klass(_klass_register->get_klass_id(field.get_type_name())));
+        auto klass = _klass_register->get_klass(field.get_type_name());
+        if (!klass)
+        {
+            return false;
+        }
+        Event sub_event(std::move(klass));
         _read_event(is_error, sub_event, base_event);
         if (_flat_events)
         {
-- 
2.43.0


From 894536dfcd1a6210145006e7e24b6234b6fb9800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:52 +0000
Subject: [PATCH 34/70] fix: an invalid class description terminated the
 process that reads the trace

---
 parser/event_klass.cpp                             |  2 +-
 .../include/hawktracer/parser/protocol_reader.hpp  |  1 +
 parser/protocol_reader.cpp                         | 14 ++++++++++++--
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/parser/event_klass.cpp b/parser/event_klass.cpp
index 3e39284..7f1deef 100644
--- a/parser/event_klass.cpp
+++ b/parser/event_klass.cpp
@@ -81,7 +81,7 @@ FieldTypeId get_type_id(uint64_t type_size, HT_MKCREFLECT_Types_Ext data_type)
         break;
     case HT_MKCREFLECT_TYPES_EXT_STRUCT:
         return FieldTypeId::STRUCT;
-    default: assert(0); // TODO other types
+    default: // TODO other types
         throw std::runtime_error("invalid type id");
     }
 }
diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index c69c87a..417d605 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -49,6 +49,7 @@ private:
     std::condition_variable _cv;
     std::mutex _mtx_cv;
     bool _flat_events;
+    bool _is_klass_info_valid = true;
     HT_Endianness _endianness = HT_ENDIANNESS_LITTLE;
 };
 
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 0a86238..4e635b9 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -6,6 +6,7 @@
 #include <cassert>
 #include <cstring>
 #include <cstdlib>
+#include <exception>
 
 namespace HawkTracer
 {
@@ -18,7 +19,15 @@ ProtocolReader::ProtocolReader(KlassRegister* klass_register, std::unique_ptr<St
     _flat_events(flat_events)
 {
     register_events_listener([this] (const Event& event) {
-        _klass_register->handle_register_events(event);
+        try
+        {
+            _klass_register->handle_register_events(event);
+        }
+        catch (const std::exception&)
+        {
+            // the stream describes a klass in a way that can't be understood
+            _is_klass_info_valid = false;
+        }
     });
 }
 
@@ -37,6 +46,7 @@ bool ProtocolReader::start()
     if (_stream->start())
     {
         _is_running = true;
+        _is_klass_info_valid = true;
         _thread = std::thread([this] { _read_events(); });
         return true;
     }
@@ -67,7 +77,7 @@ void ProtocolReader::wait_for_complete()
 
 void ProtocolReader::_read_events()
 {
-    while (_is_running)
+    while (_is_running && _is_klass_info_valid)
     {
         bool is_error = false;
         Event base_event(_klass_register->get_klass(to_underlying(WellKnownKlasses::EventKlass)));
-- 
2.43.0


From 5cde5abec2ba8e156dd276ab6c24e345d4ff19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:27 +0000
Subject: [PATCH 35/70] fix: a class that contains itself overflowed the
 reader's stack

---
 parser/include/hawktracer/parser/protocol_reader.hpp | 2 ++
 parser/protocol_reader.cpp                           | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 417d605..7aec326 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -50,6 +50,8 @@ private:
     std::mutex _mtx_cv;
     bool _flat_events;
     bool _is_klass_info_valid = true;
+    static const size_t _max_struct_depth = 256;
+    size_t _struct_depth = 0;
     HT_Endianness _endianness = HT_ENDIANNESS_LITTLE;
 };
 
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 4e635b9..96257a2 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -255,8 +255,15 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
         {
             return false;
         }
+        if (_struct_depth == _max_struct_depth)
+        {
+            // the klass contains itself, the stream must be damaged
+            return false;
+        }
         Event sub_event(std::move(klass));
+        ++_struct_depth;
         _read_event(is_error, sub_event, base_event);
+        --_struct_depth;
         if (_flat_events)
         {
             event->merge(std::move(sub_event));
-- 
2.43.0


From 8dac0ef05d883e4ca7bc37c42716422fa5c71909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:42 +0000
Subject: [PATCH 36/70] fix: labels and strings were written to Chrome traces
 without escaping

---
 client/chrome_trace_converter.cpp | 32 ++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/client/chrome_trace_converter.cpp b/client/chrome_trace_converter.cpp
index e5cfb9d..fcf897b 100644
--- a/client/chrome_trace_converter.cpp
+++ b/client/chrome_trace_converter.cpp
@@ -7,6 +7,32 @@ static uint64_t ns_to_ms(uint64_t nano_secs)
     return nano_secs / 1000u;
 }
 
+static std::string to_json_string(const std::string& str)
+{
+    static const char hex_digits[] = "0123456789abcdef";
+
+    std::string ret = "\"";
+    for (char c : str)
+    {
+        if (c == '"' || c == '\\')
+        {
+            ret += '\\';
+            ret += c;
+        }
+        else if (static_cast<unsigned char>(c) < 0x20)
+        {
+            ret += "\\u00";
+            ret += hex_digits[c >> 4];
+            ret += hex_digits[c & 0xf];
+        }
+        else
+        {
+            ret += c;
+        }
+    }
+    return ret + "\"";
+}
+
 namespace HawkTracer
 {
 namespace client
@@ -49,8 +75,8 @@ void ChromeTraceConverter::process_event(const parser::Event& event)
 
     // Chrome expects the timestamps/durations to be microseconds
     // so we need to convert from nano to micro
-    _file << "{\"name\": \"" << label
-         << "\", \"ph\": \"X\", \"ts\": " << ns_to_ms(event.get_timestamp())
+    _file << "{\"name\": " << to_json_string(label)
+         << ", \"ph\": \"X\", \"ts\": " << ns_to_ms(event.get_timestamp())
          << ", \"dur\": " << ns_to_ms(event.get_value_or_default<HT_DurationNs>("duration", 0u))
          << ", \"pid\": 0, \"tid\": " << event.get_value_or_default<HT_ThreadId>("thread_id", 0u)
          << ", \"args\": {" << _get_args(event) << "}"
@@ -103,7 +129,7 @@ std::string ChromeTraceConverter::_get_json_value(const parser::Event::Value& va
     {
     MKCREFLECT_FOREACH(PRINT_INT_VALUE, 0, INT_TYPE_LIST)
     case parser::FieldTypeId::STRING:
-        return std::string("\"") + value.value.f_STRING + "\"";
+        return to_json_string(value.value.f_STRING);
     default:
         return "\"unsupported type\"";
     }
-- 
2.43.0


From b6c84bfe4dc6418e7a598111300e712399303a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:21 +0000
Subject: [PATCH 37/70] fix: converters resolve labels and names of every
 integer type

---
 client/converter.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/client/converter.cpp b/client/converter.cpp
index 0013daa..00f4be5 100644
--- a/client/converter.cpp
+++ b/client/converter.cpp
@@ -45,10 +45,18 @@ void Converter::_try_setting_mapping_klass_id(const parser::Event& event)
 
 std::string Converter::_convert_value_to_string(const parser::Event::Value& value)
 {
+#define GET_UNSIGNED_LABEL(TYPE, _UNUSED) \
+    case parser::FieldTypeId::TYPE: return _tracepoint_map->get_label_info(value.value.f_##TYPE).label;
+#define GET_SIGNED_LABEL(TYPE, _UNUSED) \
+    case parser::FieldTypeId::TYPE: return value.value.f_##TYPE < 0 ? \
+        std::to_string(value.value.f_##TYPE) : _tracepoint_map->get_label_info(value.value.f_##TYPE).label;
+#define UNSIGNED_TYPE_LIST UINT8, UINT16, UINT32, UINT64
+#define SIGNED_TYPE_LIST INT8, INT16, INT32, INT64
+
     switch (value.field->get_type_id())
     {
-    case parser::FieldTypeId::UINT64:
-        return _tracepoint_map->get_label_info(value.value.f_UINT64).label;
+    MKCREFLECT_FOREACH(GET_UNSIGNED_LABEL, 0, UNSIGNED_TYPE_LIST)
+    MKCREFLECT_FOREACH(GET_SIGNED_LABEL, 0, SIGNED_TYPE_LIST)
     case parser::FieldTypeId::STRING:
         return value.value.f_STRING;
     default:
@@ -74,7 +82,7 @@ std::string Converter::_get_label(const parser::Event& event)
     }
     else if (event.has_value("name"))
     {
-        label = event.get_value<char*>("name");
+        label = _convert_value_to_string(event.get_raw_value("name"));
     }
     return label;
 }
-- 
2.43.0


From d3ac91f81cf8fa7bc6aba1ada5090e99f2f0a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:58 +0000
Subject: [PATCH 38/70] fix: callgrind converter took callees for callers when
 they start together

---
 client/call_graph.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/call_graph.cpp b/client/call_graph.cpp
index 2dcc827..bd57c67 100644
--- a/client/call_graph.cpp
+++ b/client/call_graph.cpp
@@ -10,9 +10,12 @@ namespace client
 std::vector<std::pair<std::shared_ptr<CallGraph::TreeNode>, int>> 
     CallGraph::make(std::vector<NodeData>& events)
 {
-    std::sort(events.begin(), events.end(), 
+    // a caller has to come before its callees, also when they start at the same time;
+    // an event is reported when it ends, so of two equal ones the caller is the one reported last
+    std::reverse(events.begin(), events.end());
+    std::stable_sort(events.begin(), events.end(),
             [](const NodeData& e1, const NodeData& e2){
-                return e1.start_ts < e2.start_ts;
+                return e1.start_ts != e2.start_ts ? e1.start_ts < e2.start_ts : e1.stop_ts > e2.stop_ts;
             });
     for (const auto& event : events)
     {
-- 
2.43.0


From f6e6664e424772a3412344fccf6574bb0d6aa86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 39/70] fix: report negative integers to Python with their sign

---
 bindings/python3/client_context.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index e0e8c84..1dc6236 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -8,9 +8,9 @@ namespace Python
 
 static PyObject* event_to_dictionary(const parser::Event& event)
 {
-#define CREATE_INT_TYPE(HAWKTRACER_TYPE, C_TYPE) \
+#define CREATE_INT_TYPE(HAWKTRACER_TYPE, PY_FUNCTION) \
     case parser::FieldTypeId::HAWKTRACER_TYPE: \
-    val = PyLong_FromUnsignedLongLong((C_TYPE)p.second.value.f_##HAWKTRACER_TYPE); \
+    val = PY_FUNCTION(p.second.value.f_##HAWKTRACER_TYPE); \
     break;
 
     PyObject* dict = PyDict_New();
@@ -20,8 +20,9 @@ static PyObject* event_to_dictionary(const parser::Event& event)
         PyObject* val = nullptr;
         switch (p.second.field->get_type_id())
         {
-        MKCREFLECT_FOREACH(CREATE_INT_TYPE, uint64_t, UINT8, UINT16, UINT32, UINT64, POINTER)
-        MKCREFLECT_FOREACH(CREATE_INT_TYPE, int64_t, INT8, INT16, INT32, INT64)
+        MKCREFLECT_FOREACH(CREATE_INT_TYPE, PyLong_FromUnsignedLongLong, UINT8, UINT16, UINT32, UINT64)
+        MKCREFLECT_FOREACH(CREATE_INT_TYPE, PyLong_FromVoidPtr, POINTER)
+        MKCREFLECT_FOREACH(CREATE_INT_TYPE, PyLong_FromLongLong, INT8, INT16, INT32, INT64)
 #undef CREATE_INT_TYPE
         case parser::FieldTypeId::STRING:
             val = PyUnicode_FromString(p.second.value.f_STRING);
-- 
2.43.0


From 6570e1e64d03e7896e04a242ef1c7192d3e96237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 40/70] fix: do not leak the values of every event in the
 Python client

---
 bindings/python3/client_context.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 1dc6236..f3253cb 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -36,7 +36,8 @@ static PyObject* event_to_dictionary(const parser::Event& event)
             continue;
         }
 
-        PyDict_SetItem(dict, PyUnicode_FromString(p.first.c_str()), val);
+        PyDict_SetItemString(dict, p.first.c_str(), val);
+        Py_DECREF(val);
     }
 
     return dict;
@@ -82,12 +83,12 @@ PyObject* Context::poll_event()
     parser::Event evt = _events.front();
     PyObject* py_event = event_to_dictionary(evt);
     _events.pop();
-    return Py_BuildValue("sO", evt.get_klass()->get_name().c_str(), py_event);
+    return Py_BuildValue("sN", evt.get_klass()->get_name().c_str(), py_event);
 }
 
 void Context::_trigger_callback(const parser::Event& event)
 {
-    PyObject* arglist = Py_BuildValue("(sO)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
+    PyObject* arglist = Py_BuildValue("(sN)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyGILState_STATE gstate = PyGILState_Ensure();
 
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
-- 
2.43.0


From 4e49565a83ae7c2f4ee40ecaf9cf0fbbd4c7e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:29 +0000
Subject: [PATCH 41/70] fix: accept texts that are not UTF-8 in the Python
 client

---
 bindings/python3/client_context.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index f3253cb..4d412f8 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -1,6 +1,8 @@
 #include "client_context.hpp"
 #include "hawktracer/parser/event.hpp"
 
+#include <cstring>
+
 namespace HawkTracer
 {
 namespace Python
@@ -25,7 +27,7 @@ static PyObject* event_to_dictionary(const parser::Event& event)
         MKCREFLECT_FOREACH(CREATE_INT_TYPE, PyLong_FromLongLong, INT8, INT16, INT32, INT64)
 #undef CREATE_INT_TYPE
         case parser::FieldTypeId::STRING:
-            val = PyUnicode_FromString(p.second.value.f_STRING);
+            val = PyUnicode_DecodeUTF8(p.second.value.f_STRING, strlen(p.second.value.f_STRING), "replace");
             break;
         default:
             break;
-- 
2.43.0


From 26083d3b7cfe65e31ba4fa707b5e9f150035c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:37 +0000
Subject: [PATCH 42/70] fix: hold the interpreter lock when the Python client
 builds callback arguments

---
 bindings/python3/client_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 4d412f8..5d91ed9 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -90,9 +90,9 @@ PyObject* Context::poll_event()
 
 void Context::_trigger_callback(const parser::Event& event)
 {
-    PyObject* arglist = Py_BuildValue("(sN)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyGILState_STATE gstate = PyGILState_Ensure();
 
+    PyObject* arglist = Py_BuildValue("(sN)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
     Py_DECREF(arglist);
 
-- 
2.43.0


From ebe9211aa309f59f6de16839c46dd9bfba40e638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:15 +0000
Subject: [PATCH 43/70] fix: do not crash when a Python client is used before
 it is started

---
 bindings/python3/hawktracer_client_python.cpp | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index f72eb00..364c367 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -66,9 +66,26 @@ client_start(HT_Python_Client* self, PyObject* args)
     Py_RETURN_NONE;
 }
 
+static bool
+client_check_started(HT_Python_Client* self)
+{
+    if (!self->context)
+    {
+        PyErr_SetString(PyExc_RuntimeError, "the client has not been started");
+        return false;
+    }
+
+    return true;
+}
+
 static PyObject *
 client_stop(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
+    if (!client_check_started(self))
+    {
+        return nullptr;
+    }
+
     self->context->stop();
     Py_RETURN_NONE;
 }
@@ -76,12 +93,22 @@ client_stop(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 static PyObject *
 client_poll_event(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
+    if (!client_check_started(self))
+    {
+        return nullptr;
+    }
+
     return self->context->poll_event();
 }
 
 static PyObject *
 client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
+    if (!client_check_started(self))
+    {
+        return nullptr;
+    }
+
     Py_BEGIN_ALLOW_THREADS
 
     self->context->wait_for_complete();
@@ -93,6 +120,11 @@ client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 static PyObject *
 client_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
+    if (!client_check_started(self))
+    {
+        return nullptr;
+    }
+
     return PyBool_FromLong(self->context->eos());
 }
 
-- 
2.43.0


From 63a21197e30aedb95af12a57e879e2e78fa08aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:27 +0000
Subject: [PATCH 44/70] fix: let callbacks of a Python client finish when it is
 stopped or destroyed

---
 bindings/python3/client_context.cpp           | 18 ++++++++++++------
 bindings/python3/client_context.hpp           |  2 +-
 bindings/python3/hawktracer_client_python.cpp |  5 ++++-
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 5d91ed9..159acd1 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -67,12 +67,18 @@ Context::Context(std::unique_ptr<parser::Stream> stream, PyObject* on_new_event)
 }
 
 Context::~Context()
- {
-     if (_on_new_event)
-     {
-         Py_DECREF(_on_new_event);
-     }
- }
+{
+    stop();
+    Py_XDECREF(_on_new_event);
+}
+
+void Context::stop()
+{
+    // the reading thread might be waiting for the interpreter lock in order to call the callback
+    Py_BEGIN_ALLOW_THREADS
+    _reader.stop();
+    Py_END_ALLOW_THREADS
+}
 
 PyObject* Context::poll_event()
 {
diff --git a/bindings/python3/client_context.hpp b/bindings/python3/client_context.hpp
index d823caf..a259e6c 100644
--- a/bindings/python3/client_context.hpp
+++ b/bindings/python3/client_context.hpp
@@ -22,7 +22,7 @@ public:
     ~Context();
 
     void start() { _reader.start(); }
-    void stop() { _reader.stop(); }
+    void stop();
     PyObject* poll_event();
     bool eos() { return _reader.eos(); }
     void wait_for_complete() { _reader.wait_for_complete(); }
diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index 364c367..8c4f8de 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -58,7 +58,10 @@ client_start(HT_Python_Client* self, PyObject* args)
 
     if (self->context)
     {
-        delete self->context;
+        // callbacks might still be called until the context is gone
+        Context* old_context = self->context;
+        self->context = nullptr;
+        delete old_context;
     }
 
     self->context = new Context(std::move(stream), callback_obj);
-- 
2.43.0


From ab685c984731fc511c0ff274a92b59f2f415b7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:23 +0000
Subject: [PATCH 45/70] fix: release unread events of a Python client before
 the klasses they refer to

---
 bindings/python3/client_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python3/client_context.hpp b/bindings/python3/client_context.hpp
index a259e6c..c0af9e7 100644
--- a/bindings/python3/client_context.hpp
+++ b/bindings/python3/client_context.hpp
@@ -31,8 +31,8 @@ private:
     void _trigger_callback(const parser::Event& event);
 
     std::mutex _events_mtx;
-    std::queue<parser::Event> _events;
     parser::KlassRegister _klass_register;
+    std::queue<parser::Event> _events; // events refer to the klasses, so they must be gone first
     parser::ProtocolReader _reader;
     PyObject* _on_new_event = nullptr;
 };
-- 
2.43.0


From 0ea6643bc9a09b08d47e763fb8081dde45b0bc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 46/70] fix: pass keyword arguments to traced Python functions

---
 bindings/python3/hawktracer_core_python.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 36ced90..547ef93 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -9,9 +9,9 @@ static HT_Boolean is_initialized = HT_FALSE;
 static PyObject* tracepoint_map = NULL;
 
 static PyObject*
-ht_python_core_trace_function(PyObject* function, PyObject *args);
+ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject *kwargs);
 
-static PyMethodDef ht_python_core_trace_function_md = {"trace_function", ht_python_core_trace_function, METH_VARARGS, ""};
+static PyMethodDef ht_python_core_trace_function_md = {"trace_function", (PyCFunction)(void(*)(void))ht_python_core_trace_function, METH_VARARGS | METH_KEYWORDS, ""};
 
 static uintptr_t
 ht_python_core_get_label_address(PyObject* function_name_attr)
@@ -35,7 +35,7 @@ ht_python_core_get_label_address(PyObject* function_name_attr)
 }
 
 static PyObject*
-ht_python_core_trace_function(PyObject* function, PyObject *args)
+ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject *kwargs)
 {
     uintptr_t address = 0;
 
@@ -56,7 +56,7 @@ ht_python_core_trace_function(PyObject* function, PyObject *args)
         }
     }
 
-    PyObject* ret = PyEval_CallObject(function, args);
+    PyObject* ret = PyObject_Call(function, args, kwargs);
 
     if (address)
     {
-- 
2.43.0


From 2f275496a3c16e3fa4f1f7d9b8c9eefe06fefca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:40 +0000
Subject: [PATCH 47/70] fix: trace Python callables whose name is missing or
 can not be encoded

---
 bindings/python3/hawktracer_core_python.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 547ef93..48d2b3d 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -22,7 +22,7 @@ ht_python_core_get_label_address(PyObject* function_name_attr)
         Then we can simply push all the mapping to a listener if it's registered too late. */
         uintptr_t address = (uintptr_t)function_name_attr;
         PyDict_SetItem(tracepoint_map, function_name_attr, PyLong_FromSize_t(address));
-        PyObject* function_name = PyUnicode_AsEncodedString(function_name_attr, "UTF-8", "strict");
+        PyObject* function_name = PyUnicode_AsEncodedString(function_name_attr, "UTF-8", "backslashreplace");
         HT_TIMELINE_PUSH_EVENT(ht_global_timeline_get(), HT_StringMappingEvent, address, PyBytes_AsString(function_name));
         Py_DECREF(function_name);
 
@@ -48,12 +48,17 @@ ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject *kwar
     {
         PyObject* function_name_attr = PyObject_GetAttrString(function, "__name__");
 
-        if (function_name_attr)
+        if (!function_name_attr)
+        {
+            /* not every callable has a name, but every one can be called */
+            PyErr_Clear();
+        }
+        else if (PyUnicode_CheckExact(function_name_attr))
         {
             address = ht_python_core_get_label_address(function_name_attr);
             ht_feature_callstack_start_int(ht_global_timeline_get(), address);
-            Py_DECREF(function_name_attr);
         }
+        Py_XDECREF(function_name_attr);
     }
 
     PyObject* ret = PyObject_Call(function, args, kwargs);
-- 
2.43.0


From 3817e33291aa8ef0ab43587a1297a0ea3e13e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 48/70] fix: do not crash when Python tracing is enabled before
 the library is initialised

---
 bindings/python3/hawktracer_core_python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 48d2b3d..f9c70e9 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -44,7 +44,7 @@ ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject *kwar
         Py_RETURN_NONE;
     }
 
-    if (tracing_enabled)
+    if (tracing_enabled && ht_is_initialized())
     {
         PyObject* function_name_attr = PyObject_GetAttrString(function, "__name__");
 
-- 
2.43.0


From 3410420ea520f120305a47b26e1ff2413fbb6d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 49/70] fix: bind traced Python methods to their object

---
 bindings/python3/hawktracer_core_python.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index f9c70e9..8791003 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -83,7 +83,16 @@ ht_python_core_trace(PyObject* Py_UNUSED(self), PyObject* args)
 
     if (trace_method)
     {
-        return PyCFunction_New(trace_method, traced_function);
+        PyObject* function = PyCFunction_New(trace_method, traced_function);
+        if (!function)
+        {
+            return NULL;
+        }
+
+        /* unlike a built-in function, an instance method is bound to the object when it's defined in a class */
+        PyObject* method = PyInstanceMethod_New(function);
+        Py_DECREF(function);
+        return method;
     }
     else
     {
-- 
2.43.0


From 28ba61ba171a27ef7126dd7970b240aa5a0778eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 50/70] fix: write the events of a Python program when it ends

---
 bindings/python3/hawktracer_core_python.cpp | 28 +++++++++------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 8791003..d29dd14 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -136,25 +136,19 @@ ht_python_core_disable_tracing(PyObject* Py_UNUSED(self), PyObject* Py_UNUSED(ig
     Py_RETURN_NONE;
 }
 
-static int
-ht_python_core_clear_module(PyObject* m)
+static void
+ht_python_core_deinit(void)
 {
-    if (is_initialized)
-    {
-        ht_timeline_flush(ht_global_timeline_get());
-
-        if (file_listener)
-        {
-            ht_file_dump_listener_stop(file_listener);
-        }
+    ht_timeline_flush(ht_global_timeline_get());
 
-        ht_deinit();
+    if (file_listener)
+    {
+        ht_file_dump_listener_stop(file_listener);
+        file_listener = NULL;
     }
 
-    Py_DECREF(tracepoint_map);
-
-    Py_CLEAR(m);
-    return 0;
+    ht_deinit();
+    is_initialized = HT_FALSE;
 }
 
 static PyObject*
@@ -196,6 +190,8 @@ ht_python_core_init()
     {
         ht_init(0, NULL);
         is_initialized = HT_TRUE;
+        /* the interpreter doesn't clear the module when it exits */
+        Py_AtExit(ht_python_core_deinit);
     }
 
     Py_RETURN_NONE;
@@ -250,7 +246,7 @@ static struct PyModuleDef HawkTracer_Python_Core_module = {
     HawkTracer_methods,
     NULL,
     NULL,
-    ht_python_core_clear_module,
+    NULL,
     NULL
 };
 
-- 
2.43.0


From d562f8e5eaf4325f01abfbf2c6959f3735ee37ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 51/70] fix: report the memory usage of processes with a short
 statm

---
 lib/platform/linux/memory_usage.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/platform/linux/memory_usage.c b/lib/platform/linux/memory_usage.c
index 617c8a9..b7f733d 100644
--- a/lib/platform/linux/memory_usage.c
+++ b/lib/platform/linux/memory_usage.c
@@ -62,11 +62,6 @@ ht_memory_usage_get_usage(HT_MemoryUsageContext* context,
     size_t num = fread(buf, 1, sizeof(buf) - 1, fp);
     fclose(fp);
 
-    if (num < 16)
-    {
-        return HT_ERR_INVALID_FORMAT;
-    }
-
     buf[num] = '\0';
 
     if (sscanf(buf, "%llu %llu %llu", &virt_mem, &resident_mem, &shared_mem) != 3)
-- 
2.43.0


From 11525f9ca4ce1d5e697f1f0f9fce6ebdc5acadd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 52/70] fix: let an event listener stop the reader that calls
 it

---
 parser/include/hawktracer/parser/protocol_reader.hpp |  1 +
 parser/protocol_reader.cpp                           | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 7aec326..faff97a 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -45,6 +45,7 @@ private:
     std::vector<OnNewEventCallback> _on_new_event_callbacks;
     std::unique_ptr<Stream> _stream;
     std::thread _thread;
+    std::atomic<std::thread::id> _reading_thread_id{std::thread::id()};
     std::atomic_bool _is_running{false};
     std::condition_variable _cv;
     std::mutex _mtx_cv;
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 96257a2..4b7266c 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -57,6 +57,12 @@ bool ProtocolReader::start()
 void ProtocolReader::stop()
 {
     _is_running = false;
+    if (_reading_thread_id.load() == std::this_thread::get_id())
+    {
+        // called by a listener; the thread can't wait for itself, it finishes when the listener returns
+        return;
+    }
+
     if (_thread.joinable())
     {
         if (_stream->is_continuous())
@@ -77,6 +83,8 @@ void ProtocolReader::wait_for_complete()
 
 void ProtocolReader::_read_events()
 {
+    _reading_thread_id = std::this_thread::get_id();
+
     while (_is_running && _is_klass_info_valid)
     {
         bool is_error = false;
@@ -127,6 +135,8 @@ void ProtocolReader::_read_events()
         _call_callbacks(event);
     }
 
+    _reading_thread_id = std::thread::id();
+
     {
         std::lock_guard<std::mutex> l(_mtx_cv);
         _is_running = false;
-- 
2.43.0


From a254b73629e56fe794212286d4f176617b56edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 53/70] fix: let threads and callbacks of a Python program
 share a client

---
 bindings/python3/client_context.cpp           | 13 +++-
 bindings/python3/client_context.hpp           |  4 ++
 bindings/python3/hawktracer_client_python.cpp | 65 +++++++++++++++----
 3 files changed, 69 insertions(+), 13 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 159acd1..830f6a5 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -74,9 +74,18 @@ Context::~Context()
 
 void Context::stop()
 {
+    if (is_in_callback())
+    {
+        _reader.stop();
+        return;
+    }
+
     // the reading thread might be waiting for the interpreter lock in order to call the callback
     Py_BEGIN_ALLOW_THREADS
-    _reader.stop();
+    {
+        std::lock_guard<std::mutex> l(_stop_mtx);
+        _reader.stop();
+    }
     Py_END_ALLOW_THREADS
 }
 
@@ -97,6 +106,7 @@ PyObject* Context::poll_event()
 void Context::_trigger_callback(const parser::Event& event)
 {
     PyGILState_STATE gstate = PyGILState_Ensure();
+    _callback_thread_id = std::this_thread::get_id();
 
     PyObject* arglist = Py_BuildValue("(sN)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
@@ -112,6 +122,7 @@ void Context::_trigger_callback(const parser::Event& event)
         Py_DECREF(result);
     }
 
+    _callback_thread_id = std::thread::id();
     PyGILState_Release(gstate);
 }
 
diff --git a/bindings/python3/client_context.hpp b/bindings/python3/client_context.hpp
index c0af9e7..4ff8ac3 100644
--- a/bindings/python3/client_context.hpp
+++ b/bindings/python3/client_context.hpp
@@ -9,6 +9,7 @@
 
 #include <mutex>
 #include <queue>
+#include <thread>
 
 namespace HawkTracer
 {
@@ -26,11 +27,14 @@ public:
     PyObject* poll_event();
     bool eos() { return _reader.eos(); }
     void wait_for_complete() { _reader.wait_for_complete(); }
+    bool is_in_callback() const { return _callback_thread_id == std::this_thread::get_id(); }
 
 private:
     void _trigger_callback(const parser::Event& event);
 
     std::mutex _events_mtx;
+    std::mutex _stop_mtx;
+    std::thread::id _callback_thread_id; // protected by the interpreter lock
     parser::KlassRegister _klass_register;
     std::queue<parser::Event> _events; // events refer to the klasses, so they must be gone first
     parser::ProtocolReader _reader;
diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index 8c4f8de..d19fa37 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -3,6 +3,10 @@
 #include "client_context.hpp"
 #include <hawktracer/client_utils/stream_factory.hpp>
 
+#include <memory>
+#include <new>
+#include <utility>
+
 namespace HawkTracer
 {
 namespace Python
@@ -13,9 +17,36 @@ using namespace HawkTracer;
 struct HT_Python_Client
 {
     PyObject_HEAD
-    Context* context;
+    // a thread keeps its own reference while it uses the context without the interpreter lock
+    std::shared_ptr<Context> context;
 };
 
+static int
+client_delete_context(void* context)
+{
+    delete reinterpret_cast<std::shared_ptr<Context>*>(context);
+    return 0;
+}
+
+static void
+client_release_context(std::shared_ptr<Context> context)
+{
+    if (!context || !context->is_in_callback())
+    {
+        return;
+    }
+
+    // the reading thread still needs the context when the callback returns, so the main thread has to release it
+    context->stop();
+    auto deferred = new std::shared_ptr<Context>(std::move(context));
+    while (Py_AddPendingCall(client_delete_context, deferred) != 0)
+    {
+        Py_BEGIN_ALLOW_THREADS
+        std::this_thread::yield();
+        Py_END_ALLOW_THREADS
+    }
+}
+
 static PyObject *
 client_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 {
@@ -27,7 +58,7 @@ client_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     auto self = reinterpret_cast<HT_Python_Client*>(type->tp_alloc(type, 0));
     if (self)
     {
-        self->context = nullptr;
+        new (&self->context) std::shared_ptr<Context>();
     }
 
     return reinterpret_cast<PyObject*>(self);
@@ -56,16 +87,16 @@ client_start(HT_Python_Client* self, PyObject* args)
         return nullptr;
     }
 
-    if (self->context)
+    auto context = std::make_shared<Context>(std::move(stream), callback_obj);
+    auto old_context = context;
+    std::swap(self->context, old_context);
+    if (old_context)
     {
-        // callbacks might still be called until the context is gone
-        Context* old_context = self->context;
-        self->context = nullptr;
-        delete old_context;
+        old_context->stop();
+        client_release_context(std::move(old_context));
     }
 
-    self->context = new Context(std::move(stream), callback_obj);
-    self->context->start();
+    context->start();
     Py_RETURN_NONE;
 }
 
@@ -89,7 +120,9 @@ client_stop(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
         return nullptr;
     }
 
-    self->context->stop();
+    auto context = self->context;
+    context->stop();
+    client_release_context(std::move(context));
     Py_RETURN_NONE;
 }
 
@@ -112,9 +145,16 @@ client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
         return nullptr;
     }
 
+    auto context = self->context;
+    if (context->is_in_callback())
+    {
+        PyErr_SetString(PyExc_RuntimeError, "the callback can't wait for the stream that calls it");
+        return nullptr;
+    }
+
     Py_BEGIN_ALLOW_THREADS
 
-    self->context->wait_for_complete();
+    context->wait_for_complete();
 
     Py_END_ALLOW_THREADS
     Py_RETURN_NONE;
@@ -135,7 +175,8 @@ static void
 client_dealloc(PyObject* self)
 {
     auto client = reinterpret_cast<HT_Python_Client*>(self);
-    delete client->context;
+    client_release_context(std::move(client->context));
+    client->context.~shared_ptr();
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
 
-- 
2.43.0


From 1a2ee6af7d82a1b65d1e6111c916f0ad14c289b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:22 +0000
Subject: [PATCH 54/70] fix: write the events of a Python thread when it ends

---
 bindings/python3/hawktracer_core_python.cpp | 38 +++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index d29dd14..510dd5f 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -13,6 +13,43 @@ ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject *kwar
 
 static PyMethodDef ht_python_core_trace_function_md = {"trace_function", (PyCFunction)(void(*)(void))ht_python_core_trace_function, METH_VARARGS | METH_KEYWORDS, ""};
 
+static const char* const ht_python_core_flush_thread_name = "HawkTracer.flush_thread";
+
+static void
+ht_python_core_flush_thread(PyObject* Py_UNUSED(capsule))
+{
+    if (ht_is_initialized())
+    {
+        ht_timeline_flush(ht_global_timeline_get());
+    }
+}
+
+/* The native thread might outlive the Python one, so events of a thread that has been joined wouldn't be written
+   until an unknown point in time, or at all if the program ends first. */
+static void
+ht_python_core_flush_at_thread_end(void)
+{
+    static HT_THREAD_LOCAL HT_Boolean is_registered = HT_FALSE;
+    PyObject* thread_dict;
+    PyObject* capsule;
+
+    if (is_registered)
+    {
+        return;
+    }
+
+    thread_dict = PyThreadState_GetDict();
+    capsule = thread_dict ? PyCapsule_New((void*)&ht_python_core_flush_thread_name, ht_python_core_flush_thread_name, ht_python_core_flush_thread) : NULL;
+
+    if (capsule && PyDict_SetItemString(thread_dict, ht_python_core_flush_thread_name, capsule) == 0)
+    {
+        is_registered = HT_TRUE;
+    }
+
+    Py_XDECREF(capsule);
+    PyErr_Clear();
+}
+
 static uintptr_t
 ht_python_core_get_label_address(PyObject* function_name_attr)
 {
@@ -56,6 +93,7 @@ ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject *kwar
         else if (PyUnicode_CheckExact(function_name_attr))
         {
             address = ht_python_core_get_label_address(function_name_attr);
+            ht_python_core_flush_at_thread_end();
             ht_feature_callstack_start_int(ht_global_timeline_get(), address);
         }
         Py_XDECREF(function_name_attr);
-- 
2.43.0


From 6882112525a3eaa1cfbdd9ff52c0edbceaee011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:20 +0000
Subject: [PATCH 55/70] fix: find tracepoint labels of a single character

---
 tools/generate_tracepoint_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/generate_tracepoint_labels.py b/tools/generate_tracepoint_labels.py
index b6aa80f..2e7de7f 100644
--- a/tools/generate_tracepoint_labels.py
+++ b/tools/generate_tracepoint_labels.py
@@ -135,11 +135,11 @@ def run_program(argv):
     languages = [
         LanguageSupport(
             LanguageSupportArgs(parser, 'cpp', 'C/C++', '.*\.(c|cpp|h|hpp)',
-                                '^\s*HT_TP_GLOBAL_SCOPED_INT\s*\(([_A-Za-z][A-Za-z_0-9]+)\)\s*;\s*$'),
+                                '^\s*HT_TP_GLOBAL_SCOPED_INT\s*\(([_A-Za-z][A-Za-z_0-9]*)\)\s*;\s*$'),
             generate_c_cpp_header),
         LanguageSupport(
             LanguageSupportArgs(parser, 'lua', 'LUA', '.*\.lua',
-                                '^\s*--@TracepointStart\s+([_A-Za-z][A-Za-z_0-9]+)\s*$'),
+                                '^\s*--@TracepointStart\s+([_A-Za-z][A-Za-z_0-9]*)\s*$'),
             generate_lua_file)
     ]
 
-- 
2.43.0


From 65c3c06a9fad8e1efe4521c3eed4523821e7a928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:25 +0000
Subject: [PATCH 56/70] fix: read sources that are not valid UTF-8 when
 generating labels

---
 tools/generate_tracepoint_labels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generate_tracepoint_labels.py b/tools/generate_tracepoint_labels.py
index 2e7de7f..5e9957c 100644
--- a/tools/generate_tracepoint_labels.py
+++ b/tools/generate_tracepoint_labels.py
@@ -98,7 +98,7 @@ class LanguageSupport:
 
     @staticmethod
     def _get_matches(file_name, regex):
-        return [regex.match(line) for line in open(file_name) if regex.match(line)]
+        return [regex.match(line) for line in open(file_name, errors='replace') if regex.match(line)]
 
 
 def generate_c_cpp_header(cpp_labels, stream):
-- 
2.43.0


From da31cf7a26c2988a4c162e71e6ee7f6014335606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:32 +0000
Subject: [PATCH 57/70] fix: C sources can use scoped tracepoints of a library
 compiled as C++

---
 lib/include/hawktracer/scoped_tracepoint.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/include/hawktracer/scoped_tracepoint.h b/lib/include/hawktracer/scoped_tracepoint.h
index 45f3834..c83f253 100644
--- a/lib/include/hawktracer/scoped_tracepoint.h
+++ b/lib/include/hawktracer/scoped_tracepoint.h
@@ -3,6 +3,16 @@
 
 #include <hawktracer/feature_callstack.h>
 
+#ifdef __GNUC__
+/* used by C sources, also when the library itself is compiled as C++ */
+HT_DECLS_BEGIN
+void _ht_callstack_timeline_scoped_cleanup(HT_Timeline** timeline);
+HT_Timeline* _ht_callstack_timeline_int_start_and_ret(HT_Timeline* t, HT_CallstackEventLabel l);
+HT_Timeline* _ht_callstack_timeline_string_start_and_ret(HT_Timeline* t, const char* l);
+HT_DECLS_END
+
+#endif /* __GNUC__ */
+
 #if defined (__cplusplus)
 #define HT_SCOPED_TRACEPOINT_MACRO_ENABLED
 
@@ -14,12 +24,6 @@
 #elif defined(__GNUC__)
 #define HT_SCOPED_TRACEPOINT_MACRO_ENABLED
 
-HT_DECLS_BEGIN
-void _ht_callstack_timeline_scoped_cleanup(HT_Timeline** timeline);
-HT_Timeline* _ht_callstack_timeline_int_start_and_ret(HT_Timeline* t, HT_CallstackEventLabel l);
-HT_Timeline* _ht_callstack_timeline_string_start_and_ret(HT_Timeline* t, const char* l);
-HT_DECLS_END
-
 #define HT_TP_SCOPED_GENERIC_(type, c_type, callstack_timeline, label) \
     HT_Timeline* _ht_callstack_timeline __attribute__ ((__cleanup__(_ht_callstack_timeline_scoped_cleanup))) \
         = _ht_callstack_timeline_##type##_start_and_ret(callstack_timeline, label)
-- 
2.43.0


From 15a306c690d62e76909f88e71b6b9ad590ee20ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:39 +0000
Subject: [PATCH 58/70] fix: join the accepting thread of the TCP server only
 once

---
 lib/tcp_server.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 2ea23f9..4e50072 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -262,7 +262,6 @@ ht_tcp_server_stop(HT_TCPServer* server)
 
     if (server->accept_client_thread)
     {
-        ht_thread_join(server->accept_client_thread);
         ht_thread_destroy(server->accept_client_thread);
         server->accept_client_thread = NULL;
     }
-- 
2.43.0


From c4644b9321e300a5a46f9c9662a5c254b4f69cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:23 +0000
Subject: [PATCH 59/70] fix: a task's callback may remove tasks, also its own

---
 lib/task_scheduler.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/task_scheduler.c b/lib/task_scheduler.c
index 3bef93d..7c958c2 100644
--- a/lib/task_scheduler.c
+++ b/lib/task_scheduler.c
@@ -12,6 +12,7 @@ struct _HT_TaskScheduler
 {
     HT_BagVoidPtr tasks;
     HT_TaskId next_task_id;
+    HT_Boolean is_ticking;
 };
 
 typedef struct
@@ -60,6 +61,7 @@ ht_task_scheduler_create(HT_ErrorCode* out_err)
     }
 
     task_scheduler->next_task_id = 0;
+    task_scheduler->is_ticking = HT_FALSE;
 
 done:
     HT_SET_ERROR(out_err, error_code);
@@ -122,18 +124,20 @@ ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
     size_t i;
     HT_Boolean result;
 
+    task_scheduler->is_ticking = HT_TRUE;
+
     for (i = 0; i < task_scheduler->tasks.size; i++)
     {
         HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
         HT_TimestampNs now_ts = ht_monotonic_clock_get_timestamp();
-        if (task->next_action_ts > now_ts)
+        if (task->id != HT_TASK_SCHEDULER_INVALID_TASK_ID && task->next_action_ts > now_ts)
         {
             continue;
         }
 
-        result = task->callback(task->user_data);
+        result = task->id != HT_TASK_SCHEDULER_INVALID_TASK_ID && task->callback(task->user_data);
 
-        if (result == HT_FALSE)
+        if (result == HT_FALSE || task->id == HT_TASK_SCHEDULER_INVALID_TASK_ID)
         {
             ht_bag_void_ptr_remove_nth(&task_scheduler->tasks, i);
             ht_free(task);
@@ -146,6 +150,8 @@ ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
                         ht_monotonic_clock_get_timestamp() + task->period;
         }
     }
+
+    task_scheduler->is_ticking = HT_FALSE;
 }
 
 static void
@@ -176,6 +182,14 @@ ht_task_scheduler_remove_task(HT_TaskScheduler* task_scheduler, HT_TaskId task_i
         HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
         if (task->id == task_id)
         {
+            if (task_scheduler->is_ticking)
+            {
+                /* called by a task, which might be this one; ht_task_scheduler_tick() releases it */
+                task->id = HT_TASK_SCHEDULER_INVALID_TASK_ID;
+                task->period = 0;
+                return HT_TRUE;
+            }
+
             ht_task_scheduler_remove_task_entry(&task_scheduler->tasks, task);
             ht_free(task);
             return HT_TRUE;
-- 
2.43.0


From dfd32b4158de6d1141bd5890f0ccec23a10d41ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 60/70] fix: duration conversions neither overflow 32 bits nor
 split expressions

---
 lib/include/hawktracer/duration_conversion.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/hawktracer/duration_conversion.h b/lib/include/hawktracer/duration_conversion.h
index 7a09e54..679d2ff 100644
--- a/lib/include/hawktracer/duration_conversion.h
+++ b/lib/include/hawktracer/duration_conversion.h
@@ -2,12 +2,12 @@
 #define HAWKTRACER_DURATION_CONVERSION_H
 
 /** Converts @p X value to nanoseconds. */
-#define HT_DUR_NS(X) X
+#define HT_DUR_NS(X) (X)
 /** Converts @p X value to microseconds. */
-#define HT_DUR_US(X) (1000u * X)
+#define HT_DUR_US(X) (1000ull * (X))
 /** Converts @p X value to milliseconds. */
-#define HT_DUR_MS(X) (1000u * HT_DUR_US(X))
+#define HT_DUR_MS(X) (1000ull * HT_DUR_US(X))
 /** Converts @p X value to seconds. */
-#define HT_DUR_S(X) (1000u * HT_DUR_MS(X))
+#define HT_DUR_S(X) (1000ull * HT_DUR_MS(X))
 
 #endif /* HAWKTRACER_DURATION_CONVERSION_H */
-- 
2.43.0


From 9ca5415763ad9365fa1b58457f44301529512dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:27 +0000
Subject: [PATCH 61/70] fix: events leaked replaced, merged and assigned values

---
 parser/event.cpp                           | 67 ++++++++++------------
 parser/include/hawktracer/parser/event.hpp | 10 ++--
 2 files changed, 34 insertions(+), 43 deletions(-)

diff --git a/parser/event.cpp b/parser/event.cpp
index 7e9dd12..85f92f3 100644
--- a/parser/event.cpp
+++ b/parser/event.cpp
@@ -14,13 +14,6 @@ Event::Value::Value(Value&& other) :
     _swap(other);
 }
 
-Event::Value& Event::Value::operator=(Value&& other)
-{
-    _swap(other);
-    other.field = nullptr;
-    return *this;
-}
-
 Event::Value::Value(const Value& other)
 {
     field = other.field;
@@ -64,51 +57,51 @@ Event::Value& Event::Value::operator=(Value other)
     return *this;
 }
 
+Event::Value::~Value()
+{
+    if (!field)
+    {
+        return;
+    }
+
+    switch (field->get_type_id())
+    {
+    case FieldTypeId::STRING:
+        free(value.f_STRING);
+        break;
+    case FieldTypeId::STRUCT:
+        delete value.f_EVENT;
+        break;
+    default:
+        break;
+    }
+}
+
 void Event::Value::_swap(Value& other)
 {
     std::swap(field, other.field);
     std::swap(value, other.value);
 }
 
-Event::~Event()
+Event& Event::operator=(Event other)
 {
-    for (const auto& value : _values)
-    {
-        if (value.second.field == nullptr)
-        {
-            continue;
-        }
-
-        switch (value.second.field->get_type_id())
-        {
-        case FieldTypeId::STRING:
-            free(value.second.value.f_STRING);
-            break;
-        case FieldTypeId::STRUCT:
-            delete value.second.value.f_EVENT;
-            break;
-        default:
-            break;
-        }
-    }
+    std::swap(_klass, other._klass);
+    std::swap(_values, other._values);
+    std::swap(_timestamp, other._timestamp);
+    return *this;
 }
 
 void Event::merge(Event event)
 {
     for (auto& value : event._values)
     {
-        set_value(value.second.field, value.second.value);
-        switch (value.second.field->get_type_id())
+        if (has_value(value.first))
         {
-        case FieldTypeId::STRING:
-            value.second.value.f_STRING = nullptr;
-            break;
-        case FieldTypeId::STRUCT:
-            value.second.value.f_EVENT = nullptr;
-            break;
-        default:
-            break;
+            continue;
         }
+        set_value(value.second.field, value.second.value);
+        // the content belongs to this event now
+        value.second.field = nullptr;
     }
 }
 
diff --git a/parser/include/hawktracer/parser/event.hpp b/parser/include/hawktracer/parser/event.hpp
index c96269c..7e74554 100644
--- a/parser/include/hawktracer/parser/event.hpp
+++ b/parser/include/hawktracer/parser/event.hpp
@@ -22,11 +22,11 @@ public:
         {
         }
         Value(Value&&);
-        Value& operator=(Value&&);
         Value(const Value& other);
         Value& operator=(Value other);
+        ~Value();
 
-        FieldType value;
+        FieldType value = {};
         const EventKlassField* field = nullptr;
     private:
         void _swap(Value& other);
@@ -37,11 +37,9 @@ public:
     {
     }
     Event(const Event& other) = default;
-    Event& operator=(const Event& other) = default;
+    Event& operator=(Event other);
     Event(Event&&) = default;
 
-    ~Event();
-
     void merge(Event event);
 
     template<typename T>
@@ -75,8 +73,8 @@ public:
     void set_value(const EventKlassField* field, T value);
 
 private:
+    std::shared_ptr<const EventKlass> _klass; // must outlive values, they refer to its fields
     std::unordered_map<std::string, Value> _values;
-    std::shared_ptr<const EventKlass> _klass;
     HT_TimestampNs _timestamp = (HT_TimestampNs)-1;
 };
 
-- 
2.43.0


From f2a054e27e29ba05a608a21cea37216305bd91aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:35 +0000
Subject: [PATCH 62/70] fix: a part of an event that could not be read was
 leaked

---
 parser/protocol_reader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 4b7266c..2962d61 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -274,6 +274,10 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
         ++_struct_depth;
         _read_event(is_error, sub_event, base_event);
         --_struct_depth;
+        if (is_error)
+        {
+            return false;
+        }
         if (_flat_events)
         {
             event->merge(std::move(sub_event));
@@ -282,7 +286,7 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
         {
             value.f_EVENT = new Event(std::move(sub_event));
         }
-        return !is_error;
+        return true;
     }
 }
 
-- 
2.43.0


From 8125d101ec8d5a69fafcf4ce659adfbe42867693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:58 +0000
Subject: [PATCH 63/70] fix: values of flat events referred to fields of
 classes that could be gone

---
 parser/event.cpp                           | 4 ++++
 parser/include/hawktracer/parser/event.hpp | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/parser/event.cpp b/parser/event.cpp
index 85f92f3..8944dcb 100644
--- a/parser/event.cpp
+++ b/parser/event.cpp
@@ -86,6 +86,7 @@ void Event::Value::_swap(Value& other)
 Event& Event::operator=(Event other)
 {
     std::swap(_klass, other._klass);
+    std::swap(_merged_klasses, other._merged_klasses);
     std::swap(_values, other._values);
     std::swap(_timestamp, other._timestamp);
     return *this;
@@ -93,6 +94,9 @@ Event& Event::operator=(Event other)
 
 void Event::merge(Event event)
 {
+    _merged_klasses.insert(event._klass);
+    _merged_klasses.insert(event._merged_klasses.begin(), event._merged_klasses.end());
+
     for (auto& value : event._values)
     {
         if (has_value(value.first))
diff --git a/parser/include/hawktracer/parser/event.hpp b/parser/include/hawktracer/parser/event.hpp
index 7e74554..207aef7 100644
--- a/parser/include/hawktracer/parser/event.hpp
+++ b/parser/include/hawktracer/parser/event.hpp
@@ -4,6 +4,7 @@
 #include <hawktracer/parser/event_klass.hpp>
 #include <hawktracer/base_types.h>
 
+#include <set>
 #include <unordered_map>
 
 namespace HawkTracer
@@ -74,6 +75,7 @@ public:
 
 private:
     std::shared_ptr<const EventKlass> _klass; // must outlive values, they refer to its fields
+    std::set<std::shared_ptr<const EventKlass>> _merged_klasses; // same for values of merged events
     std::unordered_map<std::string, Value> _values;
     HT_TimestampNs _timestamp = (HT_TimestampNs)-1;
 };
-- 
2.43.0


From 6dc602b353b892416e5ce1d001cce44a0327d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:05 +0000
Subject: [PATCH 64/70] fix: a TCP listener that got no thread ended the
 process

---
 lib/tcp_server.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 4e50072..f51b2f5 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -28,6 +28,7 @@
 #endif
 
 #ifdef HT_THREAD_IMPL_CPP11
+#  include <system_error>
 #  include <thread>
 #elif defined(HT_THREAD_IMPL_WIN32)
 #  include <windows.h>
@@ -63,9 +64,22 @@ ht_thread_create(ht_thread_callback_t callback, void* user_data)
 
 #ifdef HT_THREAD_IMPL_CPP11
     new(&th->th) HT_Thread();
-    th->th = std::thread(callback, user_data);
+    try
+    {
+        th->th = std::thread(callback, user_data);
+    }
+    catch (const std::system_error&)
+    {
+        th->th.~thread();
+        ht_free(th);
+        return NULL;
+    }
 #elif defined(HT_THREAD_IMPL_POSIX)
-    pthread_create(&th->th, NULL, callback, user_data);
+    if (pthread_create(&th->th, NULL, callback, user_data) != 0)
+    {
+        ht_free(th);
+        return NULL;
+    }
 #elif defined(HT_THREAD_IMPL_WIN32)
     th->th = CreateThread(NULL, 0, callback, user_data, 0, NULL);
 #endif
-- 
2.43.0


From 32667102c0e31a138cbe401d1ef376ccd39cba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:13 +0000
Subject: [PATCH 65/70] fix: a reader or TCP stream that got no thread threw
 and stayed open

---
 client_utils/tcp_client_stream.cpp | 13 ++++++++++++-
 parser/protocol_reader.cpp         | 12 +++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index 643ce73..41f78d0 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -9,6 +9,7 @@
 #include <unistd.h>
 #endif
 #include <cstring>
+#include <system_error>
 
 namespace HawkTracer
 {
@@ -92,7 +93,17 @@ bool TCPClientStream::start()
         }
     }
 
-    _thread = std::thread([this] { _run(); });
+    try
+    {
+        _thread = std::thread([this] { _run(); });
+    }
+    catch (const std::system_error&)
+    {
+        close_socket(_sock_fd);
+        _sock_fd = -1;
+        stop();
+        return false;
+    }
 
     return true;
 }
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 2962d61..01b80fa 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -7,6 +7,7 @@
 #include <cstring>
 #include <cstdlib>
 #include <exception>
+#include <system_error>
 
 namespace HawkTracer
 {
@@ -47,7 +48,16 @@ bool ProtocolReader::start()
     {
         _is_running = true;
         _is_klass_info_valid = true;
-        _thread = std::thread([this] { _read_events(); });
+        try
+        {
+            _thread = std::thread([this] { _read_events(); });
+        }
+        catch (const std::system_error&)
+        {
+            _is_running = false;
+            _stream->stop();
+            return false;
+        }
         return true;
     }
 
-- 
2.43.0


From c0514a646ea438d50bd6c597351387fa7c4b3989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:21 +0000
Subject: [PATCH 66/70] fix: starting a reader or file stream again ended the
 process or leaked the file

---
 parser/file_stream.cpp     |  1 +
 parser/protocol_reader.cpp | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/parser/file_stream.cpp b/parser/file_stream.cpp
index b8cdeb0..e453e8b 100644
--- a/parser/file_stream.cpp
+++ b/parser/file_stream.cpp
@@ -15,6 +15,7 @@ FileStream::~FileStream()
 
 bool FileStream::start()
 {
+    stop();
     _file = fopen(_file_name.c_str(), "rb");
     return _file != nullptr;
 }
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 01b80fa..b3a1c8f 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -44,6 +44,16 @@ void ProtocolReader::register_events_listener(OnNewEventCallback callback)
 
 bool ProtocolReader::start()
 {
+    if (_reading_thread_id.load() == std::this_thread::get_id())
+    {
+        return false;
+    }
+    if (_thread.joinable())
+    {
+        // the thread of the previous run has to be joined, also when it has reached the end of the stream
+        stop();
+    }
+
     if (_stream->start())
     {
         _is_running = true;
-- 
2.43.0


From eeb8391ff502cf26741bb654ee39fe58f7a9ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 67/70] fix: do not follow a struct field whose klass is not
 known when looking a field up recursively

---
 parser/event_klass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/event_klass.cpp b/parser/event_klass.cpp
index 7f1deef..ba35633 100644
--- a/parser/event_klass.cpp
+++ b/parser/event_klass.cpp
@@ -107,7 +107,7 @@ std::shared_ptr<const EventKlassField> EventKlass::_get_field(const char* name,
         {
             return field;
         }
-        else if (field->get_type_id() == FieldTypeId::STRUCT && recursive)
+        else if (field->get_type_id() == FieldTypeId::STRUCT && recursive && field->get_klass())
         {
             auto base_field = field->get_klass()->get_field(name, recursive);
             if (base_field)
-- 
2.43.0


From a2bdfb54ba9a5932c5959a96c3fc530543a8c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:23 +0000
Subject: [PATCH 68/70] fix: refuse a klass definition that makes a klass
 contain itself

---
 parser/klass_register.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/parser/klass_register.cpp b/parser/klass_register.cpp
index c5430a1..3a19d3c 100644
--- a/parser/klass_register.cpp
+++ b/parser/klass_register.cpp
@@ -2,6 +2,8 @@
 #include "hawktracer/parser/event.hpp"
 #include "hawktracer/parser/make_unique.hpp"
 
+#include <stdexcept>
+
 namespace HawkTracer {
 namespace parser {
 
@@ -32,6 +34,23 @@ KlassRegister::KlassRegister()
     _add_klass(std::move(klass_field_info_event));
 }
 
+static bool contains_klass(const EventKlass& klass, HT_EventKlassId klass_id)
+{
+    if (klass.get_id() == klass_id)
+    {
+        return true;
+    }
+    for (const auto& field : klass.get_fields())
+    {
+        auto field_klass = field->get_klass();
+        if (field_klass && contains_klass(*field_klass, klass_id))
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
 bool KlassRegister::is_well_known_klass(HT_EventKlassId klass_id)
 {
     switch ((WellKnownKlasses)klass_id)
@@ -66,6 +85,10 @@ void KlassRegister::handle_register_events(const Event& event)
             if (type == HT_MKCREFLECT_TYPES_EXT_STRUCT)
             {
                 type_klass = get_klass(field_type);
+                if (type_klass && contains_klass(*type_klass, klass_id))
+                {
+                    throw std::runtime_error("klass contains itself");
+                }
             }
 
             auto field = HawkTracer::parser::make_unique<EventKlassField>(
-- 
2.43.0


From a82a95fb85351357a799b119c7c3e111a6af37a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:36 +0000
Subject: [PATCH 69/70] fix: refuse addresses with numbers out of range,
 instead of connecting elsewhere

---
 client_utils/stream_factory.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/client_utils/stream_factory.cpp b/client_utils/stream_factory.cpp
index 86fe6ad..73f1292 100644
--- a/client_utils/stream_factory.cpp
+++ b/client_utils/stream_factory.cpp
@@ -4,8 +4,11 @@
 #include "hawktracer/parser/file_stream.hpp"
 #include "hawktracer/parser/make_unique.hpp"
 
+#include <cstdint>
+#include <cstdio>
 #include <fstream>
 #include <iostream>
+#include <string>
 
 namespace HawkTracer
 {
@@ -14,13 +17,13 @@ namespace ClientUtils
 
 static bool scan_ip_address(const std::string& address, std::string& out_ip, uint16_t& out_port, uint16_t default_port)
 {
-    unsigned n1, n2, n3, n4, port;
-    int num = sscanf(address.c_str(), "%u.%u.%u.%u:%u", &n1, &n2, &n3, &n4, &port);
+    unsigned long n[4], port = default_port;
+    int num = sscanf(address.c_str(), "%lu.%lu.%lu.%lu:%lu", &n[0], &n[1], &n[2], &n[3], &port);
 
-    if (num >= 4)
+    if (num >= 4 && n[0] <= 255 && n[1] <= 255 && n[2] <= 255 && n[3] <= 255 && port <= UINT16_MAX)
     {
-        out_ip = address.substr(0, address.find(':'));
-        out_port = (num == 5) ? (uint16_t)port : default_port;
+        out_ip = std::to_string(n[0]) + '.' + std::to_string(n[1]) + '.' + std::to_string(n[2]) + '.' + std::to_string(n[3]);
+        out_port = (uint16_t)port;
         return true;
     }
     return false;
-- 
2.43.0


From cea80be05d1f25def3b8ec00ee4d2614e2582f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:14 +0000
Subject: [PATCH 70/70] fix: the debug listener printed 8-bit numbers as
 characters

---
 parser/debug_event_listener.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/debug_event_listener.cpp b/parser/debug_event_listener.cpp
index 13c9cd9..9b64632 100644
--- a/parser/debug_event_listener.cpp
+++ b/parser/debug_event_listener.cpp
@@ -14,8 +14,9 @@ static void print_field_value(const Event::Value& value)
 
     switch (value.field->get_type_id())
     {
-    PRINT_FIELD_VALUE(UINT8);
-    PRINT_FIELD_VALUE(INT8);
+    // 8-bit integers are numbers, not characters
+    case FieldTypeId::UINT8: std::cout << static_cast<unsigned int>(value.value.f_UINT8) << std::endl; break;
+    case FieldTypeId::INT8: std::cout << static_cast<int>(value.value.f_INT8) << std::endl; break;
     PRINT_FIELD_VALUE(UINT16);
     PRINT_FIELD_VALUE(INT16);
     PRINT_FIELD_VALUE(UINT32);
-- 
2.43.0

