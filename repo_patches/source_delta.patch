From 602cb35dd43953f7956522cb98b63c02d340ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:31 +0000
Subject: [PATCH 01/37] fix: deliver unserialized events larger than the
 listener buffer directly instead of overflowing it

---
 lib/listener_buffer.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/listener_buffer.c b/lib/listener_buffer.c
index 4249e58..c8d4747 100644
--- a/lib/listener_buffer.c
+++ b/lib/listener_buffer.c
@@ -80,13 +80,28 @@ ht_listener_buffer_process_unserialized_events(HT_ListenerBuffer* buffer,
     for (i = 0; i < size;)
     {
         HT_Event* event = HT_EVENT(events + i);
+        size_t event_size = HT_EVENT_GET_KLASS(event)->get_size(event);
 
-        if (HT_EVENT_GET_KLASS(event)->get_size(event) + buffer->usage > buffer->max_size)
+        if (event_size + buffer->usage > buffer->max_size)
         {
             ht_listener_buffer_flush(buffer, flush_callback, listener);
         }
 
-        buffer->usage += HT_EVENT_GET_KLASS(event)->serialize(event, buffer->data + buffer->usage);
+        if (event_size > buffer->max_size)
+        {
+            /* event is too large for the buffer, so it must be delivered directly */
+            HT_Byte* event_data = (HT_Byte*)ht_alloc(event_size);
+            if (event_data != NULL)
+            {
+                flush_callback(listener, event_data, HT_EVENT_GET_KLASS(event)->serialize(event, event_data));
+                ht_free(event_data);
+            }
+        }
+        else
+        {
+            buffer->usage += HT_EVENT_GET_KLASS(event)->serialize(event, buffer->data + buffer->usage);
+        }
+
         i += HT_EVENT_GET_KLASS(event)->type_info->size;
     }
 }
-- 
2.43.0


From ad408b1a7c92c3766a630c0388685eff8008590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:06 +0000
Subject: [PATCH 02/37] fix: resize bags by the size of their element type

Growing, shrinking or clearing a bag whose element is larger than a pointer (the
timeline listener entries) reallocated too little memory and overflowed the heap.
---
 lib/include/internal/bag.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/internal/bag.h b/lib/include/internal/bag.h
index e53d5fe..8b5bde3 100644
--- a/lib/include/internal/bag.h
+++ b/lib/include/internal/bag.h
@@ -29,7 +29,7 @@ HT_DECLS_BEGIN
     static HT_INLINE HT_Boolean \
     ht_bag##METHOD_SUFFIX##_resize_(HT_Bag##TYPE_SUFFIX* bag, size_t new_capacity) \
     { \
-        TYPE* ptr = (TYPE*)ht_realloc(bag->data, new_capacity * sizeof(void*)); \
+        TYPE* ptr = (TYPE*)ht_realloc(bag->data, new_capacity * sizeof(TYPE)); \
         \
         if (ptr == NULL) \
         { \
-- 
2.43.0


From dc710cf1b8ebd24698143b0c620b53a8dc7109c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:06 +0000
Subject: [PATCH 03/37] fix: undo the key of a failed hash map insertion at the
 right position

When storing the value failed for lack of memory, the key just appended was not
the one removed: the element past the end was written to it.
---
 lib/hash_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash_map.c b/lib/hash_map.c
index 44a0361..a90423a 100644
--- a/lib/hash_map.c
+++ b/lib/hash_map.c
@@ -117,7 +117,7 @@ ht_hash_map_insert(HT_HashMap* map, uint64_t key, const char* value, HT_ErrorCod
     err = ht_bag_void_ptr_add(&bucket->value_bag, (void*)value);
     if (err != HT_ERR_OK)
     {
-        ht_bag_uint64_remove_nth(&bucket->key_bag, ht_bag_size(bucket->key_bag));
+        ht_bag_uint64_remove_nth(&bucket->key_bag, ht_bag_size(bucket->key_bag) - 1);
     }
 
     HT_SET_ERROR(out_err, err);
-- 
2.43.0


From 1d7e095f8243beec1620e13b9d8999dc2dde6df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:18 +0000
Subject: [PATCH 04/37] fix: report out of memory when a timeline can not be
 allocated

---
 lib/timeline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/timeline.c b/lib/timeline.c
index 5ad67bd..14af14b 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -192,6 +192,7 @@ ht_timeline_create(size_t buffer_capacity,
 
     if (timeline == NULL)
     {
+        error_code = HT_ERR_OUT_OF_MEMORY;
         goto done;
     }
 
-- 
2.43.0


From 70148b7e6d7fbaa3b8714e3344162f34481ad3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:18 +0000
Subject: [PATCH 05/37] fix: do not serialize a large event into a failed
 allocation

---
 lib/timeline.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/timeline.c b/lib/timeline.c
index 14af14b..27f2120 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -70,9 +70,12 @@ ht_timeline_push_event(HT_Timeline* timeline, HT_Event* event)
             if (size > sizeof(local_buffer)/sizeof(local_buffer[0]))
             {
                 HT_Byte* buff = (HT_Byte*)ht_alloc(size);
-                event->klass->serialize(event, buff);
-                ht_timeline_listener_container_notify_listeners(timeline->listeners, buff, size, timeline->serialize_events);
-                ht_free(buff);
+                if (buff != NULL)
+                {
+                    event->klass->serialize(event, buff);
+                    ht_timeline_listener_container_notify_listeners(timeline->listeners, buff, size, timeline->serialize_events);
+                    ht_free(buff);
+                }
             }
             else
             {
-- 
2.43.0


From 4a382176e9d48b5baddf3049610db8dd1057404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:16 +0000
Subject: [PATCH 06/37] fix: looking up a feature of an unregistered class
 returns no feature

---
 lib/timeline.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/timeline.c b/lib/timeline.c
index 27f2120..0941a70 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -152,6 +152,11 @@ ht_timeline_set_feature(HT_Timeline* timeline, HT_Feature* feature)
 HT_Feature*
 ht_timeline_get_feature(HT_Timeline* timeline, HT_FeatureKlass* feature_klass)
 {
+    if (feature_klass->id == HT_INVALID_FEATURE_ID || feature_klass->id >= HT_TIMELINE_MAX_FEATURES)
+    {
+        return NULL;
+    }
+
     return timeline->features[feature_klass->id];
 }
 
-- 
2.43.0


From fb448f1ff923357e619ca25d0c242e6a74f51231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:24 +0000
Subject: [PATCH 07/37] fix: serialize structure fields at their own position

---
 lib/include/hawktracer/event_macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/hawktracer/event_macros.h b/lib/include/hawktracer/event_macros.h
index 4c3618b..11be0e7 100644
--- a/lib/include/hawktracer/event_macros.h
+++ b/lib/include/hawktracer/event_macros.h
@@ -23,7 +23,7 @@
 
 #define HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD) memcpy(buffer + offset, (char*)&VAR_NAME->FIELD, sizeof(VAR_NAME->FIELD)), offset += sizeof(VAR_NAME->FIELD);
 
-#define HT_EVENT_RUNTIME_SERIALIZE_STRUCT(C_TYPE, FIELD) offset += HT_EVENT_SERIALIZE_FUNCTION(C_TYPE)(((HT_Event*)&VAR_NAME->FIELD), buffer);
+#define HT_EVENT_RUNTIME_SERIALIZE_STRUCT(C_TYPE, FIELD) offset += HT_EVENT_SERIALIZE_FUNCTION(C_TYPE)(((HT_Event*)&VAR_NAME->FIELD), buffer + offset);
 #define HT_EVENT_RUNTIME_SERIALIZE_INTEGER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_POINTER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_DOUBLE(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
-- 
2.43.0


From b7f16ab80606cfc6a6a7e43f9b6fb2139accee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:24 +0000
Subject: [PATCH 08/37] fix: serialize a missing string as an empty one so that
 the stream stays decodable

---
 lib/include/hawktracer/event_macros.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/include/hawktracer/event_macros.h b/lib/include/hawktracer/event_macros.h
index 11be0e7..43626d6 100644
--- a/lib/include/hawktracer/event_macros.h
+++ b/lib/include/hawktracer/event_macros.h
@@ -16,7 +16,7 @@
 #define HT_EVENT_RUNTIME_SIZEOF_INTEGER(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
 #define HT_EVENT_RUNTIME_SIZEOF_POINTER(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
 #define HT_EVENT_RUNTIME_SIZEOF_DOUBLE(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
-#define HT_EVENT_RUNTIME_SIZEOF_STRING(VAR_NAME, FIELD, C_TYPE) (VAR_NAME->FIELD ? strlen(VAR_NAME->FIELD) + 1 : 0)
+#define HT_EVENT_RUNTIME_SIZEOF_STRING(VAR_NAME, FIELD, C_TYPE) ((VAR_NAME->FIELD ? strlen(VAR_NAME->FIELD) : 0) + 1)
 #define HT_EVENT_RUNTIME_SIZEOF__(VAR_NAME, DATA_TYPE, C_TYPE, FIELD, ...) +HT_EVENT_RUNTIME_SIZEOF_##DATA_TYPE(VAR_NAME, FIELD, C_TYPE)
 #define HT_EVENT_RUNTIME_SIZEOF_(...) MKCREFLECT_EXPAND_(HT_EVENT_RUNTIME_SIZEOF__(__VA_ARGS__, 0))
 #define HT_EVENT_RUNTIME_SIZEOF(X, USER_DATA) HT_EVENT_RUNTIME_SIZEOF_(USER_DATA, MKCREFLECT_EXPAND_VA_ X)
@@ -28,8 +28,9 @@
 #define HT_EVENT_RUNTIME_SERIALIZE_POINTER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_DOUBLE(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_STRING(C_TYPE, FIELD) do {\
-    size_t len = (VAR_NAME->FIELD) ? strlen(VAR_NAME->FIELD) + 1 : 0; \
-    memcpy(buffer + offset, VAR_NAME->FIELD, len); \
+    const char* str = (VAR_NAME->FIELD) ? (VAR_NAME->FIELD) : ""; \
+    size_t len = strlen(str) + 1; \
+    memcpy(buffer + offset, str, len); \
     offset += len; \
 } while (0);
 #define HT_EVENT_RUNTIME_SERIALIZE__(DATA_TYPE, C_TYPE, FIELD, ...) HT_EVENT_RUNTIME_SERIALIZE_##DATA_TYPE(C_TYPE, FIELD)
-- 
2.43.0


From 848e0bc4bac00439a74fc77353c6cbbfb164a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:17 +0000
Subject: [PATCH 09/37] fix: a nested ht_init does not throw away the
 registered classes

---
 lib/init.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/init.c b/lib/init.c
index b6cb515..e4fdf0c 100644
--- a/lib/init.c
+++ b/lib/init.c
@@ -15,6 +15,11 @@ ht_init(int argc, char** argv)
 {
     ht_command_line_parse_args(argc, argv);
 
+    if (_ht_init_counter++ > 0)
+    {
+        return;
+    }
+
     ht_registry_init();
 
     HT_REGISTER_EVENT_KLASS(HT_EndiannessInfoEvent);
@@ -32,8 +37,6 @@ ht_init(int argc, char** argv)
 #ifdef HT_USE_PTHREADS
     _ht_posix_mapped_tracepoint_init();
 #endif
-
-    _ht_init_counter++;
 }
 
 HT_Boolean
-- 
2.43.0


From 7d2fef310c362eb521d1d961bb0fa85671038067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:17 +0000
Subject: [PATCH 10/37] fix: register event classes again after the registry
 has been reinitialized

---
 lib/registry.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index 1ba6a2e..3ece3ac 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -100,19 +100,28 @@ done:
 HT_EventKlassId
 ht_registry_register_event_klass(HT_EventKlass* event_klass)
 {
-    if (event_klass->klass_id == HT_INVALID_KLASS_ID)
+    HT_EventKlassId klass_id;
+
+    ht_mutex_lock(event_klass_registry_register_mutex);
+
+    klass_id = event_klass->klass_id;
+
+    /* the identifier might come from a registry which has been deinitialized since then */
+    if (klass_id >= event_klass_register.size || event_klass_register.data[klass_id] != (void*)event_klass)
     {
-        ht_mutex_lock(event_klass_registry_register_mutex);
+        klass_id = HT_INVALID_KLASS_ID;
 
         if (ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK)
         {
-            event_klass->klass_id = (HT_EventKlassId)event_klass_register.size - 1;
+            klass_id = (HT_EventKlassId)event_klass_register.size - 1;
         }
 
-        ht_mutex_unlock(event_klass_registry_register_mutex);
+        event_klass->klass_id = klass_id;
     }
 
-    return event_klass->klass_id;
+    ht_mutex_unlock(event_klass_registry_register_mutex);
+
+    return klass_id;
 }
 
 HT_EventKlass**
-- 
2.43.0


From 72dccd93a0b72160678150543b78c3fb73920dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:17 +0000
Subject: [PATCH 11/37] fix: register a listener container atomically and
 without leaking a reference on failure

---
 lib/registry.c | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index 3ece3ac..c1e9a7c 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -149,51 +149,59 @@ ht_registry_deinit(void)
     ht_bag_void_ptr_deinit(&event_klass_register);
 }
 
-HT_TimelineListenerContainer*
-ht_registry_find_listener_container(const char* name)
+static HT_TimelineListenerContainer*
+_ht_registry_find_listener_container(uint32_t id)
 {
     size_t i;
-    uint32_t id = djb2_hash(name);
 
-    ht_mutex_lock(listeners_register_mutex);
     for (i = 0; i < listeners_register.size; i++)
     {
-        if (ht_timeline_listener_container_get_id((HT_TimelineListenerContainer*)listeners_register.data[i]) == id)
+        HT_TimelineListenerContainer* container = (HT_TimelineListenerContainer*)listeners_register.data[i];
+        if (ht_timeline_listener_container_get_id(container) == id)
         {
-            HT_TimelineListenerContainer* container = (HT_TimelineListenerContainer*)listeners_register.data[i];
-            ht_mutex_unlock(listeners_register_mutex);
             return container;
         }
     }
-    ht_mutex_unlock(listeners_register_mutex);
 
     return NULL;
 }
 
+HT_TimelineListenerContainer*
+ht_registry_find_listener_container(const char* name)
+{
+    HT_TimelineListenerContainer* container;
+
+    ht_mutex_lock(listeners_register_mutex);
+    container = _ht_registry_find_listener_container(djb2_hash(name));
+    ht_mutex_unlock(listeners_register_mutex);
+
+    return container;
+}
+
 HT_ErrorCode
 ht_registry_register_listener_container(const char* name, HT_TimelineListenerContainer* container)
 {
     HT_ErrorCode error_code;
+    uint32_t id = djb2_hash(name);
 
-    if (ht_registry_find_listener_container(name) != NULL)
+    ht_mutex_lock(listeners_register_mutex);
+
+    if (_ht_registry_find_listener_container(id) != NULL)
     {
+        ht_mutex_unlock(listeners_register_mutex);
         return HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED;
     }
 
-    ht_mutex_lock(listeners_register_mutex);
-    ht_timeline_listener_container_set_id(container, djb2_hash(name));
-    ht_timeline_listener_container_ref(container);
-
     error_code = ht_bag_void_ptr_add(&listeners_register, container);
-    if (error_code != HT_ERR_OK)
+    if (error_code == HT_ERR_OK)
     {
-        ht_mutex_unlock(listeners_register_mutex);
-        return error_code;
+        ht_timeline_listener_container_set_id(container, id);
+        ht_timeline_listener_container_ref(container);
     }
 
     ht_mutex_unlock(listeners_register_mutex);
 
-    return HT_ERR_OK;
+    return error_code;
 }
 
 #define REGISTRY_LISETNER_BUFF_SIZE 4096
-- 
2.43.0


From 4d5bc103bc161539c05ba786d8e03fde15cf1ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:17 +0000
Subject: [PATCH 12/37] fix: take a reference to a shared listener container
 under its lock and share it also if it was registered concurrently

---
 lib/timeline_listener.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/timeline_listener.c b/lib/timeline_listener.c
index 1bdd207..a283c85 100644
--- a/lib/timeline_listener.c
+++ b/lib/timeline_listener.c
@@ -184,14 +184,18 @@ ht_find_or_create_listener(const char* name)
         if (container == NULL)
         {
             container = ht_timeline_listener_container_create();
-            if (container != NULL)
+            if (container != NULL &&
+                ht_registry_register_listener_container(name, container) == HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED)
             {
-                ht_registry_register_listener_container(name, container);
+                /* another thread has registered the container in the meantime */
+                ht_timeline_listener_container_unref(container);
+                container = ht_registry_find_listener_container(name);
+                ht_timeline_listener_container_ref(container);
             }
         }
         else
         {
-            container->refcount++;
+            ht_timeline_listener_container_ref(container);
         }
     }
 
-- 
2.43.0


From 0ce16e0d3b8022a7da817e69f3b72cb7eecee067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:17 +0000
Subject: [PATCH 13/37] fix: never overflow the metadata buffer, neither with
 unserialized nor with very large descriptions

---
 lib/registry.c | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index c1e9a7c..9ab04c8 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -240,35 +240,54 @@ _ht_registry_init_event_klass_field_info_event(HT_EventKlass* klass, size_t fiel
 }
 
 static size_t
-_ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
+_ht_registry_push_event_to_listener(HT_Event* event, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
 {
-    size_t j;
     size_t total_size = 0;
-    HT_DECL_EVENT(HT_EventKlassInfoEvent, event);
-    _ht_registry_init_event_klass_info_event(klass, &event);
+    HT_EventKlass* klass = HT_EVENT_GET_KLASS(event);
+    size_t size = serialize ? klass->get_size(event) : klass->type_info->size;
 
-    if (ht_HT_EventKlassInfoEvent_get_size(HT_EVENT(&event)) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
+    if (size > REGISTRY_LISETNER_BUFF_SIZE - *data_pos && *data_pos > 0)
     {
         callback(data, *data_pos, serialize, listener);
         total_size += *data_pos;
         *data_pos = 0;
     }
 
-    *data_pos += ht_event_utils_serialize_event_to_buffer(HT_EVENT(&event), data + *data_pos, serialize);
+    if (size > REGISTRY_LISETNER_BUFF_SIZE)
+    {
+        HT_Byte* buffer = (HT_Byte*)ht_alloc(size);
+        if (buffer != NULL)
+        {
+            ht_event_utils_serialize_event_to_buffer(event, buffer, serialize);
+            callback(buffer, size, serialize, listener);
+            total_size += size;
+            ht_free(buffer);
+        }
+    }
+    else
+    {
+        *data_pos += ht_event_utils_serialize_event_to_buffer(event, data + *data_pos, serialize);
+    }
+
+    return total_size;
+}
+
+static size_t
+_ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
+{
+    size_t j;
+    size_t total_size = 0;
+    HT_DECL_EVENT(HT_EventKlassInfoEvent, event);
+    _ht_registry_init_event_klass_info_event(klass, &event);
+
+    total_size += _ht_registry_push_event_to_listener(HT_EVENT(&event), data, data_pos, callback, listener, serialize);
 
     for (j = 0; j < klass->type_info->fields_count; j++)
     {
         HT_DECL_EVENT(HT_EventKlassFieldInfoEvent, field_event);
         _ht_registry_init_event_klass_field_info_event(klass, j, &field_event);
 
-        if (ht_HT_EventKlassFieldInfoEvent_get_size(HT_EVENT(&field_event)) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
-        {
-            callback(data, *data_pos, serialize, listener);
-            total_size += *data_pos;
-            *data_pos = 0;
-        }
-
-        *data_pos += ht_event_utils_serialize_event_to_buffer(HT_EVENT(&field_event), data + *data_pos, serialize);
+        total_size += _ht_registry_push_event_to_listener(HT_EVENT(&field_event), data, data_pos, callback, listener, serialize);
     }
 
     return total_size;
-- 
2.43.0


From 14b08a14c96048a710bc0a0796b01b06244a7fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:29 +0000
Subject: [PATCH 14/37] fix: cache temporary labels atomically and without
 losing memory on failure

---
 lib/feature_cached_string.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/lib/feature_cached_string.c b/lib/feature_cached_string.c
index 0cd7c8b..1d36434 100644
--- a/lib/feature_cached_string.c
+++ b/lib/feature_cached_string.c
@@ -167,6 +167,8 @@ uintptr_t
 ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char* label)
 {
     HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
+    HT_ErrorCode error_code = HT_ERR_OK;
+    char* new_label = NULL;
     uintptr_t hash_value;
 
     assert(f);
@@ -177,18 +179,32 @@ ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char*
 
     if (ht_hash_map_get_value(&f->dynamic_hashes, hash_value) == NULL)
     {
-        HT_FCS_UNLOCK_(f);
-
         size_t label_len = strlen(label);
-        char* new_label = (char*)ht_alloc(label_len + 1);
-        memcpy(new_label, label, label_len);
-        new_label[label_len] = 0;
+        new_label = (char*)ht_alloc(label_len + 1);
+        if (new_label == NULL)
+        {
+            error_code = HT_ERR_OUT_OF_MEMORY;
+        }
+        else
+        {
+            memcpy(new_label, label, label_len);
+            new_label[label_len] = 0;
 
-        ht_feature_cached_string_add_mapping_(timeline, &f->dynamic_hashes, hash_value, new_label);
+            ht_hash_map_insert(&f->dynamic_hashes, hash_value, new_label, &error_code);
+        }
     }
-    else
+
+    HT_FCS_UNLOCK_(f);
+
+    if (error_code != HT_ERR_OK)
+    {
+        ht_free(new_label);
+        return 0;
+    }
+
+    if (new_label != NULL)
     {
-        HT_FCS_UNLOCK_(f);
+        HT_TIMELINE_PUSH_EVENT(timeline, HT_StringMappingEvent, hash_value, new_label);
     }
 
     return hash_value;
-- 
2.43.0


From 81045b73e3734e49930a7145a8a8a1019b212687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:29 +0000
Subject: [PATCH 15/37] fix: releasing a null pointer does not ask a custom
 allocator for memory

---
 lib/alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/alloc.c b/lib/alloc.c
index f80e603..76f1db9 100644
--- a/lib/alloc.c
+++ b/lib/alloc.c
@@ -27,7 +27,7 @@ void ht_free(void* ptr)
     {
         free(ptr);
     }
-    else
+    else if (ptr != NULL)
     {
         realloc_fnc_(ptr, 0, user_data_);
     }
-- 
2.43.0


From 0e6cd0c752971c41a2a4687ebccbfe71e5273e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:20 +0000
Subject: [PATCH 16/37] fix: a failed initialization leaves the library
 uninitialized instead of crashing

---
 lib/init.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/init.c b/lib/init.c
index e4fdf0c..21c0c9e 100644
--- a/lib/init.c
+++ b/lib/init.c
@@ -20,7 +20,11 @@ ht_init(int argc, char** argv)
         return;
     }
 
-    ht_registry_init();
+    if (ht_registry_init() != HT_ERR_OK)
+    {
+        _ht_init_counter = 0;
+        return;
+    }
 
     HT_REGISTER_EVENT_KLASS(HT_EndiannessInfoEvent);
     HT_REGISTER_EVENT_KLASS(HT_Event);
-- 
2.43.0


From 54ff5473afe8667a13879b4e17b5a2f78bb4cfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:58 +0000
Subject: [PATCH 17/37] fix: creating an event id provider without memory does
 not crash

---
 lib/event_id_provider.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/event_id_provider.cpp b/lib/event_id_provider.cpp
index 405ca79..6c3ff01 100644
--- a/lib/event_id_provider.cpp
+++ b/lib/event_id_provider.cpp
@@ -25,7 +25,12 @@ HT_EventIdProvider*
 ht_event_id_provider_create(void)
 {
     HT_EventIdProvider* provider = HT_CREATE_TYPE(HT_EventIdProvider);
-    provider->current_identifier = 0;
+
+    if (provider != NULL)
+    {
+        provider->current_identifier = 0;
+    }
+
     return provider;
 }
 
-- 
2.43.0


From e2c50b06097315673708fbe1fb8b765f543cade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:58 +0000
Subject: [PATCH 18/37] fix: thread ids are taken atomically

---
 lib/thread.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/thread.c b/lib/thread.c
index 4925b8f..2ea76d0 100644
--- a/lib/thread.c
+++ b/lib/thread.c
@@ -1,6 +1,15 @@
 #include "hawktracer/thread.h"
 
-static HT_ThreadId _ht_current_thread_id = 0; // TODO: this must be atomic
+#if defined(_MSC_VER)
+#  include <intrin.h>
+#  define HT_ATOMIC_INCREMENT_(PTR) ((HT_ThreadId)_InterlockedIncrement((volatile long*)(PTR)))
+#elif defined(__GNUC__)
+#  define HT_ATOMIC_INCREMENT_(PTR) __sync_add_and_fetch((PTR), 1)
+#else
+#  define HT_ATOMIC_INCREMENT_(PTR) (++*(PTR)) // TODO: this must be atomic
+#endif
+
+static HT_ThreadId _ht_current_thread_id = 0;
 
 HT_ThreadId
 ht_thread_get_current_thread_id(void)
@@ -9,7 +18,7 @@ ht_thread_get_current_thread_id(void)
 
     if (!thread_id)
     {
-        thread_id = ++_ht_current_thread_id;
+        thread_id = HT_ATOMIC_INCREMENT_(&_ht_current_thread_id);
     }
 
     return thread_id;
-- 
2.43.0


From 1753655936dfbe2e6c857c21a293326c0fd33f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:34 +0000
Subject: [PATCH 19/37] fix: the global timeline buffer size option accepts
 whole unsigned numbers only

---
 lib/command_line_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/command_line_parser.c b/lib/command_line_parser.c
index 795940e..b85015d 100644
--- a/lib/command_line_parser.c
+++ b/lib/command_line_parser.c
@@ -52,7 +52,7 @@ set_global_timeline_buffer_size(int argc, char** argv, int pos)
         return HT_ERR_OUT_OF_RANGE;
     }
 
-    if (end - s == 0)
+    if (end == s || *end != '\0' || strchr(s, '-') != NULL)
     {
         return HT_ERR_INVALID_FORMAT;
     }
-- 
2.43.0


From ec5079c815946b660dc4d80154d87215283d7024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 20/37] fix: a call-stack tracepoint that cannot be stored does
 not disturb the enclosing ones

---
 lib/feature_callstack.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/feature_callstack.c b/lib/feature_callstack.c
index 71f2d96..558f566 100644
--- a/lib/feature_callstack.c
+++ b/lib/feature_callstack.c
@@ -9,6 +9,8 @@ typedef struct
 {
     HT_Feature base;
     HT_Stack stack;
+    /* number of started tracepoints which couldn't be put on the stack; they're the innermost ones */
+    size_t lost;
 } HT_FeatureCallstack;
 
 static void
@@ -28,6 +30,7 @@ ht_feature_callstack_create(HT_ErrorCode* out_err)
         return NULL;
     }
 
+    feature->lost = 0;
     error_code = ht_stack_init(&feature->stack, 1024, 32);
 
     if (error_code != HT_ERR_OK)
@@ -55,15 +58,26 @@ ht_feature_callstack_start(HT_Timeline* timeline, HT_CallstackBaseEvent* event)
     HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
 
     ht_timeline_init_event(timeline, HT_EVENT(event));
-    /* TODO: handle ht_stack_push() error */
-    ht_stack_push(&f->stack, event, event->base.klass->type_info->size);
+
+    if (f->lost > 0 || ht_stack_push(&f->stack, event, event->base.klass->type_info->size) != HT_ERR_OK)
+    {
+        f->lost++;
+    }
 }
 
 void
 ht_feature_callstack_stop(HT_Timeline* timeline)
 {
     HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
-    HT_CallstackBaseEvent* event = (HT_CallstackBaseEvent*)ht_stack_top(&f->stack);
+    HT_CallstackBaseEvent* event;
+
+    if (f->lost > 0)
+    {
+        f->lost--;
+        return;
+    }
+
+    event = (HT_CallstackBaseEvent*)ht_stack_top(&f->stack);
 
     event->duration = ht_monotonic_clock_get_timestamp() - HT_EVENT(event)->timestamp;
     event->thread_id = ht_thread_get_current_thread_id();
-- 
2.43.0


From 3b9b39b63181918535f8bce2834823db3ec3d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:54 +0000
Subject: [PATCH 21/37] fix: a task that cannot be scheduled is released

---
 lib/task_scheduler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/task_scheduler.c b/lib/task_scheduler.c
index beb16ca..3bef93d 100644
--- a/lib/task_scheduler.c
+++ b/lib/task_scheduler.c
@@ -109,6 +109,7 @@ ht_task_scheduler_schedule_task(HT_TaskScheduler* task_scheduler,
 
     if (ht_bag_void_ptr_add(&task_scheduler->tasks, task) != HT_ERR_OK)
     {
+        ht_free(task);
         return HT_TASK_SCHEDULER_INVALID_TASK_ID;
     }
 
-- 
2.43.0


From 6e03161be422806d870ce0af9555d066d2ed073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:11 +0000
Subject: [PATCH 22/37] fix: stopping the TCP listener releases its lock, and a
 listener that cannot start touches nothing uninitialised

---
 lib/listeners/tcp_listener.c | 43 +++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index a6ce6a3..a2c3e2c 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -53,7 +53,10 @@ ht_tcp_listener_metadata_pusher(TEventPtr e, size_t c, HT_Boolean serialized, vo
     (void) serialized;
     HT_TCPListener* listener = (HT_TCPListener*)user_data;
     ht_mutex_lock(listener->_push_action_mutex);
-    ht_tcp_server_write_to_socket(listener->_tcp_server, listener->_last_client_sock_fd, (char*)e, c);
+    if (!_ht_tcp_listener_is_stopped(listener))
+    {
+        ht_tcp_server_write_to_socket(listener->_tcp_server, listener->_last_client_sock_fd, (char*)e, c);
+    }
     ht_mutex_unlock(listener->_push_action_mutex);
 }
 
@@ -81,17 +84,37 @@ ht_tcp_listener_init(HT_TCPListener* listener, int port, size_t buffer_size)
 
     listener->_last_client_sock_fd = 0;
     listener->_was_flushed = HT_FALSE;
+    listener->_client_connected_callback = NULL;
+    listener->_client_connected_user_data = NULL;
 
-    // TODO handle if return null
+    error_code = HT_ERR_OUT_OF_MEMORY;
     listener->_push_action_mutex = ht_mutex_create();
+    if (listener->_push_action_mutex == NULL)
+    {
+        goto error_create_mutex;
+    }
+
     listener->_tcp_server = ht_tcp_server_create();
+    if (listener->_tcp_server == NULL)
+    {
+        goto error_create_server;
+    }
 
     if (ht_tcp_server_start(listener->_tcp_server, port, ht_tcp_listener_client_connected, listener))
     {
         return HT_ERR_OK;
     }
 
-    return HT_ERR_CANT_START_TCP_SERVER;
+    error_code = HT_ERR_CANT_START_TCP_SERVER;
+    ht_tcp_server_destroy(listener->_tcp_server);
+
+error_create_server:
+    ht_mutex_destroy(listener->_push_action_mutex);
+
+error_create_mutex:
+    ht_listener_buffer_deinit(&listener->_buffer);
+
+    return error_code;
 }
 
 static void
@@ -141,7 +164,7 @@ ht_tcp_listener_create(int port, size_t buffer_size, HT_ErrorCode* out_err)
     HT_ErrorCode error_code = ht_tcp_listener_init(listener, port, buffer_size);
     if (error_code != HT_ERR_OK)
     {
-        ht_tcp_listener_destroy(listener);
+        ht_free(listener);
         listener = NULL;
     }
 
@@ -206,22 +229,26 @@ ht_tcp_listener_callback(TEventPtr events, size_t size, HT_Boolean serialized, v
 void
 ht_tcp_listener_stop(HT_TCPListener* listener)
 {
+    HT_TCPServer* tcp_server;
+
     ht_mutex_lock(listener->_push_action_mutex);
 
-    if (!_ht_tcp_listener_is_stopped(listener))
+    if (_ht_tcp_listener_is_stopped(listener))
     {
         ht_mutex_unlock(listener->_push_action_mutex);
+        return;
     }
 
     ht_tcp_listener_flush(listener);
-    ht_tcp_server_stop(listener->_tcp_server);
     ht_listener_buffer_deinit(&listener->_buffer);
-    ht_tcp_server_destroy(listener->_tcp_server);
+    tcp_server = listener->_tcp_server;
     listener->_tcp_server = NULL;
 
     ht_mutex_unlock(listener->_push_action_mutex);
 
-    ht_mutex_unlock(listener->_push_action_mutex);
+    /* the server waits for its thread, which might be waiting for the lock */
+    ht_tcp_server_stop(tcp_server);
+    ht_tcp_server_destroy(tcp_server);
 }
 
 #endif /* HT_ENABLE_TCP_LISTENER */
-- 
2.43.0


From 82b5a2842e418534fdffd64e44dd41688fcb1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:11 +0000
Subject: [PATCH 23/37] fix: sending to a client that has gone does not kill
 the traced program

---
 lib/tcp_server.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 742d457..37f6f80 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -109,6 +109,13 @@ ht_thread_destroy(HT_Thread* th)
 
 #include <string.h>
 
+#ifdef MSG_NOSIGNAL
+/* a client which has gone must not raise SIGPIPE in the traced program */
+#  define HT_TCP_SEND_FLAGS MSG_NOSIGNAL
+#else
+#  define HT_TCP_SEND_FLAGS 0
+#endif
+
 static void *_ht_tcp_server_run(void *user_data);
 
 struct _HT_TCPServer
@@ -268,7 +275,7 @@ ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, s
 
     while (sent < size)
     {
-        int n = send(sock_fd, buffer + sent, size - sent, 0);
+        int n = send(sock_fd, buffer + sent, size - sent, HT_TCP_SEND_FLAGS);
 
         if (n <= 0)
         {
-- 
2.43.0


From edf20887d3deabe602cef07a572471d46b8801df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:11 +0000
Subject: [PATCH 24/37] fix: the TCP server survives failed allocations and
 closes its sockets

---
 lib/tcp_server.cpp | 68 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 8 deletions(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 37f6f80..302b55e 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -57,6 +57,11 @@ ht_thread_create(ht_thread_callback_t callback, void* user_data)
 {
     HT_Thread* th = HT_CREATE_TYPE(HT_Thread);
 
+    if (th == NULL)
+    {
+        return NULL;
+    }
+
 #ifdef HT_THREAD_IMPL_CPP11
     new(&th->th) HT_Thread();
     th->th = std::thread(callback, user_data);
@@ -118,6 +123,16 @@ ht_thread_destroy(HT_Thread* th)
 
 static void *_ht_tcp_server_run(void *user_data);
 
+static void
+_ht_tcp_server_close_socket(int sock_fd)
+{
+#ifdef _WIN32
+    closesocket(sock_fd);
+#else
+    close(sock_fd);
+#endif
+}
+
 struct _HT_TCPServer
 {
     HT_Thread* accept_client_thread;
@@ -134,9 +149,26 @@ ht_tcp_server_create(void)
 {
     HT_TCPServer* server = HT_CREATE_TYPE(HT_TCPServer);
 
-    ht_bag_int_init(&server->client_sock_fd, 8);
-    server->accept_client_thread = NULL;
+    if (server == NULL)
+    {
+        return NULL;
+    }
+
+    if (ht_bag_int_init(&server->client_sock_fd, 8) != HT_ERR_OK)
+    {
+        ht_free(server);
+        return NULL;
+    }
+
     server->client_mutex = ht_mutex_create();
+    if (server->client_mutex == NULL)
+    {
+        ht_bag_int_deinit(&server->client_sock_fd);
+        ht_free(server);
+        return NULL;
+    }
+
+    server->accept_client_thread = NULL;
     server->server_sock_fd = -1;
     server->client_connected_cb = NULL;
     server->client_connected_ud = NULL;
@@ -205,6 +237,12 @@ ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected client_con
     server->client_connected_ud = user_data;
     server->accept_client_thread = ht_thread_create(_ht_tcp_server_run, server);
 
+    if (server->accept_client_thread == NULL)
+    {
+        ht_tcp_server_stop(server);
+        return HT_FALSE;
+    }
+
     return HT_TRUE;
 }
 
@@ -216,15 +254,11 @@ ht_tcp_server_stop(HT_TCPServer* server)
         return;
     }
 
-    ht_mutex_lock(server->client_mutex);
-    ht_bag_int_clear(&server->client_sock_fd);
-    ht_mutex_unlock(server->client_mutex);
-
+    size_t i;
     int prev_sock_fd = server->server_sock_fd;
     server->server_sock_fd = -1;
 #ifdef _WIN32
     closesocket(prev_sock_fd);
-    WSACleanup();
 #else
     shutdown(prev_sock_fd, 2);
 #endif
@@ -235,6 +269,20 @@ ht_tcp_server_stop(HT_TCPServer* server)
         ht_thread_destroy(server->accept_client_thread);
         server->accept_client_thread = NULL;
     }
+
+    ht_mutex_lock(server->client_mutex);
+    for (i = 0; i < ht_bag_size(server->client_sock_fd); i++)
+    {
+        _ht_tcp_server_close_socket(ht_bag_nth(server->client_sock_fd, i));
+    }
+    ht_bag_int_clear(&server->client_sock_fd);
+    ht_mutex_unlock(server->client_mutex);
+
+#ifdef _WIN32
+    WSACleanup();
+#else
+    close(prev_sock_fd);
+#endif
 }
 
 HT_Boolean
@@ -254,6 +302,7 @@ ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size)
     {
         if (!ht_tcp_server_write_to_socket(server, ht_bag_nth(server->client_sock_fd, i), buffer, size))
         {
+            _ht_tcp_server_close_socket(ht_bag_nth(server->client_sock_fd, i));
             ht_bag_int_remove_nth(&server->client_sock_fd, i);
             i--;
         }
@@ -307,7 +356,10 @@ _ht_tcp_server_run(void* user_data)
         {
             server->client_connected_cb(client_fd, server->client_connected_ud);
             ht_mutex_lock(server->client_mutex);
-            ht_bag_int_add(&server->client_sock_fd, client_fd);
+            if (ht_bag_int_add(&server->client_sock_fd, client_fd) != HT_ERR_OK)
+            {
+                _ht_tcp_server_close_socket(client_fd);
+            }
             ht_mutex_unlock(server->client_mutex);
         }
     }
-- 
2.43.0


From 4f3aba505e619fc2b11014f2658ab29cd9436349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:18 +0000
Subject: [PATCH 25/37] fix: the id of a feature class is assigned under the
 lock

---
 lib/registry.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index 9ab04c8..ff55bb0 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -55,10 +55,10 @@ HT_ErrorCode ht_registry_register_feature(HT_FeatureKlass* klass)
     feature_register[feature_count++] = HT_TRUE;
 
 register_feature_finalize:
-    ht_mutex_unlock(features_register_mutex);
-
     klass->id = feature_id;
 
+    ht_mutex_unlock(features_register_mutex);
+
     return err;
 }
 
-- 
2.43.0


From 2f389092cd91c5ef1ea19ef39e4903e74297cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:48 +0000
Subject: [PATCH 26/37] fix: usage figures of processes with short or malformed
 proc files

---
 lib/platform/linux/cpu_usage.c    | 9 ++++++++-
 lib/platform/linux/memory_usage.c | 5 -----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/platform/linux/cpu_usage.c b/lib/platform/linux/cpu_usage.c
index 473fddc..a8332ca 100644
--- a/lib/platform/linux/cpu_usage.c
+++ b/lib/platform/linux/cpu_usage.c
@@ -35,6 +35,7 @@ _get_process_time(unsigned long* total_time, int pid)
     unsigned long int utime;
     unsigned long int stime;
     char buf[1024];
+    char* name_end;
 
     snprintf(buf, 32, "/proc/%d/stat", pid);
     FILE* fp;
@@ -52,8 +53,14 @@ _get_process_time(unsigned long* total_time, int pid)
     }
     buf[num] = '\0';
 
+    name_end = strrchr(buf, ')'); /* pid (comm) */
+    if (name_end == NULL || name_end + 2 > buf + num)
+    {
+        return HT_FALSE;
+    }
+
     /* Read stat file: http://man7.org/linux/man-pages/man5/proc.5.html */
-    int ret = sscanf(strrchr(buf, ')') + 2, /* pid (comm) */
+    int ret = sscanf(name_end + 2,
            "%c " /* state */
            "%d %d %d %d %d " /* ppid pgrp session tty_nr tpgid */
            "%u " /* flags */
diff --git a/lib/platform/linux/memory_usage.c b/lib/platform/linux/memory_usage.c
index 617c8a9..b7f733d 100644
--- a/lib/platform/linux/memory_usage.c
+++ b/lib/platform/linux/memory_usage.c
@@ -62,11 +62,6 @@ ht_memory_usage_get_usage(HT_MemoryUsageContext* context,
     size_t num = fread(buf, 1, sizeof(buf) - 1, fp);
     fclose(fp);
 
-    if (num < 16)
-    {
-        return HT_ERR_INVALID_FORMAT;
-    }
-
     buf[num] = '\0';
 
     if (sscanf(buf, "%llu %llu %llu", &virt_mem, &resident_mem, &shared_mem) != 3)
-- 
2.43.0


From bd51cbe5d53777f793edb596b0810a8fbf4189f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 27/37] fix: decode the header of structures nested in an event

---
 parser/include/hawktracer/parser/protocol_reader.hpp |  1 +
 parser/protocol_reader.cpp                           | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 819b0ec..0f3c9ac 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -49,6 +49,7 @@ private:
     std::condition_variable _cv;
     std::mutex _mtx_cv;
     bool _flat_events;
+    bool _base_event_pending = false;
     HT_Endianness _endianness = HT_ENDIANNESS_LITTLE;
 };
 
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 4c4a7cd..7541d45 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -82,6 +82,7 @@ void ProtocolReader::_read_events()
         }
 
         Event event(_klass_register->get_klass(base_event.get_value<uint32_t>("klass_id")));
+        _base_event_pending = true;
         if (_flat_events)
         {
             _read_event(is_error, event, nullptr);
@@ -213,8 +214,10 @@ bool ProtocolReader::_read_numeric(FieldType& value, const EventKlassField& fiel
 
 bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field, Event* event, Event* base_event)
 {
-    if (field.get_type_name() == "HT_Event" && field.get_name() == "base")
+    if (_base_event_pending && field.get_type_name() == "HT_Event" && field.get_name() == "base")
     {
+        // the header of the event itself has been read already, other structures have their own one in the stream
+        _base_event_pending = false;
         if (!_flat_events)
         {
             assert(base_event != nullptr);
@@ -229,7 +232,11 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
         _read_event(is_error, sub_event, base_event);
         if (_flat_events)
         {
-            event->merge(std::move(sub_event));
+            // the header of a nested structure must not be taken for the one of the event
+            if (field.get_type_name() != "HT_Event")
+            {
+                event->merge(std::move(sub_event));
+            }
         }
         else
         {
-- 
2.43.0


From 061ad99c6a8fafdf84db747f7ad343a3b46a71ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 28/37] fix: traces with unknown classes or unsupported content
 end the decoding instead of crashing

---
 parser/event_klass.cpp                        |  2 +-
 .../hawktracer/parser/protocol_reader.hpp     |  2 +
 parser/klass_register.cpp                     |  6 +++
 parser/protocol_reader.cpp                    | 47 ++++++++++++++++---
 4 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/parser/event_klass.cpp b/parser/event_klass.cpp
index 3e39284..7f1deef 100644
--- a/parser/event_klass.cpp
+++ b/parser/event_klass.cpp
@@ -81,7 +81,7 @@ FieldTypeId get_type_id(uint64_t type_size, HT_MKCREFLECT_Types_Ext data_type)
         break;
     case HT_MKCREFLECT_TYPES_EXT_STRUCT:
         return FieldTypeId::STRUCT;
-    default: assert(0); // TODO other types
+    default: // TODO other types
         throw std::runtime_error("invalid type id");
     }
 }
diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 0f3c9ac..38a7def 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -34,6 +34,7 @@ public:
 
 private:
     void _read_events();
+    void _decode_events();
     void _read_event(bool& is_error, Event& event, Event* base_event);
     bool _read_string(FieldType& value);
     bool _read_numeric(FieldType& value, const EventKlassField& field);
@@ -50,6 +51,7 @@ private:
     std::mutex _mtx_cv;
     bool _flat_events;
     bool _base_event_pending = false;
+    unsigned _struct_depth = 0;
     HT_Endianness _endianness = HT_ENDIANNESS_LITTLE;
 };
 
diff --git a/parser/klass_register.cpp b/parser/klass_register.cpp
index c5430a1..e675726 100644
--- a/parser/klass_register.cpp
+++ b/parser/klass_register.cpp
@@ -2,6 +2,8 @@
 #include "hawktracer/parser/event.hpp"
 #include "hawktracer/parser/make_unique.hpp"
 
+#include <stdexcept>
+
 namespace HawkTracer {
 namespace parser {
 
@@ -66,6 +68,10 @@ void KlassRegister::handle_register_events(const Event& event)
             if (type == HT_MKCREFLECT_TYPES_EXT_STRUCT)
             {
                 type_klass = get_klass(field_type);
+                if (!type_klass)
+                {
+                    throw std::runtime_error("unknown type of a structure field");
+                }
             }
 
             auto field = HawkTracer::parser::make_unique<EventKlassField>(
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 7541d45..6fb2f31 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -6,12 +6,16 @@
 #include <cassert>
 #include <cstring>
 #include <cstdlib>
+#include <exception>
 
 namespace HawkTracer
 {
 namespace parser
 {
 
+// structures nested deeper than this (e.g. containing themselves) are not decoded
+static const unsigned MAX_STRUCT_DEPTH = 64;
+
 ProtocolReader::ProtocolReader(KlassRegister* klass_register, std::unique_ptr<Stream> stream, bool flat_events) :
     _klass_register(klass_register),
     _stream(std::move(stream)),
@@ -61,6 +65,21 @@ void ProtocolReader::wait_for_complete()
 }
 
 void ProtocolReader::_read_events()
+{
+    try
+    {
+        _decode_events();
+    }
+    catch (const std::exception&)
+    {
+        // the stream announces or contains something that can not be decoded
+    }
+
+    _is_running = false;
+    _cv.notify_one();
+}
+
+void ProtocolReader::_decode_events()
 {
     while (_is_running)
     {
@@ -81,7 +100,13 @@ void ProtocolReader::_read_events()
             continue;
         }
 
-        Event event(_klass_register->get_klass(base_event.get_value<uint32_t>("klass_id")));
+        auto klass = _klass_register->get_klass(klass_id);
+        if (!klass)
+        {
+            break;
+        }
+
+        Event event(std::move(klass));
         _base_event_pending = true;
         if (_flat_events)
         {
@@ -105,9 +130,6 @@ void ProtocolReader::_read_events()
 
         _call_callbacks(event);
     }
-
-    _is_running = false;
-    _cv.notify_one();
 }
 
 void ProtocolReader::_read_event(bool& is_error, Event& event, Event* base_event)
@@ -227,9 +249,22 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
     }
     else
     {
+        auto klass = _klass_register->get_klass(field.get_type_name());
+        if (!klass || _struct_depth == MAX_STRUCT_DEPTH)
+        {
+            return false;
+        }
+
         bool is_error;
-        Event sub_event(_klass_register->get_klass(_klass_register->get_klass_id(field.get_type_name())));
+        Event sub_event(std::move(klass));
+        _struct_depth++;
         _read_event(is_error, sub_event, base_event);
+        _struct_depth--;
+        if (is_error)
+        {
+            return false;
+        }
+
         if (_flat_events)
         {
             // the header of a nested structure must not be taken for the one of the event
@@ -242,7 +277,7 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
         {
             value.f_EVENT = new Event(std::move(sub_event));
         }
-        return !is_error;
+        return true;
     }
 }
 
-- 
2.43.0


From d23a9fc719767e91352fcbab26ab6223572a83a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 29/37] fix: a thread waiting for the end of the decoding does
 not miss it

---
 parser/protocol_reader.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 6fb2f31..7f72d21 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -75,8 +75,11 @@ void ProtocolReader::_read_events()
         // the stream announces or contains something that can not be decoded
     }
 
-    _is_running = false;
-    _cv.notify_one();
+    {
+        std::lock_guard<std::mutex> l(_mtx_cv);
+        _is_running = false;
+    }
+    _cv.notify_all();
 }
 
 void ProtocolReader::_decode_events()
-- 
2.43.0


From 8b4ef3eba5998a863b7eca91ac8dff6970ae7310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 30/37] fix: bytes above 127 from the network are not taken for
 the end of data

---
 client_utils/tcp_client_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index b06546c..34cf8bc 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -153,7 +153,7 @@ int TCPClientStream::read_byte()
     else
     {
         auto& buffer = _datas.front();
-        int b = buffer.second[buffer.first++];
+        int b = static_cast<unsigned char>(buffer.second[buffer.first++]);
         _pop_if_used();
         return b;
     }
-- 
2.43.0


From 28cfefcef823bf28722bc1661e807e54e51cc954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 31/37] fix: a file read that fails is reported

---
 parser/file_stream.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/file_stream.cpp b/parser/file_stream.cpp
index dc610e6..b8cdeb0 100644
--- a/parser/file_stream.cpp
+++ b/parser/file_stream.cpp
@@ -30,8 +30,7 @@ void FileStream::stop()
 
 bool FileStream::read_data(char* buff, size_t size)
 {
-    fread(buff, 1, size, _file);
-    return !feof(_file);
+    return fread(buff, 1, size, _file) == size;
 }
 
 int FileStream::read_byte()
-- 
2.43.0


From 366830a6b0eb44fe1e623b3418d3f2ebf4664932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 32/37] fix: assigning and merging decoded events does not leak
 their strings

---
 parser/event.cpp                           | 13 +++++++++++++
 parser/include/hawktracer/parser/event.hpp |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/parser/event.cpp b/parser/event.cpp
index 7e9dd12..9f89b70 100644
--- a/parser/event.cpp
+++ b/parser/event.cpp
@@ -70,6 +70,14 @@ void Event::Value::_swap(Value& other)
     std::swap(value, other.value);
 }
 
+Event& Event::operator=(Event other)
+{
+    std::swap(_values, other._values);
+    std::swap(_klass, other._klass);
+    std::swap(_timestamp, other._timestamp);
+    return *this;
+}
+
 Event::~Event()
 {
     for (const auto& value : _values)
@@ -97,6 +105,11 @@ void Event::merge(Event event)
 {
     for (auto& value : event._values)
     {
+        if (has_value(value.first))
+        {
+            continue;
+        }
+
         set_value(value.second.field, value.second.value);
         switch (value.second.field->get_type_id())
         {
diff --git a/parser/include/hawktracer/parser/event.hpp b/parser/include/hawktracer/parser/event.hpp
index c96269c..280b3b1 100644
--- a/parser/include/hawktracer/parser/event.hpp
+++ b/parser/include/hawktracer/parser/event.hpp
@@ -37,7 +37,7 @@ public:
     {
     }
     Event(const Event& other) = default;
-    Event& operator=(const Event& other) = default;
+    Event& operator=(Event other);
     Event(Event&&) = default;
 
     ~Event();
-- 
2.43.0


From 02c69249c47bff46334d7f34a39101c73e966253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 33/37] fix: a call starting together with its caller is not
 taken for a separate call tree

---
 client/call_graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/call_graph.cpp b/client/call_graph.cpp
index 2dcc827..d74b618 100644
--- a/client/call_graph.cpp
+++ b/client/call_graph.cpp
@@ -12,7 +12,8 @@ std::vector<std::pair<std::shared_ptr<CallGraph::TreeNode>, int>>
 {
     std::sort(events.begin(), events.end(), 
             [](const NodeData& e1, const NodeData& e2){
-                return e1.start_ts < e2.start_ts;
+                // of two calls starting together the longer one encloses the other
+                return e1.start_ts != e2.start_ts ? e1.start_ts < e2.start_ts : e1.stop_ts > e2.stop_ts;
             });
     for (const auto& event : events)
     {
-- 
2.43.0


From 0593574affa347a18a39eccf2fc156d5a03e0b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 34/37] fix: labels and string fields are escaped in the JSON
 output

---
 client/chrome_trace_converter.cpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/client/chrome_trace_converter.cpp b/client/chrome_trace_converter.cpp
index e5cfb9d..54a55c1 100644
--- a/client/chrome_trace_converter.cpp
+++ b/client/chrome_trace_converter.cpp
@@ -1,7 +1,32 @@
 #include "chrome_trace_converter.hpp"
 
+#include <cstdio>
 #include <set>
 
+static std::string escape_json(const std::string& text)
+{
+    std::string ret;
+    for (char c : text)
+    {
+        if (c == '"' || c == '\\')
+        {
+            ret += '\\';
+            ret += c;
+        }
+        else if (static_cast<unsigned char>(c) < 0x20)
+        {
+            char buff[8];
+            snprintf(buff, sizeof(buff), "\\u%04x", static_cast<unsigned>(c));
+            ret += buff;
+        }
+        else
+        {
+            ret += c;
+        }
+    }
+    return ret;
+}
+
 static uint64_t ns_to_ms(uint64_t nano_secs)
 {
     return nano_secs / 1000u;
@@ -49,7 +74,7 @@ void ChromeTraceConverter::process_event(const parser::Event& event)
 
     // Chrome expects the timestamps/durations to be microseconds
     // so we need to convert from nano to micro
-    _file << "{\"name\": \"" << label
+    _file << "{\"name\": \"" << escape_json(label)
          << "\", \"ph\": \"X\", \"ts\": " << ns_to_ms(event.get_timestamp())
          << ", \"dur\": " << ns_to_ms(event.get_value_or_default<HT_DurationNs>("duration", 0u))
          << ", \"pid\": 0, \"tid\": " << event.get_value_or_default<HT_ThreadId>("thread_id", 0u)
@@ -87,7 +112,7 @@ std::string ChromeTraceConverter::_get_args(const parser::Event& event)
         {
             ret += ",";
         }
-        ret += "\"" + value.first + "\": " + _get_json_value(value.second);
+        ret += "\"" + escape_json(value.first) + "\": " + _get_json_value(value.second);
     }
     return ret;
 }
@@ -103,7 +128,7 @@ std::string ChromeTraceConverter::_get_json_value(const parser::Event::Value& va
     {
     MKCREFLECT_FOREACH(PRINT_INT_VALUE, 0, INT_TYPE_LIST)
     case parser::FieldTypeId::STRING:
-        return std::string("\"") + value.value.f_STRING + "\"";
+        return "\"" + escape_json(value.value.f_STRING) + "\"";
     default:
         return "\"unsupported type\"";
     }
-- 
2.43.0


From 966f9956917cf97377b26bccf979039e54cae5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 35/37] fix: a numeric field called name is not taken for a
 string

---
 client/converter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/converter.cpp b/client/converter.cpp
index 0013daa..bc4628b 100644
--- a/client/converter.cpp
+++ b/client/converter.cpp
@@ -74,7 +74,11 @@ std::string Converter::_get_label(const parser::Event& event)
     }
     else if (event.has_value("name"))
     {
-        label = event.get_value<char*>("name");
+        const auto& name = event.get_raw_value("name");
+        if (name.field->get_type_id() == parser::FieldTypeId::STRING)
+        {
+            label = name.value.f_STRING;
+        }
     }
     return label;
 }
-- 
2.43.0


From 9a19165fe1bfbf43697de23418fb29cfacd56287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 36/37] fix: a value for a field that a decoded event has
 already is released

---
 parser/event.cpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/parser/event.cpp b/parser/event.cpp
index 9f89b70..8093d23 100644
--- a/parser/event.cpp
+++ b/parser/event.cpp
@@ -78,6 +78,21 @@ Event& Event::operator=(Event other)
     return *this;
 }
 
+static void release_value(const EventKlassField& field, const FieldType& value)
+{
+    switch (field.get_type_id())
+    {
+    case FieldTypeId::STRING:
+        free(value.f_STRING);
+        break;
+    case FieldTypeId::STRUCT:
+        delete value.f_EVENT;
+        break;
+    default:
+        break;
+    }
+}
+
 Event::~Event()
 {
     for (const auto& value : _values)
@@ -87,17 +102,7 @@ Event::~Event()
             continue;
         }
 
-        switch (value.second.field->get_type_id())
-        {
-        case FieldTypeId::STRING:
-            free(value.second.value.f_STRING);
-            break;
-        case FieldTypeId::STRUCT:
-            delete value.second.value.f_EVENT;
-            break;
-        default:
-            break;
-        }
+        release_value(*value.second.field, value.second.value);
     }
 }
 
@@ -127,7 +132,12 @@ void Event::merge(Event event)
 
 void Event::set_value(const EventKlassField* field, FieldType value)
 {
-    _values.insert(std::make_pair(field->get_name(), Value(std::move(value), field)));
+    if (!_values.insert(std::make_pair(field->get_name(), Value(value, field))).second)
+    {
+        // the event has such a field already, and nobody else owns the new value
+        release_value(*field, value);
+        return;
+    }
 
     if (field->get_name() == "timestamp")
     {
-- 
2.43.0


From eb0d53facc11f40486deb78137bd5c18469c60f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:02 +0000
Subject: [PATCH 37/37] fix: a reader of the network could miss the disconnect,
 and stopping could hang or close the socket twice

The thread marked the connection as closed without holding the lock of the readers, so that a reader which had just found it open went on to wait and was never woken up. Closing the socket does not end a recv() of another thread, therefore stop() could hang, and the thread could close the descriptor after stop() had done so. Starting again after the server closed the connection assigned to a thread that had not been joined, which ends the process.
---
 client_utils/tcp_client_stream.cpp | 45 ++++++++++++++++--------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index 34cf8bc..4f43f33 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -3,6 +3,7 @@
 #ifdef _WIN32
 #define NOMINMAX
 #include <WinSock2.h>
+#define SHUT_RDWR SD_BOTH
 #pragma comment(lib, "Ws2_32.lib")
 #else
 #include <arpa/inet.h>
@@ -40,10 +41,8 @@ TCPClientStream::~TCPClientStream()
 
 bool TCPClientStream::start()
 {
-    if (is_connected())
-    {
-        stop();
-    }
+    // also ends the thread of an earlier connection that has been closed by the server
+    stop();
 
 #ifdef _WIN32
     WSAData wsa_data;
@@ -77,6 +76,8 @@ bool TCPClientStream::start()
     {
         if (connect(_sock_fd, (struct sockaddr*)&serveraddr, sizeof(serveraddr)) < 0)
         {
+            close_socket(_sock_fd);
+            _sock_fd = -1;
             stop();
             return false;
         }
@@ -89,20 +90,23 @@ bool TCPClientStream::start()
 
 void TCPClientStream::stop()
 {
-    if (is_connected())
     {
-        close_socket(_sock_fd);
-        _sock_fd = -1;
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        if (is_connected())
+        {
+            // wakes up the thread, which closes the socket
+            shutdown(_sock_fd, SHUT_RDWR);
+        }
     }
 
-#ifdef _WIN32
-    WSACleanup();
-#endif
-
     if (_thread.joinable())
     {
         _thread.join();
     }
+
+#ifdef _WIN32
+    WSACleanup();
+#endif
 }
 
 void TCPClientStream::_run()
@@ -113,22 +117,21 @@ void TCPClientStream::_run()
     {
         int size = recv(_sock_fd, buf, BUFSIZE, 0);
         
-        if (size == 0 || size == -1)
-        {
-            close_socket(_sock_fd);
-            _sock_fd = -1;
-        }
-        else if (size > 0)
         {
+            // a reader must not miss the change between checking for it and starting to wait
+            std::lock_guard<std::mutex> l(_datas_mtx);
+            if (size == 0 || size == -1)
+            {
+                close_socket(_sock_fd);
+                _sock_fd = -1;
+            }
+            else if (size > 0)
             {
-                std::lock_guard<std::mutex> l(_datas_mtx);
                 _datas.push(std::make_pair(0u, std::vector<char>(buf, buf + size)));
             }
-            _datas_cv.notify_one();
         }
+        _datas_cv.notify_one();
     }
-
-    _datas_cv.notify_one();
 }
 
 bool TCPClientStream::is_connected() const
-- 
2.43.0

