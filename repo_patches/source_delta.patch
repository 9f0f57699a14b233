From 9351483accf633d8992ad7aeffbf1f4bea2ebec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:29 +0000
Subject: [PATCH 01/57] fix: bag resize reserves room for elements larger than
 a pointer

Resizing computed the new block size with sizeof(void*), so a bag of larger
elements (the listener entries) overflowed its block after growing.
---
 lib/include/internal/bag.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/internal/bag.h b/lib/include/internal/bag.h
index e53d5fe..8b5bde3 100644
--- a/lib/include/internal/bag.h
+++ b/lib/include/internal/bag.h
@@ -29,7 +29,7 @@ HT_DECLS_BEGIN
     static HT_INLINE HT_Boolean \
     ht_bag##METHOD_SUFFIX##_resize_(HT_Bag##TYPE_SUFFIX* bag, size_t new_capacity) \
     { \
-        TYPE* ptr = (TYPE*)ht_realloc(bag->data, new_capacity * sizeof(void*)); \
+        TYPE* ptr = (TYPE*)ht_realloc(bag->data, new_capacity * sizeof(TYPE)); \
         \
         if (ptr == NULL) \
         { \
-- 
2.43.0


From fcde513cbc736dfab6c86508a2d689d90d3b3efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:29 +0000
Subject: [PATCH 02/57] fix: hash map drops the key again when its value cannot
 be stored

The index was one past the end, so the key stayed without a value.
---
 lib/hash_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash_map.c b/lib/hash_map.c
index 44a0361..a90423a 100644
--- a/lib/hash_map.c
+++ b/lib/hash_map.c
@@ -117,7 +117,7 @@ ht_hash_map_insert(HT_HashMap* map, uint64_t key, const char* value, HT_ErrorCod
     err = ht_bag_void_ptr_add(&bucket->value_bag, (void*)value);
     if (err != HT_ERR_OK)
     {
-        ht_bag_uint64_remove_nth(&bucket->key_bag, ht_bag_size(bucket->key_bag));
+        ht_bag_uint64_remove_nth(&bucket->key_bag, ht_bag_size(bucket->key_bag) - 1);
     }
 
     HT_SET_ERROR(out_err, err);
-- 
2.43.0


From 3e8e2fc8e32f02f2d3127d56b0675a903d6d5ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:29 +0000
Subject: [PATCH 03/57] fix: thread identifiers are handed out atomically

Two threads asking for their identifier at the same time could get the same one.
---
 lib/thread.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/thread.c b/lib/thread.c
index 4925b8f..49f8fb3 100644
--- a/lib/thread.c
+++ b/lib/thread.c
@@ -1,6 +1,16 @@
 #include "hawktracer/thread.h"
 
-static HT_ThreadId _ht_current_thread_id = 0; // TODO: this must be atomic
+static HT_ThreadId _ht_current_thread_id = 0;
+
+static HT_ThreadId
+_ht_thread_next_id(void)
+{
+#if defined(__GNUC__)
+    return __sync_add_and_fetch(&_ht_current_thread_id, 1);
+#else
+    return ++_ht_current_thread_id; // TODO: this must be atomic
+#endif
+}
 
 HT_ThreadId
 ht_thread_get_current_thread_id(void)
@@ -9,7 +19,7 @@ ht_thread_get_current_thread_id(void)
 
     if (!thread_id)
     {
-        thread_id = ++_ht_current_thread_id;
+        thread_id = _ht_thread_next_id();
     }
 
     return thread_id;
-- 
2.43.0


From 60a56fecd47538e97d9ab0a49aed4038b92faf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:03 +0000
Subject: [PATCH 04/57] fix: initialise the registry once and register classes
 afresh after a restart

A second ht_init() threw away all registered classes and listener groups, and
after ht_deinit()/ht_init() no class was registered any more because the
classes kept their old identifiers. Class and feature identifiers are also
checked and set under the lock now, so concurrent registration of one class
registers it once.
---
 lib/init.c     |  7 +++++--
 lib/registry.c | 25 ++++++++++++++-----------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/lib/init.c b/lib/init.c
index b6cb515..e4fdf0c 100644
--- a/lib/init.c
+++ b/lib/init.c
@@ -15,6 +15,11 @@ ht_init(int argc, char** argv)
 {
     ht_command_line_parse_args(argc, argv);
 
+    if (_ht_init_counter++ > 0)
+    {
+        return;
+    }
+
     ht_registry_init();
 
     HT_REGISTER_EVENT_KLASS(HT_EndiannessInfoEvent);
@@ -32,8 +37,6 @@ ht_init(int argc, char** argv)
 #ifdef HT_USE_PTHREADS
     _ht_posix_mapped_tracepoint_init();
 #endif
-
-    _ht_init_counter++;
 }
 
 HT_Boolean
diff --git a/lib/registry.c b/lib/registry.c
index 1ba6a2e..753d593 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -55,10 +55,10 @@ HT_ErrorCode ht_registry_register_feature(HT_FeatureKlass* klass)
     feature_register[feature_count++] = HT_TRUE;
 
 register_feature_finalize:
-    ht_mutex_unlock(features_register_mutex);
-
     klass->id = feature_id;
 
+    ht_mutex_unlock(features_register_mutex);
+
     return err;
 }
 
@@ -100,19 +100,22 @@ done:
 HT_EventKlassId
 ht_registry_register_event_klass(HT_EventKlass* event_klass)
 {
-    if (event_klass->klass_id == HT_INVALID_KLASS_ID)
-    {
-        ht_mutex_lock(event_klass_registry_register_mutex);
+    HT_EventKlassId klass_id;
 
-        if (ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK)
-        {
-            event_klass->klass_id = (HT_EventKlassId)event_klass_register.size - 1;
-        }
+    ht_mutex_lock(event_klass_registry_register_mutex);
 
-        ht_mutex_unlock(event_klass_registry_register_mutex);
+    klass_id = event_klass->klass_id;
+    /* the identifier can be a leftover from before the library was deinitialized */
+    if (klass_id >= event_klass_register.size || event_klass_register.data[klass_id] != event_klass)
+    {
+        klass_id = ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK ?
+                    (HT_EventKlassId)event_klass_register.size - 1 : HT_INVALID_KLASS_ID;
+        event_klass->klass_id = klass_id;
     }
 
-    return event_klass->klass_id;
+    ht_mutex_unlock(event_klass_registry_register_mutex);
+
+    return klass_id;
 }
 
 HT_EventKlass**
-- 
2.43.0


From e1e7a6d019e7d417ad150a89f9b3c96f15dbc2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:31 +0000
Subject: [PATCH 05/57] fix: a listener group is found by its name and created
 once

Groups were identified by a 32-bit hash of the name, so timelines of
differently named groups could share listeners ('Ab' and 'BA' do). Lookup and
creation were separate steps and the reference count was changed without its
lock: two threads creating timelines with one new name got separate groups,
and a group could be released while in use. A failed registration leaked a
reference.
---
 lib/include/internal/registry.h               |  3 +
 .../internal/timeline_listener_container.h    |  4 +-
 lib/registry.c                                | 64 ++++++++++++++-----
 lib/timeline_listener.c                       | 50 +++++++++++----
 4 files changed, 89 insertions(+), 32 deletions(-)

diff --git a/lib/include/internal/registry.h b/lib/include/internal/registry.h
index 355caa1..1ffa3bd 100644
--- a/lib/include/internal/registry.h
+++ b/lib/include/internal/registry.h
@@ -13,6 +13,9 @@ void ht_registry_deinit(void);
 
 HT_API HT_TimelineListenerContainer* ht_registry_find_listener_container(const char* name);
 
+/* like ht_registry_find_listener_container(), but the caller owns a reference to the result */
+HT_API HT_TimelineListenerContainer* ht_registry_ref_listener_container(const char* name);
+
 HT_API HT_ErrorCode ht_registry_register_listener_container(const char* name, HT_TimelineListenerContainer* container);
 
 HT_DECLS_END
diff --git a/lib/include/internal/timeline_listener_container.h b/lib/include/internal/timeline_listener_container.h
index 106bfdc..b3d1581 100644
--- a/lib/include/internal/timeline_listener_container.h
+++ b/lib/include/internal/timeline_listener_container.h
@@ -9,9 +9,9 @@ typedef struct _HT_TimelineListenerContainer HT_TimelineListenerContainer;
 
 void ht_timeline_listener_container_notify_listeners(HT_TimelineListenerContainer* listeners, TEventPtr events, size_t size, HT_Boolean serialize_events);
 
-uint32_t ht_timeline_listener_container_get_id(HT_TimelineListenerContainer* listeners);
+const char* ht_timeline_listener_container_get_name(HT_TimelineListenerContainer* container);
 
-void ht_timeline_listener_container_set_id(HT_TimelineListenerContainer* container, uint32_t id);
+HT_ErrorCode ht_timeline_listener_container_set_name(HT_TimelineListenerContainer* container, const char* name);
 
 void ht_timeline_listener_container_ref(HT_TimelineListenerContainer* container);
 
diff --git a/lib/registry.c b/lib/registry.c
index 753d593..e865bec 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -1,7 +1,6 @@
 #include "hawktracer/alloc.h"
 #include "hawktracer/core_events.h"
 #include "internal/bag.h"
-#include "internal/hash.h"
 #include "internal/feature.h"
 #include "internal/registry.h"
 #include "internal/mutex.h"
@@ -143,51 +142,82 @@ ht_registry_deinit(void)
     ht_bag_void_ptr_deinit(&event_klass_register);
 }
 
-HT_TimelineListenerContainer*
-ht_registry_find_listener_container(const char* name)
+static HT_TimelineListenerContainer*
+_ht_registry_find_listener_container(const char* name)
 {
     size_t i;
-    uint32_t id = djb2_hash(name);
 
-    ht_mutex_lock(listeners_register_mutex);
     for (i = 0; i < listeners_register.size; i++)
     {
-        if (ht_timeline_listener_container_get_id((HT_TimelineListenerContainer*)listeners_register.data[i]) == id)
+        HT_TimelineListenerContainer* container = (HT_TimelineListenerContainer*)listeners_register.data[i];
+        if (strcmp(ht_timeline_listener_container_get_name(container), name) == 0)
         {
-            HT_TimelineListenerContainer* container = (HT_TimelineListenerContainer*)listeners_register.data[i];
-            ht_mutex_unlock(listeners_register_mutex);
             return container;
         }
     }
-    ht_mutex_unlock(listeners_register_mutex);
 
     return NULL;
 }
 
+HT_TimelineListenerContainer*
+ht_registry_find_listener_container(const char* name)
+{
+    HT_TimelineListenerContainer* container;
+
+    ht_mutex_lock(listeners_register_mutex);
+    container = _ht_registry_find_listener_container(name);
+    ht_mutex_unlock(listeners_register_mutex);
+
+    return container;
+}
+
+HT_TimelineListenerContainer*
+ht_registry_ref_listener_container(const char* name)
+{
+    HT_TimelineListenerContainer* container;
+
+    ht_mutex_lock(listeners_register_mutex);
+    container = _ht_registry_find_listener_container(name);
+    if (container != NULL)
+    {
+        ht_timeline_listener_container_ref(container);
+    }
+    ht_mutex_unlock(listeners_register_mutex);
+
+    return container;
+}
+
 HT_ErrorCode
 ht_registry_register_listener_container(const char* name, HT_TimelineListenerContainer* container)
 {
     HT_ErrorCode error_code;
 
-    if (ht_registry_find_listener_container(name) != NULL)
+    ht_mutex_lock(listeners_register_mutex);
+
+    if (_ht_registry_find_listener_container(name) != NULL)
     {
-        return HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED;
+        error_code = HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED;
+        goto done;
     }
 
-    ht_mutex_lock(listeners_register_mutex);
-    ht_timeline_listener_container_set_id(container, djb2_hash(name));
-    ht_timeline_listener_container_ref(container);
+    error_code = ht_timeline_listener_container_set_name(container, name);
+    if (error_code != HT_ERR_OK)
+    {
+        goto done;
+    }
 
     error_code = ht_bag_void_ptr_add(&listeners_register, container);
     if (error_code != HT_ERR_OK)
     {
-        ht_mutex_unlock(listeners_register_mutex);
-        return error_code;
+        goto done;
     }
 
+    ht_timeline_listener_container_ref(container);
+
+done:
     ht_mutex_unlock(listeners_register_mutex);
 
-    return HT_ERR_OK;
+    return error_code;
 }
 
 #define REGISTRY_LISETNER_BUFF_SIZE 4096
diff --git a/lib/timeline_listener.c b/lib/timeline_listener.c
index 1bdd207..5f3266b 100644
--- a/lib/timeline_listener.c
+++ b/lib/timeline_listener.c
@@ -10,6 +10,7 @@
 #include "internal/system_info.h"
 
 #include <assert.h>
+#include <string.h>
 
 typedef struct
 {
@@ -25,7 +26,7 @@ struct _HT_TimelineListenerContainer
 {
     HT_BagListener entries;
     HT_Mutex* mutex;
-    uint32_t id;
+    char* name;
     uint32_t refcount;
 };
 
@@ -47,15 +48,31 @@ _ht_timeline_listener_container_unregister_all_listeners(
     ht_bag_listener_clear(&container->entries);
 }
 
-uint32_t
-ht_timeline_listener_container_get_id(HT_TimelineListenerContainer* container)
+const char*
+ht_timeline_listener_container_get_name(HT_TimelineListenerContainer* container)
 {
-    return container->id;
+    return container->name;
 }
 
-void ht_timeline_listener_container_set_id(HT_TimelineListenerContainer* container, uint32_t id)
+HT_ErrorCode
+ht_timeline_listener_container_set_name(HT_TimelineListenerContainer* container, const char* name)
 {
-    container->id = id;
+    size_t size = strlen(name) + 1;
+    char* copy = (char*)ht_alloc(size);
+
+    if (copy == NULL)
+    {
+        return HT_ERR_OUT_OF_MEMORY;
+    }
+
+    memcpy(copy, name, size);
+    if (container->name != NULL)
+    {
+        ht_free(container->name);
+    }
+    container->name = copy;
+
+    return HT_ERR_OK;
 }
 
 void
@@ -90,7 +107,7 @@ ht_timeline_listener_container_create(void)
         goto error_create_mutex;
     }
 
-    container->id = 0;
+    container->name = NULL;
     container->refcount = 1;
     goto done;
 
@@ -127,6 +144,10 @@ ht_timeline_listener_container_unref(HT_TimelineListenerContainer* container)
         ht_mutex_unlock(container->mutex);
         ht_mutex_destroy(container->mutex);
 
+        if (container->name != NULL)
+        {
+            ht_free(container->name);
+        }
         ht_free(container);
     }
     else
@@ -180,19 +201,22 @@ ht_find_or_create_listener(const char* name)
     }
     else
     {
-        container = ht_registry_find_listener_container(name);
+        container = ht_registry_ref_listener_container(name);
         if (container == NULL)
         {
             container = ht_timeline_listener_container_create();
             if (container != NULL)
             {
-                ht_registry_register_listener_container(name, container);
+                HT_ErrorCode error_code = ht_registry_register_listener_container(name, container);
+                if (error_code != HT_ERR_OK)
+                {
+                    ht_timeline_listener_container_unref(container);
+                    /* another thread might have been faster */
+                    container = error_code == HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED ?
+                                ht_registry_ref_listener_container(name) : NULL;
+                }
             }
         }
-        else
-        {
-            container->refcount++;
-        }
     }
 
     return container;
-- 
2.43.0


From dff9df7923a7cfc1219bf1256318d323f05b2086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 06/57] fix: creation functions report or survive a failed
 allocation

ht_timeline_create() returned no timeline but HT_ERR_OK, the identifier
provider and the global timeline dereferenced a null pointer, and a task that
could not be stored was leaked.
---
 lib/event_id_provider.cpp |  5 ++++-
 lib/global_timeline.cpp   | 10 +++++++++-
 lib/task_scheduler.c      |  1 +
 lib/timeline.c            |  1 +
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/event_id_provider.cpp b/lib/event_id_provider.cpp
index 405ca79..a117158 100644
--- a/lib/event_id_provider.cpp
+++ b/lib/event_id_provider.cpp
@@ -25,7 +25,10 @@ HT_EventIdProvider*
 ht_event_id_provider_create(void)
 {
     HT_EventIdProvider* provider = HT_CREATE_TYPE(HT_EventIdProvider);
-    provider->current_identifier = 0;
+    if (provider != NULL)
+    {
+        provider->current_identifier = 0;
+    }
     return provider;
 }
 
diff --git a/lib/global_timeline.cpp b/lib/global_timeline.cpp
index 614c10d..e4cf55c 100644
--- a/lib/global_timeline.cpp
+++ b/lib/global_timeline.cpp
@@ -19,6 +19,11 @@ static HT_Timeline* _ht_global_timeline_create(void)
 {
     HT_Timeline* c_timeline = ht_timeline_create(global_timeline_buffer_size, HT_FALSE, HT_TRUE, "HT_GlobalTimeline", NULL);
 
+    if (c_timeline == NULL)
+    {
+        return NULL;
+    }
+
     ht_feature_callstack_enable(c_timeline);
     ht_feature_cached_string_enable(c_timeline, HT_FALSE);
 
@@ -55,7 +60,10 @@ struct GlobalTimeline
 
     ~GlobalTimeline()
     {
-        ht_timeline_destroy(c_timeline);
+        if (c_timeline != NULL)
+        {
+            ht_timeline_destroy(c_timeline);
+        }
     }
 
     HT_Timeline* c_timeline;
diff --git a/lib/task_scheduler.c b/lib/task_scheduler.c
index beb16ca..3bef93d 100644
--- a/lib/task_scheduler.c
+++ b/lib/task_scheduler.c
@@ -109,6 +109,7 @@ ht_task_scheduler_schedule_task(HT_TaskScheduler* task_scheduler,
 
     if (ht_bag_void_ptr_add(&task_scheduler->tasks, task) != HT_ERR_OK)
     {
+        ht_free(task);
         return HT_TASK_SCHEDULER_INVALID_TASK_ID;
     }
 
diff --git a/lib/timeline.c b/lib/timeline.c
index 5ad67bd..14af14b 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -192,6 +192,7 @@ ht_timeline_create(size_t buffer_capacity,
 
     if (timeline == NULL)
     {
+        error_code = HT_ERR_OUT_OF_MEMORY;
         goto done;
     }
 
-- 
2.43.0


From f257ee6d6b8e2a57a4794f29901d9a51411b926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 07/57] fix: cached labels with equal hashes keep their own
 texts and identifiers

A dynamic label whose hash equalled that of another one got that label's
identifier. The mapping event was pushed after releasing the lock, so another
thread could use the identifier before the event announced it, two threads
adding one label leaked a copy or announced it twice, and a failed allocation
was dereferenced or leaked.
---
 lib/feature_cached_string.c | 53 ++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/lib/feature_cached_string.c b/lib/feature_cached_string.c
index 0cd7c8b..31dfc4c 100644
--- a/lib/feature_cached_string.c
+++ b/lib/feature_cached_string.c
@@ -112,16 +112,9 @@ ht_feature_cached_string_destroy(HT_Feature* f)
 static uintptr_t
 ht_feature_cached_string_add_mapping_(HT_Timeline* timeline, HT_HashMap* map, uintptr_t hash, const char* label)
 {
-    HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
     HT_ErrorCode error_code;
-
-    assert(f);
-
-    HT_FCS_LOCK_(f);
-
     const char* ret = ht_hash_map_insert(map, hash, label, &error_code);
 
-    HT_FCS_UNLOCK_(f);
     if (error_code != HT_ERR_OK)
     {
         return 0;
@@ -138,7 +131,17 @@ uintptr_t
 ht_feature_cached_string_add_mapping(HT_Timeline* timeline, const char* label)
 {
     HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
-    return ht_feature_cached_string_add_mapping_(timeline, &f->static_hashes, (uintptr_t)label, label);
+    uintptr_t identifier;
+
+    assert(f);
+
+    HT_FCS_LOCK_(f);
+
+    identifier = ht_feature_cached_string_add_mapping_(timeline, &f->static_hashes, (uintptr_t)label, label);
+
+    HT_FCS_UNLOCK_(f);
+
+    return identifier;
 }
 
 static HT_Boolean
@@ -168,6 +171,7 @@ ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char*
 {
     HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
     uintptr_t hash_value;
+    const char* known_label;
 
     assert(f);
 
@@ -175,22 +179,35 @@ ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char*
 
     HT_FCS_LOCK_(f);
 
-    if (ht_hash_map_get_value(&f->dynamic_hashes, hash_value) == NULL)
+    /* different labels can have the same hash */
+    while ((known_label = ht_hash_map_get_value(&f->dynamic_hashes, hash_value)) != NULL && strcmp(known_label, label) != 0)
     {
-        HT_FCS_UNLOCK_(f);
+        hash_value++;
+    }
 
+    if (known_label == NULL)
+    {
         size_t label_len = strlen(label);
         char* new_label = (char*)ht_alloc(label_len + 1);
-        memcpy(new_label, label, label_len);
-        new_label[label_len] = 0;
-
-        ht_feature_cached_string_add_mapping_(timeline, &f->dynamic_hashes, hash_value, new_label);
-    }
-    else
-    {
-        HT_FCS_UNLOCK_(f);
+        if (new_label == NULL)
+        {
+            hash_value = 0;
+        }
+        else
+        {
+            memcpy(new_label, label, label_len);
+            new_label[label_len] = 0;
+
+            if (ht_feature_cached_string_add_mapping_(timeline, &f->dynamic_hashes, hash_value, new_label) == 0)
+            {
+                ht_free(new_label);
+                hash_value = 0;
+            }
+        }
     }
 
+    HT_FCS_UNLOCK_(f);
+
     return hash_value;
 }
 
-- 
2.43.0


From 1d94c084b4de0906093135738e85257af6a4650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 08/57] fix: looking up an unregistered feature finds nothing

It read outside the table of features.
---
 lib/timeline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/timeline.c b/lib/timeline.c
index 14af14b..54a06ea 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -149,7 +149,7 @@ ht_timeline_set_feature(HT_Timeline* timeline, HT_Feature* feature)
 HT_Feature*
 ht_timeline_get_feature(HT_Timeline* timeline, HT_FeatureKlass* feature_klass)
 {
-    return timeline->features[feature_klass->id];
+    return feature_klass->id < HT_TIMELINE_MAX_FEATURES ? timeline->features[feature_klass->id] : NULL;
 }
 
 
-- 
2.43.0


From 3063e0c60096b29b1e4769a7def25ac2e187aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:37 +0000
Subject: [PATCH 09/57] fix: an absent string is serialised as an empty one

It was written as no bytes at all, so the reader took what followed for the
string and lost its place in the stream.
---
 lib/include/hawktracer/event_macros.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/include/hawktracer/event_macros.h b/lib/include/hawktracer/event_macros.h
index 4c3618b..9b17b3d 100644
--- a/lib/include/hawktracer/event_macros.h
+++ b/lib/include/hawktracer/event_macros.h
@@ -16,7 +16,7 @@
 #define HT_EVENT_RUNTIME_SIZEOF_INTEGER(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
 #define HT_EVENT_RUNTIME_SIZEOF_POINTER(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
 #define HT_EVENT_RUNTIME_SIZEOF_DOUBLE(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
-#define HT_EVENT_RUNTIME_SIZEOF_STRING(VAR_NAME, FIELD, C_TYPE) (VAR_NAME->FIELD ? strlen(VAR_NAME->FIELD) + 1 : 0)
+#define HT_EVENT_RUNTIME_SIZEOF_STRING(VAR_NAME, FIELD, C_TYPE) ((VAR_NAME->FIELD ? strlen(VAR_NAME->FIELD) : 0) + 1)
 #define HT_EVENT_RUNTIME_SIZEOF__(VAR_NAME, DATA_TYPE, C_TYPE, FIELD, ...) +HT_EVENT_RUNTIME_SIZEOF_##DATA_TYPE(VAR_NAME, FIELD, C_TYPE)
 #define HT_EVENT_RUNTIME_SIZEOF_(...) MKCREFLECT_EXPAND_(HT_EVENT_RUNTIME_SIZEOF__(__VA_ARGS__, 0))
 #define HT_EVENT_RUNTIME_SIZEOF(X, USER_DATA) HT_EVENT_RUNTIME_SIZEOF_(USER_DATA, MKCREFLECT_EXPAND_VA_ X)
@@ -28,9 +28,10 @@
 #define HT_EVENT_RUNTIME_SERIALIZE_POINTER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_DOUBLE(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_STRING(C_TYPE, FIELD) do {\
-    size_t len = (VAR_NAME->FIELD) ? strlen(VAR_NAME->FIELD) + 1 : 0; \
-    memcpy(buffer + offset, VAR_NAME->FIELD, len); \
+    size_t len = (VAR_NAME->FIELD) ? strlen(VAR_NAME->FIELD) : 0; \
+    if (len > 0) { memcpy(buffer + offset, VAR_NAME->FIELD, len); } \
     offset += len; \
+    buffer[offset++] = 0; \
 } while (0);
 #define HT_EVENT_RUNTIME_SERIALIZE__(DATA_TYPE, C_TYPE, FIELD, ...) HT_EVENT_RUNTIME_SERIALIZE_##DATA_TYPE(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_(...) MKCREFLECT_EXPAND_(HT_EVENT_RUNTIME_SERIALIZE__(__VA_ARGS__, 0))
-- 
2.43.0


From 5559b38a3ed3d7dba8e0e8705fb639b6b693416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:37 +0000
Subject: [PATCH 10/57] fix: a nested structure is serialised at its own place

It overwrote the start of the event unless it was the first field.
---
 lib/include/hawktracer/event_macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/hawktracer/event_macros.h b/lib/include/hawktracer/event_macros.h
index 9b17b3d..b43375b 100644
--- a/lib/include/hawktracer/event_macros.h
+++ b/lib/include/hawktracer/event_macros.h
@@ -23,7 +23,7 @@
 
 #define HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD) memcpy(buffer + offset, (char*)&VAR_NAME->FIELD, sizeof(VAR_NAME->FIELD)), offset += sizeof(VAR_NAME->FIELD);
 
-#define HT_EVENT_RUNTIME_SERIALIZE_STRUCT(C_TYPE, FIELD) offset += HT_EVENT_SERIALIZE_FUNCTION(C_TYPE)(((HT_Event*)&VAR_NAME->FIELD), buffer);
+#define HT_EVENT_RUNTIME_SERIALIZE_STRUCT(C_TYPE, FIELD) offset += HT_EVENT_SERIALIZE_FUNCTION(C_TYPE)(((HT_Event*)&VAR_NAME->FIELD), buffer + offset);
 #define HT_EVENT_RUNTIME_SERIALIZE_INTEGER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_POINTER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_DOUBLE(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
-- 
2.43.0


From 2e0cfa6f10dbd76d3a952aa231dbbfa6a66ee7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:37 +0000
Subject: [PATCH 11/57] fix: a listener buffer passes on events larger than
 itself

Such an event was serialised past the end of the buffer.
---
 lib/listener_buffer.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/listener_buffer.c b/lib/listener_buffer.c
index 4249e58..a150c4b 100644
--- a/lib/listener_buffer.c
+++ b/lib/listener_buffer.c
@@ -3,7 +3,6 @@
 #include "internal/listener_buffer.h"
 
 #include <string.h>
-#include <assert.h>
 
 #define HT_MIN(a, b) (((a) > (b)) ? (b) : (a))
 #define HT_IS_BYPASS_MODE(buffer) (buffer->max_size == 0)
@@ -75,18 +74,31 @@ ht_listener_buffer_process_unserialized_events(HT_ListenerBuffer* buffer,
 {
     size_t i;
 
-    assert(!HT_IS_BYPASS_MODE(buffer));
-
     for (i = 0; i < size;)
     {
         HT_Event* event = HT_EVENT(events + i);
+        size_t event_size = HT_EVENT_GET_KLASS(event)->get_size(event);
 
-        if (HT_EVENT_GET_KLASS(event)->get_size(event) + buffer->usage > buffer->max_size)
+        if (buffer->usage > 0 && event_size + buffer->usage > buffer->max_size)
         {
             ht_listener_buffer_flush(buffer, flush_callback, listener);
         }
 
-        buffer->usage += HT_EVENT_GET_KLASS(event)->serialize(event, buffer->data + buffer->usage);
+        if (event_size > buffer->max_size)
+        {
+            HT_Byte* data = (HT_Byte*)ht_alloc(event_size);
+            if (data != NULL)
+            {
+                HT_EVENT_GET_KLASS(event)->serialize(event, data);
+                flush_callback(listener, data, event_size);
+                ht_free(data);
+            }
+        }
+        else
+        {
+            buffer->usage += HT_EVENT_GET_KLASS(event)->serialize(event, buffer->data + buffer->usage);
+        }
+
         i += HT_EVENT_GET_KLASS(event)->type_info->size;
     }
 }
-- 
2.43.0


From 3826478ab9105dce5d6dcaa672464786d9c6ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:37 +0000
Subject: [PATCH 12/57] fix: releasing nothing does not call the user's
 allocator

realloc(NULL, 0), which it was asked for, is an allocation.
---
 lib/alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/alloc.c b/lib/alloc.c
index f80e603..76f1db9 100644
--- a/lib/alloc.c
+++ b/lib/alloc.c
@@ -27,7 +27,7 @@ void ht_free(void* ptr)
     {
         free(ptr);
     }
-    else
+    else if (ptr != NULL)
     {
         realloc_fnc_(ptr, 0, user_data_);
     }
-- 
2.43.0


From 278abcdd533149ce1d403e49ac57c42cfeae6581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:13 +0000
Subject: [PATCH 13/57] fix: class descriptions of any size fit their way to a
 listener

The space left was computed for the serialised form even when the plain
structures were copied, and a name longer than the buffer did not fit an
empty one either: both wrote past the end of the buffer on the stack.
---
 lib/registry.c | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index e865bec..28fbdb6 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -256,35 +256,54 @@ _ht_registry_init_event_klass_field_info_event(HT_EventKlass* klass, size_t fiel
 }
 
 static size_t
-_ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
+_ht_registry_push_event_to_listener(HT_Event* event, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
 {
-    size_t j;
+    HT_EventKlass* klass = HT_EVENT_GET_KLASS(event);
+    size_t event_size = serialize ? klass->get_size(event) : klass->type_info->size;
     size_t total_size = 0;
-    HT_DECL_EVENT(HT_EventKlassInfoEvent, event);
-    _ht_registry_init_event_klass_info_event(klass, &event);
 
-    if (ht_HT_EventKlassInfoEvent_get_size(HT_EVENT(&event)) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
+    if (*data_pos > 0 && event_size > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
     {
         callback(data, *data_pos, serialize, listener);
         total_size += *data_pos;
         *data_pos = 0;
     }
 
-    *data_pos += ht_event_utils_serialize_event_to_buffer(HT_EVENT(&event), data + *data_pos, serialize);
+    if (event_size > REGISTRY_LISETNER_BUFF_SIZE)
+    {
+        HT_Byte* event_data = (HT_Byte*)ht_alloc(event_size);
+        if (event_data != NULL)
+        {
+            ht_event_utils_serialize_event_to_buffer(event, event_data, serialize);
+            callback(event_data, event_size, serialize, listener);
+            total_size += event_size;
+            ht_free(event_data);
+        }
+    }
+    else
+    {
+        *data_pos += ht_event_utils_serialize_event_to_buffer(event, data + *data_pos, serialize);
+    }
+
+    return total_size;
+}
+
+static size_t
+_ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
+{
+    size_t j;
+    size_t total_size = 0;
+    HT_DECL_EVENT(HT_EventKlassInfoEvent, event);
+    _ht_registry_init_event_klass_info_event(klass, &event);
+
+    total_size += _ht_registry_push_event_to_listener(HT_EVENT(&event), data, data_pos, callback, listener, serialize);
 
     for (j = 0; j < klass->type_info->fields_count; j++)
     {
         HT_DECL_EVENT(HT_EventKlassFieldInfoEvent, field_event);
         _ht_registry_init_event_klass_field_info_event(klass, j, &field_event);
 
-        if (ht_HT_EventKlassFieldInfoEvent_get_size(HT_EVENT(&field_event)) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
-        {
-            callback(data, *data_pos, serialize, listener);
-            total_size += *data_pos;
-            *data_pos = 0;
-        }
-
-        *data_pos += ht_event_utils_serialize_event_to_buffer(HT_EVENT(&field_event), data + *data_pos, serialize);
+        total_size += _ht_registry_push_event_to_listener(HT_EVENT(&field_event), data, data_pos, callback, listener, serialize);
     }
 
     return total_size;
-- 
2.43.0


From a8970c71118011f3ff283c9c67d4e6db04e173b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:35 +0000
Subject: [PATCH 14/57] fix: the reader ends at undescribed classes and invalid
 descriptions

---
 parser/event_klass.cpp                        |  4 +-
 .../hawktracer/parser/klass_register.hpp      |  2 +
 .../hawktracer/parser/protocol_reader.hpp     |  1 +
 parser/klass_register.cpp                     | 35 +++++++++++++-
 parser/protocol_reader.cpp                    | 46 ++++++++++++++++---
 5 files changed, 79 insertions(+), 9 deletions(-)

diff --git a/parser/event_klass.cpp b/parser/event_klass.cpp
index 3e39284..ba35633 100644
--- a/parser/event_klass.cpp
+++ b/parser/event_klass.cpp
@@ -81,7 +81,7 @@ FieldTypeId get_type_id(uint64_t type_size, HT_MKCREFLECT_Types_Ext data_type)
         break;
     case HT_MKCREFLECT_TYPES_EXT_STRUCT:
         return FieldTypeId::STRUCT;
-    default: assert(0); // TODO other types
+    default: // TODO other types
         throw std::runtime_error("invalid type id");
     }
 }
@@ -107,7 +107,7 @@ std::shared_ptr<const EventKlassField> EventKlass::_get_field(const char* name,
         {
             return field;
         }
-        else if (field->get_type_id() == FieldTypeId::STRUCT && recursive)
+        else if (field->get_type_id() == FieldTypeId::STRUCT && recursive && field->get_klass())
         {
             auto base_field = field->get_klass()->get_field(name, recursive);
             if (base_field)
diff --git a/parser/include/hawktracer/parser/klass_register.hpp b/parser/include/hawktracer/parser/klass_register.hpp
index 77fdd63..bf0c7d6 100644
--- a/parser/include/hawktracer/parser/klass_register.hpp
+++ b/parser/include/hawktracer/parser/klass_register.hpp
@@ -41,6 +41,8 @@ private:
     void _add_klass(std::unique_ptr<EventKlass> klass);
     void _add_klass_field(HT_EventKlassId klass_id, std::unique_ptr<EventKlassField> field);
 
+    bool _contains_klass(const std::string& container_name, const std::string& klass_name) const;
+
     using lock_guard = std::lock_guard<std::mutex>;
 
     mutable std::mutex _register_mtx;
diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 819b0ec..1b81cd3 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -39,6 +39,7 @@ private:
     bool _read_numeric(FieldType& value, const EventKlassField& field);
     bool _read_struct(FieldType& value, const EventKlassField& field, Event* event, Event* base_event);
 
+    bool _handle_register_event(const Event& event);
     void _call_callbacks(const Event& event);
 
     KlassRegister* _klass_register;
diff --git a/parser/klass_register.cpp b/parser/klass_register.cpp
index c5430a1..b22ecd9 100644
--- a/parser/klass_register.cpp
+++ b/parser/klass_register.cpp
@@ -2,6 +2,8 @@
 #include "hawktracer/parser/event.hpp"
 #include "hawktracer/parser/make_unique.hpp"
 
+#include <stdexcept>
+
 namespace HawkTracer {
 namespace parser {
 
@@ -121,7 +123,38 @@ void KlassRegister::_add_klass(std::unique_ptr<EventKlass> klass)
 void KlassRegister::_add_klass_field(HT_EventKlassId klass_id, std::unique_ptr<EventKlassField> field)
 {
     lock_guard l(_register_mtx);
-    _register.at(klass_id)->add_field(std::move(field));
+    auto& klass = _register.at(klass_id);
+    if (field->get_type_id() == FieldTypeId::STRUCT && _contains_klass(field->get_type_name(), klass->get_name()))
+    {
+        throw std::runtime_error("event class contains itself");
+    }
+    klass->add_field(std::move(field));
+}
+
+bool KlassRegister::_contains_klass(const std::string& container_name, const std::string& klass_name) const
+{
+    if (container_name == klass_name)
+    {
+        return true;
+    }
+
+    for (const auto& klass : _register)
+    {
+        if (klass.second->get_name() != container_name)
+        {
+            continue;
+        }
+
+        for (const auto& field : klass.second->get_fields())
+        {
+            if (field->get_type_id() == FieldTypeId::STRUCT && _contains_klass(field->get_type_name(), klass_name))
+            {
+                return true;
+            }
+        }
+    }
+
+    return false;
 }
 
 bool KlassRegister::klass_exists(HT_EventKlassId klass_id) const
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 4c4a7cd..66971b2 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -6,6 +6,7 @@
 #include <cassert>
 #include <cstring>
 #include <cstdlib>
+#include <exception>
 
 namespace HawkTracer
 {
@@ -17,9 +18,6 @@ ProtocolReader::ProtocolReader(KlassRegister* klass_register, std::unique_ptr<St
     _stream(std::move(stream)),
     _flat_events(flat_events)
 {
-    register_events_listener([this] (const Event& event) {
-        _klass_register->handle_register_events(event);
-    });
 }
 
 ProtocolReader::~ProtocolReader()
@@ -81,7 +79,13 @@ void ProtocolReader::_read_events()
             continue;
         }
 
-        Event event(_klass_register->get_klass(base_event.get_value<uint32_t>("klass_id")));
+        auto klass = _klass_register->get_klass(klass_id);
+        if (!klass)
+        {
+            break; // the class has not been described
+        }
+
+        Event event(std::move(klass));
         if (_flat_events)
         {
             _read_event(is_error, event, nullptr);
@@ -102,6 +106,11 @@ void ProtocolReader::_read_events()
             _endianness = static_cast<HT_Endianness>(event.get_value<uint8_t>("endianness"));
         }
 
+        if (!_handle_register_event(event))
+        {
+            break;
+        }
+
         _call_callbacks(event);
     }
 
@@ -224,9 +233,20 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
     }
     else
     {
+        auto klass = _klass_register->get_klass(field.get_type_name());
+        if (!klass)
+        {
+            return false;
+        }
+
         bool is_error;
-        Event sub_event(_klass_register->get_klass(_klass_register->get_klass_id(field.get_type_name())));
+        Event sub_event(std::move(klass));
         _read_event(is_error, sub_event, base_event);
+        if (is_error)
+        {
+            return false;
+        }
+
         if (_flat_events)
         {
             event->merge(std::move(sub_event));
@@ -235,10 +255,24 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
         {
             value.f_EVENT = new Event(std::move(sub_event));
         }
-        return !is_error;
+        return true;
     }
 }
 
+bool ProtocolReader::_handle_register_event(const Event& event)
+{
+    try
+    {
+        _klass_register->handle_register_events(event);
+    }
+    catch (const std::exception&)
+    {
+        return false; // the stream contains an invalid class description
+    }
+
+    return true;
+}
+
 void ProtocolReader::_call_callbacks(const Event& event)
 {
     for (const auto& callback : _on_new_event_callbacks)
-- 
2.43.0


From fb2812157cc2504f7539d13773c3c4abb9e6f0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:02 +0000
Subject: [PATCH 15/57] fix: structures nested in an event are read with their
 own base

---
 .../hawktracer/parser/protocol_reader.hpp     |  4 +--
 parser/protocol_reader.cpp                    | 25 ++++++++++++-------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 1b81cd3..3571023 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -34,10 +34,10 @@ public:
 
 private:
     void _read_events();
-    void _read_event(bool& is_error, Event& event, Event* base_event);
+    void _read_event(bool& is_error, Event& event, Event* base_event, bool is_base_read);
     bool _read_string(FieldType& value);
     bool _read_numeric(FieldType& value, const EventKlassField& field);
-    bool _read_struct(FieldType& value, const EventKlassField& field, Event* event, Event* base_event);
+    bool _read_struct(FieldType& value, const EventKlassField& field, Event* event, Event* base_event, bool is_base_read);
 
     bool _handle_register_event(const Event& event);
     void _call_callbacks(const Event& event);
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 66971b2..6987fff 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -64,7 +64,7 @@ void ProtocolReader::_read_events()
     {
         bool is_error = false;
         Event base_event(_klass_register->get_klass(to_underlying(WellKnownKlasses::EventKlass)));
-        _read_event(is_error, base_event, nullptr);
+        _read_event(is_error, base_event, nullptr, true);
 
         if (is_error)
         {
@@ -88,12 +88,12 @@ void ProtocolReader::_read_events()
         Event event(std::move(klass));
         if (_flat_events)
         {
-            _read_event(is_error, event, nullptr);
+            _read_event(is_error, event, nullptr, true);
             event.merge(std::move(base_event));
         }
         else
         {
-            _read_event(is_error, event, &base_event);
+            _read_event(is_error, event, &base_event, true);
         }
 
         if (is_error)
@@ -118,14 +118,14 @@ void ProtocolReader::_read_events()
     _cv.notify_one();
 }
 
-void ProtocolReader::_read_event(bool& is_error, Event& event, Event* base_event)
+void ProtocolReader::_read_event(bool& is_error, Event& event, Event* base_event, bool is_base_read)
 {
     for (const auto& field : event.get_klass()->get_fields())
     {
         FieldType value{};
         if (((field->is_numeric() || field->get_type_id() == FieldTypeId::POINTER) && !_read_numeric(value, *field)) || // read numeric or pointer
                 (field->get_type_id() == FieldTypeId::STRING && !_read_string(value)) || // read string
-                (field->get_type_id() == FieldTypeId::STRUCT && !_read_struct(value, *field, &event, base_event))) // read struct
+                (field->get_type_id() == FieldTypeId::STRUCT && !_read_struct(value, *field, &event, base_event, is_base_read))) // read struct
         {
             is_error = true;
             return;
@@ -220,9 +220,12 @@ bool ProtocolReader::_read_numeric(FieldType& value, const EventKlassField& fiel
     return true;
 }
 
-bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field, Event* event, Event* base_event)
+bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field, Event* event, Event* base_event, bool is_base_read)
 {
-    if (field.get_type_name() == "HT_Event" && field.get_name() == "base")
+    // only the base of the event itself precedes the event, bases of other structures follow in place
+    is_base_read = is_base_read && field.get_name() == "base";
+
+    if (field.get_type_name() == "HT_Event" && is_base_read)
     {
         if (!_flat_events)
         {
@@ -241,7 +244,7 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
 
         bool is_error;
         Event sub_event(std::move(klass));
-        _read_event(is_error, sub_event, base_event);
+        _read_event(is_error, sub_event, base_event, is_base_read);
         if (is_error)
         {
             return false;
@@ -249,7 +252,11 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
 
         if (_flat_events)
         {
-            event->merge(std::move(sub_event));
+            // timestamp and identifier of a nested structure must not replace those of the event
+            if (field.get_type_name() != "HT_Event")
+            {
+                event->merge(std::move(sub_event));
+            }
         }
         else
         {
-- 
2.43.0


From a5d16d4facd90fa0de8055c25c7cc274adeb3dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:02 +0000
Subject: [PATCH 16/57] fix: an invalid byte order in a stream is not stored as
 an enumerator

---
 parser/protocol_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 6987fff..120a6bd 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -103,7 +103,7 @@ void ProtocolReader::_read_events()
 
         if (klass_id == to_underlying(WellKnownKlasses::EndiannessInfoEventKlass))
         {
-            _endianness = static_cast<HT_Endianness>(event.get_value<uint8_t>("endianness"));
+            _endianness = event.get_value<uint8_t>("endianness") == HT_ENDIANNESS_LITTLE ? HT_ENDIANNESS_LITTLE : HT_ENDIANNESS_BIG;
         }
 
         if (!_handle_register_event(event))
-- 
2.43.0


From de192285b2c30e94812159305e6d6133a6fb5c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:05 +0000
Subject: [PATCH 17/57] fix: waiting for the end of a stream cannot miss it

---
 parser/include/hawktracer/parser/protocol_reader.hpp | 2 +-
 parser/protocol_reader.cpp                           | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 3571023..ab4aea5 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -46,7 +46,7 @@ private:
     std::vector<OnNewEventCallback> _on_new_event_callbacks;
     std::unique_ptr<Stream> _stream;
     std::thread _thread;
-    std::atomic_bool _is_running;
+    std::atomic_bool _is_running{false};
     std::condition_variable _cv;
     std::mutex _mtx_cv;
     bool _flat_events;
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 120a6bd..f4234e5 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -114,8 +114,11 @@ void ProtocolReader::_read_events()
         _call_callbacks(event);
     }
 
-    _is_running = false;
-    _cv.notify_one();
+    {
+        std::lock_guard<std::mutex> l(_mtx_cv);
+        _is_running = false;
+    }
+    _cv.notify_all();
 }
 
 void ProtocolReader::_read_event(bool& is_error, Event& event, Event* base_event, bool is_base_read)
-- 
2.43.0


From d087ee41765cd18c30327be8f341b93d45386962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:05 +0000
Subject: [PATCH 18/57] fix: stopping a reader does not wait for data that
 never comes

---
 parser/protocol_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index f4234e5..daa4b1f 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -45,6 +45,10 @@ bool ProtocolReader::start()
 void ProtocolReader::stop()
 {
     _is_running = false;
+    if (_stream->is_continuous())
+    {
+        _stream->stop(); // the reader might be waiting for data that never comes
+    }
     if (_thread.joinable())
     {
         _thread.join();
-- 
2.43.0


From 22691c52517175d4809bc584c658b6172810cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:05 +0000
Subject: [PATCH 19/57] fix: a block read of a file succeeds only if all bytes
 were read

---
 parser/file_stream.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/file_stream.cpp b/parser/file_stream.cpp
index dc610e6..b8cdeb0 100644
--- a/parser/file_stream.cpp
+++ b/parser/file_stream.cpp
@@ -30,8 +30,7 @@ void FileStream::stop()
 
 bool FileStream::read_data(char* buff, size_t size)
 {
-    fread(buff, 1, size, _file);
-    return !feof(_file);
+    return fread(buff, 1, size, _file) == size;
 }
 
 int FileStream::read_byte()
-- 
2.43.0


From 5e2ec3218a1106edd7bdb8e7c78b605d7852eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:14 +0000
Subject: [PATCH 20/57] fix: the network stream ends, stops and restarts on
 every schedule, and passes bytes above 127

recv() was not woken up by close(), the end was signalled without the lock (and
could be missed), both threads closed the socket, an ended stream could not be
started again, and read_byte() returned bytes above 127 as errors.
---
 .../client_utils/tcp_client_stream.hpp        |  1 +
 client_utils/tcp_client_stream.cpp            | 57 +++++++++++++------
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp b/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
index 54b6135..5cb10e7 100644
--- a/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
+++ b/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
@@ -32,6 +32,7 @@ public:
 
 private:
     void _run();
+    void _disconnect();
 
     bool _wait_for_data(std::unique_lock<std::mutex>& l);
     void _pop_if_used() { if (_datas.front().second.size() == _datas.front().first) { _datas.pop(); } }
diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index b06546c..2d4db0f 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -6,8 +6,10 @@
 #pragma comment(lib, "Ws2_32.lib")
 #else
 #include <arpa/inet.h>
+#include <sys/socket.h>
 #include <unistd.h>
 #endif
+#include <cerrno>
 #include <cstring>
 
 namespace HawkTracer
@@ -25,6 +27,15 @@ static int close_socket(int sock_fd)
 #endif
 }
 
+static int shutdown_socket(int sock_fd)
+{
+#ifdef _WIN32
+    return shutdown(sock_fd, SD_BOTH);
+#else
+    return shutdown(sock_fd, SHUT_RDWR);
+#endif
+}
+
 TCPClientStream::TCPClientStream(const std::string& ip_address, uint16_t port, bool wait_for_server) :
     _sock_fd(-1),
     _ip_address(ip_address),
@@ -40,10 +51,11 @@ TCPClientStream::~TCPClientStream()
 
 bool TCPClientStream::start()
 {
-    if (is_connected())
+    if (is_connected() || _thread.joinable())
     {
         stop();
     }
+    _datas = {};
 
 #ifdef _WIN32
     WSAData wsa_data;
@@ -89,36 +101,47 @@ bool TCPClientStream::start()
 
 void TCPClientStream::stop()
 {
-    if (is_connected())
     {
-        close_socket(_sock_fd);
-        _sock_fd = -1;
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        if (is_connected())
+        {
+            shutdown_socket(_sock_fd); // wakes up the receiving thread, if any
+        }
+    }
+
+    if (_thread.joinable())
+    {
+        _thread.join();
     }
 
+    _disconnect();
+
 #ifdef _WIN32
     WSACleanup();
 #endif
+}
 
-    if (_thread.joinable())
+void TCPClientStream::_disconnect()
+{
     {
-        _thread.join();
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        if (is_connected())
+        {
+            close_socket(_sock_fd);
+            _sock_fd = -1;
+        }
     }
+    _datas_cv.notify_all();
 }
 
 void TCPClientStream::_run()
 {
     char buf[BUFSIZE];
+    int size;
 
-    while (is_connected())
+    while ((size = recv(_sock_fd, buf, BUFSIZE, 0)) > 0 || (size == -1 && errno == EINTR))
     {
-        int size = recv(_sock_fd, buf, BUFSIZE, 0);
-        
-        if (size == 0 || size == -1)
-        {
-            close_socket(_sock_fd);
-            _sock_fd = -1;
-        }
-        else if (size > 0)
+        if (size > 0)
         {
             {
                 std::lock_guard<std::mutex> l(_datas_mtx);
@@ -128,7 +151,7 @@ void TCPClientStream::_run()
         }
     }
 
-    _datas_cv.notify_one();
+    _disconnect();
 }
 
 bool TCPClientStream::is_connected() const
@@ -153,7 +176,7 @@ int TCPClientStream::read_byte()
     else
     {
         auto& buffer = _datas.front();
-        int b = buffer.second[buffer.first++];
+        int b = static_cast<unsigned char>(buffer.second[buffer.first++]);
         _pop_if_used();
         return b;
     }
-- 
2.43.0


From 330e958a8faf1d0440acfbd9810e68a2401e07c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:23 +0000
Subject: [PATCH 21/57] fix: a task removed by a callback is released after the
 tick

A callback that removed its own task made the tick use the freed task; one
that removed another task moved the last task to a position that had been
visited already, so that a due task did not run.
---
 lib/task_scheduler.c | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/lib/task_scheduler.c b/lib/task_scheduler.c
index 3bef93d..7c98152 100644
--- a/lib/task_scheduler.c
+++ b/lib/task_scheduler.c
@@ -12,6 +12,7 @@ struct _HT_TaskScheduler
 {
     HT_BagVoidPtr tasks;
     HT_TaskId next_task_id;
+    HT_Boolean is_ticking;
 };
 
 typedef struct
@@ -60,6 +61,7 @@ ht_task_scheduler_create(HT_ErrorCode* out_err)
     }
 
     task_scheduler->next_task_id = 0;
+    task_scheduler->is_ticking = HT_FALSE;
 
 done:
     HT_SET_ERROR(out_err, error_code);
@@ -122,11 +124,14 @@ ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
     size_t i;
     HT_Boolean result;
 
+    /* tasks removed by callbacks stay in the list until all the tasks have been visited */
+    task_scheduler->is_ticking = HT_TRUE;
+
     for (i = 0; i < task_scheduler->tasks.size; i++)
     {
         HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
         HT_TimestampNs now_ts = ht_monotonic_clock_get_timestamp();
-        if (task->next_action_ts > now_ts)
+        if (task->id == HT_TASK_SCHEDULER_INVALID_TASK_ID || task->next_action_ts > now_ts)
         {
             continue;
         }
@@ -135,9 +140,7 @@ ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
 
         if (result == HT_FALSE)
         {
-            ht_bag_void_ptr_remove_nth(&task_scheduler->tasks, i);
-            ht_free(task);
-            i--;
+            task->id = HT_TASK_SCHEDULER_INVALID_TASK_ID;
         }
         else
         {
@@ -146,6 +149,22 @@ ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
                         ht_monotonic_clock_get_timestamp() + task->period;
         }
     }
+
+    task_scheduler->is_ticking = HT_FALSE;
+
+    for (i = 0; i < task_scheduler->tasks.size;)
+    {
+        HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
+        if (task->id == HT_TASK_SCHEDULER_INVALID_TASK_ID)
+        {
+            ht_bag_void_ptr_remove_nth(&task_scheduler->tasks, i);
+            ht_free(task);
+        }
+        else
+        {
+            i++;
+        }
+    }
 }
 
 static void
@@ -176,8 +195,15 @@ ht_task_scheduler_remove_task(HT_TaskScheduler* task_scheduler, HT_TaskId task_i
         HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
         if (task->id == task_id)
         {
-            ht_task_scheduler_remove_task_entry(&task_scheduler->tasks, task);
-            ht_free(task);
+            if (task_scheduler->is_ticking)
+            {
+                task->id = HT_TASK_SCHEDULER_INVALID_TASK_ID;
+            }
+            else
+            {
+                ht_task_scheduler_remove_task_entry(&task_scheduler->tasks, task);
+                ht_free(task);
+            }
             return HT_TRUE;
         }
     }
@@ -193,9 +219,10 @@ ht_task_scheduler_get_optimal_tick_period(HT_TaskScheduler* task_scheduler)
 
     for (task_pos = 0; task_pos < task_scheduler->tasks.size; task_pos++)
     {
-        HT_DurationNs task_period = HT_TASK(task_scheduler->tasks.data[task_pos])->period;
+        HT_Task* task = HT_TASK(task_scheduler->tasks.data[task_pos]);
+        HT_DurationNs task_period = task->period;
 
-        if (task_period == 0)
+        if (task->id == HT_TASK_SCHEDULER_INVALID_TASK_ID || task_period == 0)
         {
             continue;
         }
-- 
2.43.0


From 436f6a3706f85d0ad030d8a52786837e305265c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:42 +0000
Subject: [PATCH 22/57] fix: a disconnected TCP client or a signal doesn't
 break the traced process

Sending to a client that had disconnected raised SIGPIPE, which ends the
process by default; a send interrupted by a signal cut the client's stream
in the middle of an event.
---
 lib/tcp_server.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 742d457..a73f10d 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -105,10 +105,15 @@ ht_thread_destroy(HT_Thread* th)
 #include <netinet/in.h>
 #include <sys/socket.h>
 #include <unistd.h>
+#include <errno.h>
 #endif
 
 #include <string.h>
 
+#ifndef MSG_NOSIGNAL
+#  define MSG_NOSIGNAL 0
+#endif
+
 static void *_ht_tcp_server_run(void *user_data);
 
 struct _HT_TCPServer
@@ -268,7 +273,14 @@ ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, s
 
     while (sent < size)
     {
-        int n = send(sock_fd, buffer + sent, size - sent, 0);
+        int n = send(sock_fd, buffer + sent, size - sent, MSG_NOSIGNAL);
+
+#ifndef _WIN32
+        if (n < 0 && errno == EINTR)
+        {
+            continue;
+        }
+#endif
 
         if (n <= 0)
         {
-- 
2.43.0


From 809595188eb0ec7d65e853295571d46d14abfbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:42 +0000
Subject: [PATCH 23/57] fix: stopping a TCP listener and serving its new
 clients

Stop unlocked the mutex twice, waited for the accepting thread with the
mutex locked, crashed when called again and never closed the connections.
A client that connected during a delivery could get the second part of an
event first. Failures of creation used uninitialized fields.
---
 lib/include/internal/listeners/tcp_server.h |  6 +-
 lib/listeners/tcp_listener.c                | 67 +++++++++++-----
 lib/tcp_server.cpp                          | 84 +++++++++++++++++----
 3 files changed, 123 insertions(+), 34 deletions(-)

diff --git a/lib/include/internal/listeners/tcp_server.h b/lib/include/internal/listeners/tcp_server.h
index e798f6a..1510c65 100644
--- a/lib/include/internal/listeners/tcp_server.h
+++ b/lib/include/internal/listeners/tcp_server.h
@@ -6,7 +6,9 @@
 HT_DECLS_BEGIN
 
 typedef struct _HT_TCPServer HT_TCPServer;
-typedef void(*OnClientConnected)(int, void*);
+/* Returns false if the client should be disconnected; otherwise it must have been
+ * handed over to the server by ht_tcp_server_add_client() */
+typedef HT_Boolean(*OnClientConnected)(int, void*);
 
 HT_TCPServer* ht_tcp_server_create(void);
 
@@ -18,6 +20,8 @@ HT_Boolean ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected
 
 void ht_tcp_server_stop(HT_TCPServer* server);
 
+HT_Boolean ht_tcp_server_add_client(HT_TCPServer* server, int sock_fd);
+
 HT_Boolean ht_tcp_server_is_running(const HT_TCPServer* server);
 
 HT_Boolean ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, size_t size);
diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index a6ce6a3..86e7b5c 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -52,22 +52,31 @@ ht_tcp_listener_metadata_pusher(TEventPtr e, size_t c, HT_Boolean serialized, vo
     assert(serialized);
     (void) serialized;
     HT_TCPListener* listener = (HT_TCPListener*)user_data;
-    ht_mutex_lock(listener->_push_action_mutex);
     ht_tcp_server_write_to_socket(listener->_tcp_server, listener->_last_client_sock_fd, (char*)e, c);
-    ht_mutex_unlock(listener->_push_action_mutex);
 }
 
-static void
+static HT_Boolean
 ht_tcp_listener_client_connected(int sock_fd, void* user_data)
 {
+    HT_Boolean accepted = HT_FALSE;
     HT_TCPListener* listener = (HT_TCPListener*)user_data;
-    listener->_last_client_sock_fd = sock_fd;
-    ht_timeline_listener_push_metadata(ht_tcp_listener_metadata_pusher, user_data, HT_TRUE);
 
-    if (listener->_client_connected_callback)
+    /* no events can be sent between the metadata and the moment when the client starts getting them */
+    ht_mutex_lock(listener->_push_action_mutex);
+    if (!_ht_tcp_listener_is_stopped(listener))
+    {
+        listener->_last_client_sock_fd = sock_fd;
+        ht_timeline_listener_push_metadata(ht_tcp_listener_metadata_pusher, user_data, HT_TRUE);
+        accepted = ht_tcp_server_add_client(listener->_tcp_server, sock_fd);
+    }
+    ht_mutex_unlock(listener->_push_action_mutex);
+
+    if (accepted && listener->_client_connected_callback)
     {
         listener->_client_connected_callback(sock_fd, listener->_client_connected_user_data);
     }
+
+    return accepted;
 }
 
 static HT_ErrorCode
@@ -76,22 +85,42 @@ ht_tcp_listener_init(HT_TCPListener* listener, int port, size_t buffer_size)
     HT_ErrorCode error_code = ht_listener_buffer_init(&listener->_buffer, buffer_size);
     if (error_code != HT_ERR_OK)
     {
-        return error_code;
+        goto done;
     }
 
     listener->_last_client_sock_fd = 0;
     listener->_was_flushed = HT_FALSE;
+    listener->_client_connected_callback = NULL;
+    listener->_client_connected_user_data = NULL;
 
-    // TODO handle if return null
     listener->_push_action_mutex = ht_mutex_create();
+    if (listener->_push_action_mutex == NULL)
+    {
+        error_code = HT_ERR_OUT_OF_MEMORY;
+        goto error_mutex;
+    }
+
     listener->_tcp_server = ht_tcp_server_create();
+    if (listener->_tcp_server == NULL)
+    {
+        error_code = HT_ERR_OUT_OF_MEMORY;
+        goto error_server;
+    }
 
     if (ht_tcp_server_start(listener->_tcp_server, port, ht_tcp_listener_client_connected, listener))
     {
-        return HT_ERR_OK;
+        goto done;
     }
 
-    return HT_ERR_CANT_START_TCP_SERVER;
+    error_code = HT_ERR_CANT_START_TCP_SERVER;
+
+    ht_tcp_server_destroy(listener->_tcp_server);
+error_server:
+    ht_mutex_destroy(listener->_push_action_mutex);
+error_mutex:
+    ht_listener_buffer_deinit(&listener->_buffer);
+done:
+    return error_code;
 }
 
 static void
@@ -141,7 +170,7 @@ ht_tcp_listener_create(int port, size_t buffer_size, HT_ErrorCode* out_err)
     HT_ErrorCode error_code = ht_tcp_listener_init(listener, port, buffer_size);
     if (error_code != HT_ERR_OK)
     {
-        ht_tcp_listener_destroy(listener);
+        ht_free(listener);
         listener = NULL;
     }
 
@@ -189,10 +218,7 @@ ht_tcp_listener_set_on_client_connected_callback(
 void
 ht_tcp_listener_destroy(HT_TCPListener* listener)
 {
-    if (!_ht_tcp_listener_is_stopped(listener))
-    {
-        ht_tcp_listener_stop(listener);
-    }
+    ht_tcp_listener_stop(listener);
     ht_mutex_destroy(listener->_push_action_mutex);
     ht_free(listener);
 }
@@ -206,22 +232,25 @@ ht_tcp_listener_callback(TEventPtr events, size_t size, HT_Boolean serialized, v
 void
 ht_tcp_listener_stop(HT_TCPListener* listener)
 {
+    HT_TCPServer* tcp_server;
+
     ht_mutex_lock(listener->_push_action_mutex);
 
-    if (!_ht_tcp_listener_is_stopped(listener))
+    if (_ht_tcp_listener_is_stopped(listener))
     {
         ht_mutex_unlock(listener->_push_action_mutex);
+        return;
     }
 
     ht_tcp_listener_flush(listener);
-    ht_tcp_server_stop(listener->_tcp_server);
     ht_listener_buffer_deinit(&listener->_buffer);
-    ht_tcp_server_destroy(listener->_tcp_server);
+    tcp_server = listener->_tcp_server;
     listener->_tcp_server = NULL;
 
     ht_mutex_unlock(listener->_push_action_mutex);
 
-    ht_mutex_unlock(listener->_push_action_mutex);
+    /* the mutex can't be held here, because the server's thread might be waiting for it */
+    ht_tcp_server_destroy(tcp_server);
 }
 
 #endif /* HT_ENABLE_TCP_LISTENER */
diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index a73f10d..e8dfd7b 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -56,6 +56,10 @@ static HT_Thread*
 ht_thread_create(ht_thread_callback_t callback, void* user_data)
 {
     HT_Thread* th = HT_CREATE_TYPE(HT_Thread);
+    if (!th)
+    {
+        return NULL;
+    }
 
 #ifdef HT_THREAD_IMPL_CPP11
     new(&th->th) HT_Thread();
@@ -116,6 +120,16 @@ ht_thread_destroy(HT_Thread* th)
 
 static void *_ht_tcp_server_run(void *user_data);
 
+static void
+_ht_tcp_server_close_socket(int sock_fd)
+{
+#ifdef _WIN32
+    closesocket(sock_fd);
+#else
+    close(sock_fd);
+#endif
+}
+
 struct _HT_TCPServer
 {
     HT_Thread* accept_client_thread;
@@ -131,10 +145,26 @@ HT_TCPServer*
 ht_tcp_server_create(void)
 {
     HT_TCPServer* server = HT_CREATE_TYPE(HT_TCPServer);
+    if (!server)
+    {
+        return NULL;
+    }
+
+    if (ht_bag_int_init(&server->client_sock_fd, 8) != HT_ERR_OK)
+    {
+        ht_free(server);
+        return NULL;
+    }
 
-    ht_bag_int_init(&server->client_sock_fd, 8);
-    server->accept_client_thread = NULL;
     server->client_mutex = ht_mutex_create();
+    if (!server->client_mutex)
+    {
+        ht_bag_int_deinit(&server->client_sock_fd);
+        ht_free(server);
+        return NULL;
+    }
+
+    server->accept_client_thread = NULL;
     server->server_sock_fd = -1;
     server->client_connected_cb = NULL;
     server->client_connected_ud = NULL;
@@ -202,6 +232,11 @@ ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected client_con
     server->client_connected_cb = client_connected_cb;
     server->client_connected_ud = user_data;
     server->accept_client_thread = ht_thread_create(_ht_tcp_server_run, server);
+    if (!server->accept_client_thread)
+    {
+        ht_tcp_server_stop(server);
+        return HT_FALSE;
+    }
 
     return HT_TRUE;
 }
@@ -209,30 +244,40 @@ ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected client_con
 void
 ht_tcp_server_stop(HT_TCPServer* server)
 {
+    size_t i;
+
     if (!ht_tcp_server_is_running(server))
     {
         return;
     }
 
-    ht_mutex_lock(server->client_mutex);
-    ht_bag_int_clear(&server->client_sock_fd);
-    ht_mutex_unlock(server->client_mutex);
-
     int prev_sock_fd = server->server_sock_fd;
     server->server_sock_fd = -1;
 #ifdef _WIN32
     closesocket(prev_sock_fd);
-    WSACleanup();
 #else
     shutdown(prev_sock_fd, 2);
 #endif
 
     if (server->accept_client_thread)
     {
-        ht_thread_join(server->accept_client_thread);
         ht_thread_destroy(server->accept_client_thread);
         server->accept_client_thread = NULL;
     }
+
+    ht_mutex_lock(server->client_mutex);
+    for (i = 0; i < ht_bag_size(server->client_sock_fd); i++)
+    {
+        _ht_tcp_server_close_socket(ht_bag_nth(server->client_sock_fd, i));
+    }
+    ht_bag_int_clear(&server->client_sock_fd);
+    ht_mutex_unlock(server->client_mutex);
+
+#ifdef _WIN32
+    WSACleanup();
+#else
+    close(prev_sock_fd);
+#endif
 }
 
 HT_Boolean
@@ -250,8 +295,10 @@ ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size)
 
     for (i = 0; i < ht_bag_size(server->client_sock_fd); i++)
     {
-        if (!ht_tcp_server_write_to_socket(server, ht_bag_nth(server->client_sock_fd, i), buffer, size))
+        int client_fd = ht_bag_nth(server->client_sock_fd, i);
+        if (!ht_tcp_server_write_to_socket(server, client_fd, buffer, size))
         {
+            _ht_tcp_server_close_socket(client_fd);
             ht_bag_int_remove_nth(&server->client_sock_fd, i);
             i--;
         }
@@ -260,6 +307,18 @@ ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size)
     ht_mutex_unlock(server->client_mutex);
 }
 
+HT_Boolean
+ht_tcp_server_add_client(HT_TCPServer* server, int sock_fd)
+{
+    HT_ErrorCode error_code;
+
+    ht_mutex_lock(server->client_mutex);
+    error_code = ht_bag_int_add(&server->client_sock_fd, sock_fd);
+    ht_mutex_unlock(server->client_mutex);
+
+    return error_code == HT_ERR_OK;
+}
+
 HT_Boolean
 ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, size_t size)
 {
@@ -308,12 +367,9 @@ _ht_tcp_server_run(void* user_data)
         client_len = sizeof(clientaddr);
         int client_fd = accept(server->server_sock_fd, (struct sockaddr *) &clientaddr, &client_len);
 
-        if (client_fd >= 0)
+        if (client_fd >= 0 && !server->client_connected_cb(client_fd, server->client_connected_ud))
         {
-            server->client_connected_cb(client_fd, server->client_connected_ud);
-            ht_mutex_lock(server->client_mutex);
-            ht_bag_int_add(&server->client_sock_fd, client_fd);
-            ht_mutex_unlock(server->client_mutex);
+            _ht_tcp_server_close_socket(client_fd);
         }
     }
     return NULL;
-- 
2.43.0


From cb9750a78d7ee4e6c4f2ac2c6326c4b85e116580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 24/57] fix: nest scopes that begin at the same time by their
 duration

A scope and its first callee can begin at the same nanosecond. The sort
order of the two was then arbitrary, and when the callee came first the
caller was attached as a call of its own next to it.
---
 client/call_graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/call_graph.cpp b/client/call_graph.cpp
index 2dcc827..90336b1 100644
--- a/client/call_graph.cpp
+++ b/client/call_graph.cpp
@@ -12,7 +12,8 @@ std::vector<std::pair<std::shared_ptr<CallGraph::TreeNode>, int>>
 {
     std::sort(events.begin(), events.end(), 
             [](const NodeData& e1, const NodeData& e2){
-                return e1.start_ts < e2.start_ts;
+                return e1.start_ts != e2.start_ts ?
+                        e1.start_ts < e2.start_ts : e1.stop_ts > e2.stop_ts;
             });
     for (const auto& event : events)
     {
-- 
2.43.0


From 5adf1f3fdba3a93851b591a7f62ba28c3337fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 25/57] fix: escape texts written to the chrome trace

Quotes, backslashes and control characters in labels, field names or string
values made the whole file unreadable JSON.
---
 client/chrome_trace_converter.cpp | 33 ++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/client/chrome_trace_converter.cpp b/client/chrome_trace_converter.cpp
index e5cfb9d..3a72cc7 100644
--- a/client/chrome_trace_converter.cpp
+++ b/client/chrome_trace_converter.cpp
@@ -2,6 +2,33 @@
 
 #include <set>
 
+static std::string escape_json_string(const std::string& str)
+{
+    static const char hex_digits[] = "0123456789abcdef";
+    std::string ret;
+
+    for (char c : str)
+    {
+        if (c == '"' || c == '\\')
+        {
+            ret += '\\';
+            ret += c;
+        }
+        else if ((unsigned char)c < 0x20)
+        {
+            ret += "\\u00";
+            ret += hex_digits[c >> 4];
+            ret += hex_digits[c & 0xf];
+        }
+        else
+        {
+            ret += c;
+        }
+    }
+
+    return ret;
+}
+
 static uint64_t ns_to_ms(uint64_t nano_secs)
 {
     return nano_secs / 1000u;
@@ -49,7 +76,7 @@ void ChromeTraceConverter::process_event(const parser::Event& event)
 
     // Chrome expects the timestamps/durations to be microseconds
     // so we need to convert from nano to micro
-    _file << "{\"name\": \"" << label
+    _file << "{\"name\": \"" << escape_json_string(label)
          << "\", \"ph\": \"X\", \"ts\": " << ns_to_ms(event.get_timestamp())
          << ", \"dur\": " << ns_to_ms(event.get_value_or_default<HT_DurationNs>("duration", 0u))
          << ", \"pid\": 0, \"tid\": " << event.get_value_or_default<HT_ThreadId>("thread_id", 0u)
@@ -87,7 +114,7 @@ std::string ChromeTraceConverter::_get_args(const parser::Event& event)
         {
             ret += ",";
         }
-        ret += "\"" + value.first + "\": " + _get_json_value(value.second);
+        ret += "\"" + escape_json_string(value.first) + "\": " + _get_json_value(value.second);
     }
     return ret;
 }
@@ -103,7 +130,7 @@ std::string ChromeTraceConverter::_get_json_value(const parser::Event::Value& va
     {
     MKCREFLECT_FOREACH(PRINT_INT_VALUE, 0, INT_TYPE_LIST)
     case parser::FieldTypeId::STRING:
-        return std::string("\"") + value.value.f_STRING + "\"";
+        return "\"" + escape_json_string(value.value.f_STRING) + "\"";
     default:
         return "\"unsupported type\"";
     }
-- 
2.43.0


From b3ad4ff3739972705d49d5d6abf80f79fa589387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 26/57] fix: keep labelled events which precede the mapping
 class

As long as the string mapping class was not known no event got a label, so
streams without mappings gave an empty trace; a non-string field called
"name" was read as a string.
---
 client/converter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/converter.cpp b/client/converter.cpp
index 0013daa..6034337 100644
--- a/client/converter.cpp
+++ b/client/converter.cpp
@@ -64,7 +64,8 @@ std::string Converter::_get_label(const parser::Event& event)
     {
         _try_setting_mapping_klass_id(event);
     }
-    else if (event.get_klass()->get_id() == _mapping_klass_id)
+
+    if (_mapping_klass_id != 0 && event.get_klass()->get_id() == _mapping_klass_id)
     {
         _tracepoint_map->add_map_entry(event.get_value<uint64_t>("identifier"), event.get_value<char*>("label"));
     } 
@@ -72,7 +73,7 @@ std::string Converter::_get_label(const parser::Event& event)
     {
         label = _convert_value_to_string(event.get_raw_value("label")); 
     }
-    else if (event.has_value("name"))
+    else if (event.has_value("name") && event.get_raw_value("name").field->get_type_id() == parser::FieldTypeId::STRING)
     {
         label = event.get_value<char*>("name");
     }
-- 
2.43.0


From 2e5d804ddfdfa56baf2ae5db5a6ee5f20ee50858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 27/57] fix: accept output paths longer than 127 characters

strftime leaves the buffer undefined when the result doesn't fit.
---
 client/main.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/client/main.cpp b/client/main.cpp
index 0e2c764..9276c87 100644
--- a/client/main.cpp
+++ b/client/main.cpp
@@ -8,6 +8,7 @@
 #include <hawktracer/client_utils/stream_factory.hpp>
 #include <iostream>
 #include <map>
+#include <vector>
 
 using namespace HawkTracer;
 using ClientUtils::CommandLineParser;
@@ -17,10 +18,16 @@ std::string create_output_path(const char* path)
     time_t rawtime;
     time(&rawtime);
     struct tm* time_info = localtime (&rawtime);
-    char file_name_buffer[128];
-    strftime(file_name_buffer, 128, path, time_info);
+    // additional character makes the result non-empty, so 0 always means there's not enough space
+    std::string format = std::string(path) + " ";
+    std::vector<char> file_name_buffer(128);
+    size_t length;
+    while ((length = strftime(file_name_buffer.data(), file_name_buffer.size(), format.c_str(), time_info)) == 0)
+    {
+        file_name_buffer.resize(file_name_buffer.size() * 2);
+    }
 
-    return file_name_buffer;
+    return std::string(file_name_buffer.data(), length - 1);
 }
 
 std::string supported_formats(std::map<std::string, std::unique_ptr<client::Converter>>& formats)
-- 
2.43.0


From 011f8c38ba29b1d1ce9da9afd78b6633fda87421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:26 +0000
Subject: [PATCH 28/57] fix: keep merged values of parser events alive and
 release replaced ones

Values merged from another event refer to fields of that event's class. When
only the class register held the class, an event kept by a listener crashed
on destruction. Assigning to an event leaked its texts and nested events, and
merging leaked the values the event had already.
---
 parser/event.cpp                           | 17 +++++++++++++++++
 parser/include/hawktracer/parser/event.hpp |  3 ++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/parser/event.cpp b/parser/event.cpp
index 7e9dd12..5e85fc8 100644
--- a/parser/event.cpp
+++ b/parser/event.cpp
@@ -70,6 +70,15 @@ void Event::Value::_swap(Value& other)
     std::swap(value, other.value);
 }
 
+Event& Event::operator=(Event other)
+{
+    std::swap(_values, other._values);
+    std::swap(_klass, other._klass);
+    std::swap(_merged_klasses, other._merged_klasses);
+    std::swap(_timestamp, other._timestamp);
+    return *this;
+}
+
 Event::~Event()
 {
     for (const auto& value : _values)
@@ -95,8 +104,16 @@ Event::~Event()
 
 void Event::merge(Event event)
 {
+    _merged_klasses.push_back(event._klass);
+    _merged_klasses.insert(_merged_klasses.end(), event._merged_klasses.begin(), event._merged_klasses.end());
+
     for (auto& value : event._values)
     {
+        if (has_value(value.first))
+        {
+            continue;
+        }
+
         set_value(value.second.field, value.second.value);
         switch (value.second.field->get_type_id())
         {
diff --git a/parser/include/hawktracer/parser/event.hpp b/parser/include/hawktracer/parser/event.hpp
index c96269c..544c291 100644
--- a/parser/include/hawktracer/parser/event.hpp
+++ b/parser/include/hawktracer/parser/event.hpp
@@ -37,7 +37,7 @@ public:
     {
     }
     Event(const Event& other) = default;
-    Event& operator=(const Event& other) = default;
+    Event& operator=(Event other);
     Event(Event&&) = default;
 
     ~Event();
@@ -77,6 +77,7 @@ public:
 private:
     std::unordered_map<std::string, Value> _values;
     std::shared_ptr<const EventKlass> _klass;
+    std::vector<std::shared_ptr<const EventKlass>> _merged_klasses; // own the fields of merged values
     HT_TimestampNs _timestamp = (HT_TimestampNs)-1;
 };
 
-- 
2.43.0


From dd4f9949a9814f643a62be4725c107eb971029e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:26 +0000
Subject: [PATCH 29/57] fix: release texts hidden by a field of the base class

In flat mode a string field with the name of a field of the base class was
read, not stored and never released.
---
 parser/protocol_reader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index daa4b1f..e4a0d8d 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -140,7 +140,11 @@ void ProtocolReader::_read_event(bool& is_error, Event& event, Event* base_event
 
         if (_flat_events)
         {
-            if (field->get_type_id() != FieldTypeId::STRUCT)
+            if (field->get_type_id() == FieldTypeId::STRING && event.has_value(field->get_name()))
+            {
+                std::free(value.f_STRING); // base class has a field of the same name
+            }
+            else if (field->get_type_id() != FieldTypeId::STRUCT)
             {
                 event.set_value(field.get(), value);
             }
-- 
2.43.0


From 6f5fc79cb2adf524e6d814e4f0bd8ece9f400f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:31 +0000
Subject: [PATCH 30/57] fix: looking up an unknown class name must not find the
 class with the invalid id

---
 parser/klass_register.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/klass_register.cpp b/parser/klass_register.cpp
index b22ecd9..95bb53a 100644
--- a/parser/klass_register.cpp
+++ b/parser/klass_register.cpp
@@ -94,7 +94,16 @@ std::shared_ptr<const EventKlass> KlassRegister::get_klass(HT_EventKlassId klass
 
 std::shared_ptr<const EventKlass> KlassRegister::get_klass(const std::string& name) const
 {
-    return get_klass(get_klass_id(name));
+    lock_guard l(_register_mtx);
+    for (const auto& klass : _register)
+    {
+        if (klass.second->get_name() == name)
+        {
+            return klass.second;
+        }
+    }
+
+    return nullptr;
 }
 
 HT_EventKlassId KlassRegister::get_klass_id(const std::string& name) const
-- 
2.43.0


From 655960f04d5224785cc16abb6f5d4c66b8c907f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:26 +0000
Subject: [PATCH 31/57] fix: buffer size argument must be a number and nothing
 else

---
 lib/command_line_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/command_line_parser.c b/lib/command_line_parser.c
index 795940e..4fbf7c7 100644
--- a/lib/command_line_parser.c
+++ b/lib/command_line_parser.c
@@ -52,7 +52,8 @@ set_global_timeline_buffer_size(int argc, char** argv, int pos)
         return HT_ERR_OUT_OF_RANGE;
     }
 
-    if (end - s == 0)
+    /* strtoul() skips white spaces, accepts a sign, and ignores everything after the number */
+    if (*s < '0' || *s > '9' || *end != '\0')
     {
         return HT_ERR_INVALID_FORMAT;
     }
-- 
2.43.0


From d13b3f69291ed4208c06b53af80e66acd6727b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:20 +0000
Subject: [PATCH 32/57] fix: label generator missed labels of one character

---
 tools/generate_tracepoint_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/generate_tracepoint_labels.py b/tools/generate_tracepoint_labels.py
index b6aa80f..2e7de7f 100644
--- a/tools/generate_tracepoint_labels.py
+++ b/tools/generate_tracepoint_labels.py
@@ -135,11 +135,11 @@ def run_program(argv):
     languages = [
         LanguageSupport(
             LanguageSupportArgs(parser, 'cpp', 'C/C++', '.*\.(c|cpp|h|hpp)',
-                                '^\s*HT_TP_GLOBAL_SCOPED_INT\s*\(([_A-Za-z][A-Za-z_0-9]+)\)\s*;\s*$'),
+                                '^\s*HT_TP_GLOBAL_SCOPED_INT\s*\(([_A-Za-z][A-Za-z_0-9]*)\)\s*;\s*$'),
             generate_c_cpp_header),
         LanguageSupport(
             LanguageSupportArgs(parser, 'lua', 'LUA', '.*\.lua',
-                                '^\s*--@TracepointStart\s+([_A-Za-z][A-Za-z_0-9]+)\s*$'),
+                                '^\s*--@TracepointStart\s+([_A-Za-z][A-Za-z_0-9]*)\s*$'),
             generate_lua_file)
     ]
 
-- 
2.43.0


From 82dc0460712f2f501369b264ccb3555d6ea4c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:20 +0000
Subject: [PATCH 33/57] fix: label generator failed on files in other encodings

---
 tools/generate_tracepoint_labels.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/generate_tracepoint_labels.py b/tools/generate_tracepoint_labels.py
index 2e7de7f..d87f7a0 100644
--- a/tools/generate_tracepoint_labels.py
+++ b/tools/generate_tracepoint_labels.py
@@ -1,4 +1,5 @@
 import argparse
+import io
 import os
 import re
 import sys
@@ -98,7 +99,9 @@ class LanguageSupport:
 
     @staticmethod
     def _get_matches(file_name, regex):
-        return [regex.match(line) for line in open(file_name) if regex.match(line)]
+        # labels are ASCII, the rest of the file can be in any encoding
+        with io.open(file_name, encoding='utf-8', errors='replace') as source_file:
+            return [regex.match(line) for line in source_file if regex.match(line)]
 
 
 def generate_c_cpp_header(cpp_labels, stream):
-- 
2.43.0


From f214d60e464517035790cf43be28259bd61f2598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:31 +0000
Subject: [PATCH 34/57] fix: no global timeline if one of its features can't be
 created

---
 lib/global_timeline.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/global_timeline.cpp b/lib/global_timeline.cpp
index e4cf55c..96a8f5f 100644
--- a/lib/global_timeline.cpp
+++ b/lib/global_timeline.cpp
@@ -24,8 +24,12 @@ static HT_Timeline* _ht_global_timeline_create(void)
         return NULL;
     }
 
-    ht_feature_callstack_enable(c_timeline);
-    ht_feature_cached_string_enable(c_timeline, HT_FALSE);
+    if (ht_feature_callstack_enable(c_timeline) != HT_ERR_OK ||
+            ht_feature_cached_string_enable(c_timeline, HT_FALSE) != HT_ERR_OK)
+    {
+        ht_timeline_destroy(c_timeline);
+        return NULL;
+    }
 
     return c_timeline;
 }
-- 
2.43.0


From b3ae09f74d8fadbcd4139042b8692b76df7d9a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:41 +0000
Subject: [PATCH 35/57] fix: event too big for the buffer crashed the timeline
 when there was no memory for it

---
 lib/timeline.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/timeline.c b/lib/timeline.c
index 54a06ea..54b0458 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -70,9 +70,12 @@ ht_timeline_push_event(HT_Timeline* timeline, HT_Event* event)
             if (size > sizeof(local_buffer)/sizeof(local_buffer[0]))
             {
                 HT_Byte* buff = (HT_Byte*)ht_alloc(size);
-                event->klass->serialize(event, buff);
-                ht_timeline_listener_container_notify_listeners(timeline->listeners, buff, size, timeline->serialize_events);
-                ht_free(buff);
+                if (buff != NULL)
+                {
+                    event->klass->serialize(event, buff);
+                    ht_timeline_listener_container_notify_listeners(timeline->listeners, buff, size, timeline->serialize_events);
+                    ht_free(buff);
+                }
             }
             else
             {
-- 
2.43.0


From ce3695f7a3fc4b766fbcace83f15eb59f162159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:00 +0000
Subject: [PATCH 36/57] fix: event which couldn't be put on the callstack made
 other events end instead of it

---
 lib/feature_callstack.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/feature_callstack.c b/lib/feature_callstack.c
index 71f2d96..7451e36 100644
--- a/lib/feature_callstack.c
+++ b/lib/feature_callstack.c
@@ -9,6 +9,8 @@ typedef struct
 {
     HT_Feature base;
     HT_Stack stack;
+    /* number of the innermost open events which are not on the stack, because there was no memory for them */
+    size_t lost_event_count;
 } HT_FeatureCallstack;
 
 static void
@@ -28,6 +30,7 @@ ht_feature_callstack_create(HT_ErrorCode* out_err)
         return NULL;
     }
 
+    feature->lost_event_count = 0;
     error_code = ht_stack_init(&feature->stack, 1024, 32);
 
     if (error_code != HT_ERR_OK)
@@ -55,16 +58,26 @@ ht_feature_callstack_start(HT_Timeline* timeline, HT_CallstackBaseEvent* event)
     HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
 
     ht_timeline_init_event(timeline, HT_EVENT(event));
-    /* TODO: handle ht_stack_push() error */
-    ht_stack_push(&f->stack, event, event->base.klass->type_info->size);
+    if (f->lost_event_count > 0 ||
+            ht_stack_push(&f->stack, event, event->base.klass->type_info->size) != HT_ERR_OK)
+    {
+        f->lost_event_count++;
+    }
 }
 
 void
 ht_feature_callstack_stop(HT_Timeline* timeline)
 {
     HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
-    HT_CallstackBaseEvent* event = (HT_CallstackBaseEvent*)ht_stack_top(&f->stack);
+    HT_CallstackBaseEvent* event;
+
+    if (f->lost_event_count > 0)
+    {
+        f->lost_event_count--;
+        return;
+    }
 
+    event = (HT_CallstackBaseEvent*)ht_stack_top(&f->stack);
     event->duration = ht_monotonic_clock_get_timestamp() - HT_EVENT(event)->timestamp;
     event->thread_id = ht_thread_get_current_thread_id();
 
-- 
2.43.0


From c0e9e41cbfddfe7397d87fc4be7860f8f985a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:02 +0000
Subject: [PATCH 37/57] fix: traced Python functions couldn't be called with
 keyword arguments

---
 bindings/python3/hawktracer_core_python.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 36ced90..7f835a9 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -9,9 +9,11 @@ static HT_Boolean is_initialized = HT_FALSE;
 static PyObject* tracepoint_map = NULL;
 
 static PyObject*
-ht_python_core_trace_function(PyObject* function, PyObject *args);
+ht_python_core_trace_function(PyObject* function, PyObject* args, PyObject* kwargs);
 
-static PyMethodDef ht_python_core_trace_function_md = {"trace_function", ht_python_core_trace_function, METH_VARARGS, ""};
+static PyMethodDef ht_python_core_trace_function_md = {
+    "trace_function", (PyCFunction)(void(*)(void))ht_python_core_trace_function, METH_VARARGS | METH_KEYWORDS, ""
+};
 
 static uintptr_t
 ht_python_core_get_label_address(PyObject* function_name_attr)
@@ -35,7 +37,7 @@ ht_python_core_get_label_address(PyObject* function_name_attr)
 }
 
 static PyObject*
-ht_python_core_trace_function(PyObject* function, PyObject *args)
+ht_python_core_trace_function(PyObject* function, PyObject* args, PyObject* kwargs)
 {
     uintptr_t address = 0;
 
@@ -56,7 +58,7 @@ ht_python_core_trace_function(PyObject* function, PyObject *args)
         }
     }
 
-    PyObject* ret = PyEval_CallObject(function, args);
+    PyObject* ret = PyObject_Call(function, args, kwargs);
 
     if (address)
     {
-- 
2.43.0


From 0486c33e8cb270b37c6807deeb1683fe487fa04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:02 +0000
Subject: [PATCH 38/57] fix: traced Python methods were called without the
 object

---
 bindings/python3/hawktracer_core_python.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 7f835a9..cae4db8 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -80,7 +80,17 @@ ht_python_core_trace(PyObject* Py_UNUSED(self), PyObject* args)
 
     if (trace_method)
     {
-        return PyCFunction_New(trace_method, traced_function);
+        PyObject* wrapper = PyCFunction_New(trace_method, traced_function);
+
+        if (wrapper && PyFunction_Check(traced_function))
+        {
+            /* a function defined in a class must get the object it's called for */
+            PyObject* method = PyInstanceMethod_New(wrapper);
+            Py_DECREF(wrapper);
+            return method;
+        }
+
+        return wrapper;
     }
     else
     {
-- 
2.43.0


From 3ef043f53dc7fc1727dd14c169a4ff923678a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:02 +0000
Subject: [PATCH 39/57] fix: calling traced Python object without a valid name
 failed or crashed

---
 bindings/python3/hawktracer_core_python.cpp | 26 ++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index cae4db8..9b116c1 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -18,13 +18,26 @@ static PyMethodDef ht_python_core_trace_function_md = {
 static uintptr_t
 ht_python_core_get_label_address(PyObject* function_name_attr)
 {
+    if (!PyUnicode_Check(function_name_attr))
+    {
+        return 0;
+    }
+
     if (!PyDict_Contains(tracepoint_map, function_name_attr))
     {
+        PyObject* function_name = PyUnicode_AsEncodedString(function_name_attr, "UTF-8", "strict");
+        if (!function_name)
+        {
+            PyErr_Clear();
+            return 0;
+        }
+
         /* TODO: improve cached string feature so it can handle custom pointers.
         Then we can simply push all the mapping to a listener if it's registered too late. */
         uintptr_t address = (uintptr_t)function_name_attr;
-        PyDict_SetItem(tracepoint_map, function_name_attr, PyLong_FromSize_t(address));
-        PyObject* function_name = PyUnicode_AsEncodedString(function_name_attr, "UTF-8", "strict");
+        PyObject* py_address = PyLong_FromSize_t(address);
+        PyDict_SetItem(tracepoint_map, function_name_attr, py_address);
+        Py_XDECREF(py_address);
         HT_TIMELINE_PUSH_EVENT(ht_global_timeline_get(), HT_StringMappingEvent, address, PyBytes_AsString(function_name));
         Py_DECREF(function_name);
 
@@ -53,9 +66,16 @@ ht_python_core_trace_function(PyObject* function, PyObject* args, PyObject* kwar
         if (function_name_attr)
         {
             address = ht_python_core_get_label_address(function_name_attr);
-            ht_feature_callstack_start_int(ht_global_timeline_get(), address);
+            if (address)
+            {
+                ht_feature_callstack_start_int(ht_global_timeline_get(), address);
+            }
             Py_DECREF(function_name_attr);
         }
+        else
+        {
+            PyErr_Clear();
+        }
     }
 
     PyObject* ret = PyObject_Call(function, args, kwargs);
-- 
2.43.0


From 2ec2ece636b650b5f7e7a2fa3415c6fc6ee459e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:02 +0000
Subject: [PATCH 40/57] fix: calling traced Python function crashed if the
 library wasn't initialized

---
 bindings/python3/hawktracer_core_python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 9b116c1..4050166 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -59,7 +59,7 @@ ht_python_core_trace_function(PyObject* function, PyObject* args, PyObject* kwar
         Py_RETURN_NONE;
     }
 
-    if (tracing_enabled)
+    if (tracing_enabled && ht_is_initialized())
     {
         PyObject* function_name_attr = PyObject_GetAttrString(function, "__name__");
 
-- 
2.43.0


From c3df2a44e50aeb734615a57d25778864f4c9aeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:02 +0000
Subject: [PATCH 41/57] fix: Python tracepoints were lost when the interpreter
 exited

---
 bindings/python3/hawktracer_core_python.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 4050166..0b6c3b0 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -154,8 +154,8 @@ ht_python_core_disable_tracing(PyObject* Py_UNUSED(self), PyObject* Py_UNUSED(ig
     Py_RETURN_NONE;
 }
 
-static int
-ht_python_core_clear_module(PyObject* m)
+static void
+ht_python_core_deinit(void)
 {
     if (is_initialized)
     {
@@ -168,11 +168,6 @@ ht_python_core_clear_module(PyObject* m)
 
         ht_deinit();
     }
-
-    Py_DECREF(tracepoint_map);
-
-    Py_CLEAR(m);
-    return 0;
 }
 
 static PyObject*
@@ -268,7 +263,7 @@ static struct PyModuleDef HawkTracer_Python_Core_module = {
     HawkTracer_methods,
     NULL,
     NULL,
-    ht_python_core_clear_module,
+    NULL,
     NULL
 };
 
@@ -288,6 +283,7 @@ PyInit_core(void)
         }
 
         tracepoint_map = PyDict_New();
+        Py_AtExit(ht_python_core_deinit);
     }
 
     return module;
-- 
2.43.0


From 030a368d6aa4ed9442de5ebe504c002bc40a578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:11 +0000
Subject: [PATCH 42/57] fix: methods of Python client crashed if the client
 wasn't started

---
 bindings/python3/hawktracer_client_python.cpp | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index f72eb00..73b0bbf 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -69,31 +69,44 @@ client_start(HT_Python_Client* self, PyObject* args)
 static PyObject *
 client_stop(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    self->context->stop();
+    if (self->context)
+    {
+        self->context->stop();
+    }
+
     Py_RETURN_NONE;
 }
 
 static PyObject *
 client_poll_event(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
+    if (!self->context)
+    {
+        Py_RETURN_NONE;
+    }
+
     return self->context->poll_event();
 }
 
 static PyObject *
 client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    Py_BEGIN_ALLOW_THREADS
+    if (self->context)
+    {
+        Py_BEGIN_ALLOW_THREADS
 
-    self->context->wait_for_complete();
+        self->context->wait_for_complete();
+
+        Py_END_ALLOW_THREADS
+    }
 
-    Py_END_ALLOW_THREADS
     Py_RETURN_NONE;
 }
 
 static PyObject *
 client_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
-    return PyBool_FromLong(self->context->eos());
+    return PyBool_FromLong(!self->context || self->context->eos());
 }
 
 static void
-- 
2.43.0


From 8fe58ed4fca6e337cffbef9ea6ce2fcf83924124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:11 +0000
Subject: [PATCH 43/57] fix: Python client created events for the callback
 without holding the GIL

---
 bindings/python3/client_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index e0e8c84..c89162a 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -86,9 +86,9 @@ PyObject* Context::poll_event()
 
 void Context::_trigger_callback(const parser::Event& event)
 {
-    PyObject* arglist = Py_BuildValue("(sO)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyGILState_STATE gstate = PyGILState_Ensure();
 
+    PyObject* arglist = Py_BuildValue("(sO)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
     Py_DECREF(arglist);
 
-- 
2.43.0


From 88753d91eab9bfb023bf6444db348eb18c84910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:11 +0000
Subject: [PATCH 44/57] fix: Python client waited for the reader thread holding
 the GIL which that thread needs

---
 bindings/python3/hawktracer_client_python.cpp | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index 73b0bbf..341aa6d 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -33,6 +33,28 @@ client_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     return reinterpret_cast<PyObject*>(self);
 }
 
+static void
+client_stop_context(HT_Python_Client* self)
+{
+    // the reader thread might need the GIL to finish
+    Py_BEGIN_ALLOW_THREADS
+
+    self->context->stop();
+
+    Py_END_ALLOW_THREADS
+}
+
+static void
+client_delete_context(HT_Python_Client* self)
+{
+    if (self->context)
+    {
+        client_stop_context(self);
+        delete self->context;
+        self->context = nullptr;
+    }
+}
+
 static PyObject *
 client_start(HT_Python_Client* self, PyObject* args)
 {
@@ -56,10 +78,7 @@ client_start(HT_Python_Client* self, PyObject* args)
         return nullptr;
     }
 
-    if (self->context)
-    {
-        delete self->context;
-    }
+    client_delete_context(self);
 
     self->context = new Context(std::move(stream), callback_obj);
     self->context->start();
@@ -71,7 +90,7 @@ client_stop(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
     if (self->context)
     {
-        self->context->stop();
+        client_stop_context(self);
     }
 
     Py_RETURN_NONE;
@@ -113,7 +132,7 @@ static void
 client_dealloc(PyObject* self)
 {
     auto client = reinterpret_cast<HT_Python_Client*>(self);
-    delete client->context;
+    client_delete_context(client);
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
 
-- 
2.43.0


From 1dca6e3b3087927c7c10a956a60d74930f89c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:11 +0000
Subject: [PATCH 45/57] fix: Python client showed negative values as huge
 positive ones

---
 bindings/python3/client_context.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index c89162a..5e22825 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -8,10 +8,14 @@ namespace Python
 
 static PyObject* event_to_dictionary(const parser::Event& event)
 {
-#define CREATE_INT_TYPE(HAWKTRACER_TYPE, C_TYPE) \
+#define CREATE_UINT_TYPE(HAWKTRACER_TYPE, C_TYPE) \
     case parser::FieldTypeId::HAWKTRACER_TYPE: \
     val = PyLong_FromUnsignedLongLong((C_TYPE)p.second.value.f_##HAWKTRACER_TYPE); \
     break;
+#define CREATE_INT_TYPE(HAWKTRACER_TYPE, C_TYPE) \
+    case parser::FieldTypeId::HAWKTRACER_TYPE: \
+    val = PyLong_FromLongLong((C_TYPE)p.second.value.f_##HAWKTRACER_TYPE); \
+    break;
 
     PyObject* dict = PyDict_New();
 
@@ -20,9 +24,10 @@ static PyObject* event_to_dictionary(const parser::Event& event)
         PyObject* val = nullptr;
         switch (p.second.field->get_type_id())
         {
-        MKCREFLECT_FOREACH(CREATE_INT_TYPE, uint64_t, UINT8, UINT16, UINT32, UINT64, POINTER)
+        MKCREFLECT_FOREACH(CREATE_UINT_TYPE, uint64_t, UINT8, UINT16, UINT32, UINT64, POINTER)
         MKCREFLECT_FOREACH(CREATE_INT_TYPE, int64_t, INT8, INT16, INT32, INT64)
 #undef CREATE_INT_TYPE
+#undef CREATE_UINT_TYPE
         case parser::FieldTypeId::STRING:
             val = PyUnicode_FromString(p.second.value.f_STRING);
             break;
-- 
2.43.0


From a478ed9e89b857893ac9404fb7887a78ffba8157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:11 +0000
Subject: [PATCH 46/57] fix: Python client couldn't show strings which are not
 valid UTF-8

---
 bindings/python3/client_context.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 5e22825..01ffebf 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -1,11 +1,19 @@
 #include "client_context.hpp"
 #include "hawktracer/parser/event.hpp"
 
+#include <cstring>
+
 namespace HawkTracer
 {
 namespace Python
 {
 
+static PyObject* to_python_string(const char* str)
+{
+    // strings in the stream might not be valid UTF-8
+    return PyUnicode_DecodeUTF8(str, strlen(str), "surrogateescape");
+}
+
 static PyObject* event_to_dictionary(const parser::Event& event)
 {
 #define CREATE_UINT_TYPE(HAWKTRACER_TYPE, C_TYPE) \
@@ -29,7 +37,7 @@ static PyObject* event_to_dictionary(const parser::Event& event)
 #undef CREATE_INT_TYPE
 #undef CREATE_UINT_TYPE
         case parser::FieldTypeId::STRING:
-            val = PyUnicode_FromString(p.second.value.f_STRING);
+            val = to_python_string(p.second.value.f_STRING);
             break;
         default:
             break;
@@ -40,7 +48,7 @@ static PyObject* event_to_dictionary(const parser::Event& event)
             continue;
         }
 
-        PyDict_SetItem(dict, PyUnicode_FromString(p.first.c_str()), val);
+        PyDict_SetItem(dict, to_python_string(p.first.c_str()), val);
     }
 
     return dict;
@@ -86,14 +94,14 @@ PyObject* Context::poll_event()
     parser::Event evt = _events.front();
     PyObject* py_event = event_to_dictionary(evt);
     _events.pop();
-    return Py_BuildValue("sO", evt.get_klass()->get_name().c_str(), py_event);
+    return Py_BuildValue("OO", to_python_string(evt.get_klass()->get_name().c_str()), py_event);
 }
 
 void Context::_trigger_callback(const parser::Event& event)
 {
     PyGILState_STATE gstate = PyGILState_Ensure();
 
-    PyObject* arglist = Py_BuildValue("(sO)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
+    PyObject* arglist = Py_BuildValue("(OO)", to_python_string(event.get_klass()->get_name().c_str()), event_to_dictionary(event));
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
     Py_DECREF(arglist);
 
-- 
2.43.0


From ca9782d2a6a940d0f6d33199f72ee1ef8a7da55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:11 +0000
Subject: [PATCH 47/57] fix: exception raised by Python client's callback
 stayed pending

---
 bindings/python3/client_context.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 01ffebf..7cf8703 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -109,6 +109,7 @@ void Context::_trigger_callback(const parser::Event& event)
     {
         printf("Failed to call callback! ");
         printf("Callback must have 2 arguments: (klass_name, event_data)\n");
+        PyErr_Print();
     }
     else
     {
-- 
2.43.0


From 28b85091bd41defbe02890b59eb13d0524dc262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:54 +0000
Subject: [PATCH 48/57] fix: Python client leaked every event

---
 bindings/python3/client_context.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 7cf8703..4a32ae7 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -48,7 +48,10 @@ static PyObject* event_to_dictionary(const parser::Event& event)
             continue;
         }
 
-        PyDict_SetItem(dict, to_python_string(p.first.c_str()), val);
+        PyObject* name = to_python_string(p.first.c_str());
+        PyDict_SetItem(dict, name, val);
+        Py_DECREF(name);
+        Py_DECREF(val);
     }
 
     return dict;
@@ -94,14 +97,14 @@ PyObject* Context::poll_event()
     parser::Event evt = _events.front();
     PyObject* py_event = event_to_dictionary(evt);
     _events.pop();
-    return Py_BuildValue("OO", to_python_string(evt.get_klass()->get_name().c_str()), py_event);
+    return Py_BuildValue("NN", to_python_string(evt.get_klass()->get_name().c_str()), py_event);
 }
 
 void Context::_trigger_callback(const parser::Event& event)
 {
     PyGILState_STATE gstate = PyGILState_Ensure();
 
-    PyObject* arglist = Py_BuildValue("(OO)", to_python_string(event.get_klass()->get_name().c_str()), event_to_dictionary(event));
+    PyObject* arglist = Py_BuildValue("(NN)", to_python_string(event.get_klass()->get_name().c_str()), event_to_dictionary(event));
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
     Py_DECREF(arglist);
 
-- 
2.43.0


From 778fd2e5764184d650b4f1953ed089d8ff8c3cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:54 +0000
Subject: [PATCH 49/57] fix: no Python thread could run while Python client was
 connecting

---
 bindings/python3/hawktracer_client_python.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index 341aa6d..d800b0a 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -81,7 +81,13 @@ client_start(HT_Python_Client* self, PyObject* args)
     client_delete_context(self);
 
     self->context = new Context(std::move(stream), callback_obj);
+
+    // it might take long to connect
+    Py_BEGIN_ALLOW_THREADS
+
     self->context->start();
+
+    Py_END_ALLOW_THREADS
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From cf5f6c7a973fed71e97c37bf133135df6baaca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 50/57] fix: a field called timestamp must not replace the time
 of a flat event

---
 parser/event.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/event.cpp b/parser/event.cpp
index 5e85fc8..2d93d5f 100644
--- a/parser/event.cpp
+++ b/parser/event.cpp
@@ -1,4 +1,5 @@
 #include "hawktracer/parser/event.hpp"
+#include "hawktracer/parser/klass_register.hpp"
 
 #include <cstring>
 #include <cstdlib>
@@ -127,6 +128,11 @@ void Event::merge(Event event)
             break;
         }
     }
+
+    if (event._klass && event._klass->get_id() == to_underlying(WellKnownKlasses::EventKlass))
+    {
+        _timestamp = event._timestamp; // even if the event has another field of that name
+    }
 }
 
 void Event::set_value(const EventKlassField* field, FieldType value)
-- 
2.43.0


From 9188f57ad51344cfc82dc26dc090cc8a6b995385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:32 +0000
Subject: [PATCH 51/57] fix: amalgamation replaces its output files at once,
 runs in one directory do not disturb each other

---
 tools/amalgamate.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/tools/amalgamate.py b/tools/amalgamate.py
index d085d80..81e2410 100644
--- a/tools/amalgamate.py
+++ b/tools/amalgamate.py
@@ -1,8 +1,10 @@
 import argparse
+import contextlib
 import copy
 import re
 import shutil
 import sys
+import tempfile
 import os
 
 
@@ -85,6 +87,19 @@ def get_header(line):
     return m.groups()[0]
 
 
+@contextlib.contextmanager
+def replaced_file(path):
+    """ The file at the path is always complete, also for those who read it, or replace it, at the same time. """
+    with tempfile.NamedTemporaryFile('w', dir=os.path.dirname(os.path.abspath(path)), delete=False) as f:
+        try:
+            yield f
+        except BaseException:
+            os.unlink(f.name)
+            raise
+    os.chmod(f.name, 0o644)
+    os.replace(f.name, path)
+
+
 class Graph:
     def __init__(self, nodes):
         self._nodes = {}
@@ -242,7 +257,7 @@ class Amalgamator:
 
     def _generate_header_file(self):
         print("Generate header file " + self._out_header)
-        with open(self._out_header, "w") as f:
+        with replaced_file(self._out_header) as f:
             header_file_dumper = HeaderFileDumper(f, self._headers, self._include_dir)
 
             self._dump_license(f)
@@ -258,7 +273,7 @@ class Amalgamator:
 
     def _generate_source_file(self):
         print("Generate source file " + self._out_source)
-        with open(self._out_source, "w") as f:
+        with replaced_file(self._out_source) as f:
             source_file_dumper = SourceFileDumper(f, self._headers)
             header_file_dumper = HeaderFileDumper(f, self._headers, self._include_dir)
 
@@ -296,7 +311,8 @@ def run_program(argv):
     args = parser.parse_args(argv)
 
     os.makedirs(args.out_dir, exist_ok=True)
-    shutil.copyfile(args.config_path, os.path.join(args.out_dir, "ht_config.h"))
+    with open(args.config_path) as config, replaced_file(os.path.join(args.out_dir, "ht_config.h")) as f:
+        shutil.copyfileobj(config, f)
 
     header_file = os.path.join(args.out_dir, 'hawktracer.h')
     source_file = os.path.join(args.out_dir, 'hawktracer.' + ('cpp' if args.cpp else 'c'))
-- 
2.43.0


From 361847b85d381b583ee5695b7b0df6387636d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:48 +0000
Subject: [PATCH 52/57] fix: memory usage of processes whose statm line is
 short (kernel threads, zombies)

---
 lib/platform/linux/memory_usage.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/platform/linux/memory_usage.c b/lib/platform/linux/memory_usage.c
index 617c8a9..b7f733d 100644
--- a/lib/platform/linux/memory_usage.c
+++ b/lib/platform/linux/memory_usage.c
@@ -62,11 +62,6 @@ ht_memory_usage_get_usage(HT_MemoryUsageContext* context,
     size_t num = fread(buf, 1, sizeof(buf) - 1, fp);
     fclose(fp);
 
-    if (num < 16)
-    {
-        return HT_ERR_INVALID_FORMAT;
-    }
-
     buf[num] = '\0';
 
     if (sscanf(buf, "%llu %llu %llu", &virt_mem, &resident_mem, &shared_mem) != 3)
-- 
2.43.0


From ac717c6637bad2c9d8595638c1e798b4e9d45f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 53/57] fix: static trace points in C code compile (pthread.h,
 pointer conversions)

---
 lib/include/hawktracer/string_scoped_tracepoint.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/include/hawktracer/string_scoped_tracepoint.h b/lib/include/hawktracer/string_scoped_tracepoint.h
index 448cc2e..2da1cbe 100644
--- a/lib/include/hawktracer/string_scoped_tracepoint.h
+++ b/lib/include/hawktracer/string_scoped_tracepoint.h
@@ -22,11 +22,12 @@
 #elif defined(HT_USE_PTHREADS) && defined(HT_SCOPED_TRACEPOINT_MACRO_ENABLED)
 
 #include <hawktracer/posix_mapped_tracepoint.h>
+#include <pthread.h>
 
 #define HT_TP_STRACEPOINT(timeline, label) \
     static HT_THREAD_LOCAL pthread_once_t HT_UNIQUE_VAR_NAME(ht_var_once) = PTHREAD_ONCE_INIT; \
-    static HT_THREAD_LOCAL uintptr_t HT_UNIQUE_VAR_NAME(fnc_track) = label; \
-    ht_pthread_mapped_tracepoint_enter(timeline, HT_UNIQUE_VAR_NAME(fnc_track)); \
+    static HT_THREAD_LOCAL uintptr_t HT_UNIQUE_VAR_NAME(fnc_track) = (uintptr_t)label; \
+    ht_pthread_mapped_tracepoint_enter(timeline, (const char*)HT_UNIQUE_VAR_NAME(fnc_track)); \
     pthread_once(&HT_UNIQUE_VAR_NAME(ht_var_once), ht_pthread_mapped_tracepoint_add_mapping); \
     ht_pthread_mapped_tracepoint_leave(); \
     HT_TP_SCOPED_INT(timeline, (uintptr_t)HT_UNIQUE_VAR_NAME(fnc_track));
-- 
2.43.0


From 8ebfccd1136ae73f40952448af2ea82fe988a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 54/57] fix: memory allocation hooks compiled as C++ link with
 the C library

---
 lib/platform/linux/alloc_hooks.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/platform/linux/alloc_hooks.c b/lib/platform/linux/alloc_hooks.c
index ac672e9..e764474 100644
--- a/lib/platform/linux/alloc_hooks.c
+++ b/lib/platform/linux/alloc_hooks.c
@@ -12,11 +12,14 @@ static HT_AllocHookFree _pre_free_hook = NULL;
 static HT_AllocHookFree _post_free_hook = NULL;
 static void* _hook_user_data = NULL;
 
+HT_DECLS_BEGIN
+
 extern void *__libc_malloc(size_t);
 extern void *__libc_calloc(size_t, size_t);
 extern void __libc_free(void*);
 extern void* __libc_realloc(void*, size_t);
 
+HT_DECLS_END
 
 #if defined (__THROW)
 #  ifdef __cplusplus
-- 
2.43.0


From 81d534e3895ae515f69ebbeaf6b0431a1b526cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:32 +0000
Subject: [PATCH 55/57] fix: amalgamated header defined the event classes of
 the library, or not, depending on the order of the directory's entries

---
 tools/amalgamate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/amalgamate.py b/tools/amalgamate.py
index 81e2410..b2f1e7b 100644
--- a/tools/amalgamate.py
+++ b/tools/amalgamate.py
@@ -37,7 +37,9 @@ class ConditionalSource:
         self.condition = condition
 
 
-skip_headers = ['hawktracer/event_macros_impl.h']
+# Once it is included, the event classes that follow are not only declared but defined. The classes of the library
+# must not be defined in every file that includes the generated header.
+last_headers = ['hawktracer/event_macros_impl.h']
 
 platform_features = [
     ConditionalFeature(
@@ -169,6 +171,10 @@ class HeadersDB:
             for dependency in self._get_headers_from_file(header):
                 if dependency in headers:
                     g.add_edge(dependency, header)
+        for last_header in last_headers:
+            for header in headers:
+                if last_header in headers and header not in last_headers:
+                    g.add_edge(header, last_header)
         return g
 
     def get_internal_header_graph(self):
-- 
2.43.0


From 9b61e25b06a62f7fe6fe7358847ad03fc9cc642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:01 +0000
Subject: [PATCH 56/57] fix: trace points of C code link with a library
 compiled as C++ (the amalgamated one)

---
 lib/include/hawktracer/scoped_tracepoint.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/include/hawktracer/scoped_tracepoint.h b/lib/include/hawktracer/scoped_tracepoint.h
index 45f3834..352ed25 100644
--- a/lib/include/hawktracer/scoped_tracepoint.h
+++ b/lib/include/hawktracer/scoped_tracepoint.h
@@ -3,6 +3,16 @@
 
 #include <hawktracer/feature_callstack.h>
 
+#if defined(__GNUC__)
+
+HT_DECLS_BEGIN
+void _ht_callstack_timeline_scoped_cleanup(HT_Timeline** timeline);
+HT_Timeline* _ht_callstack_timeline_int_start_and_ret(HT_Timeline* t, HT_CallstackEventLabel l);
+HT_Timeline* _ht_callstack_timeline_string_start_and_ret(HT_Timeline* t, const char* l);
+HT_DECLS_END
+
+#endif /* __GNUC__ */
+
 #if defined (__cplusplus)
 #define HT_SCOPED_TRACEPOINT_MACRO_ENABLED
 
@@ -14,12 +24,6 @@
 #elif defined(__GNUC__)
 #define HT_SCOPED_TRACEPOINT_MACRO_ENABLED
 
-HT_DECLS_BEGIN
-void _ht_callstack_timeline_scoped_cleanup(HT_Timeline** timeline);
-HT_Timeline* _ht_callstack_timeline_int_start_and_ret(HT_Timeline* t, HT_CallstackEventLabel l);
-HT_Timeline* _ht_callstack_timeline_string_start_and_ret(HT_Timeline* t, const char* l);
-HT_DECLS_END
-
 #define HT_TP_SCOPED_GENERIC_(type, c_type, callstack_timeline, label) \
     HT_Timeline* _ht_callstack_timeline __attribute__ ((__cleanup__(_ht_callstack_timeline_scoped_cleanup))) \
         = _ht_callstack_timeline_##type##_start_and_ret(callstack_timeline, label)
-- 
2.43.0


From ed2b2837eee0f709b5e3f09411ef7e35c8d9ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:41 +0000
Subject: [PATCH 57/57] fix: debug event listener prints 8-bit numbers as
 characters

---
 parser/debug_event_listener.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/debug_event_listener.cpp b/parser/debug_event_listener.cpp
index 13c9cd9..5af2b7e 100644
--- a/parser/debug_event_listener.cpp
+++ b/parser/debug_event_listener.cpp
@@ -14,8 +14,9 @@ static void print_field_value(const Event::Value& value)
 
     switch (value.field->get_type_id())
     {
-    PRINT_FIELD_VALUE(UINT8);
-    PRINT_FIELD_VALUE(INT8);
+    // the stream would print 8-bit numbers as characters
+    case FieldTypeId::UINT8: std::cout << (unsigned)value.value.f_UINT8 << std::endl; break;
+    case FieldTypeId::INT8: std::cout << (int)value.value.f_INT8 << std::endl; break;
     PRINT_FIELD_VALUE(UINT16);
     PRINT_FIELD_VALUE(INT16);
     PRINT_FIELD_VALUE(UINT32);
-- 
2.43.0

