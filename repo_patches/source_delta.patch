From 1fa6dd356237d8c249ebf9a01cfb63b8fb8c0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 01/27] fix: GGC_ListShift returns the element, not its list
 node

---
 collections/list.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collections/list.c b/collections/list.c
index 9c8b384..1db0841 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -176,6 +176,7 @@ void GGC_ListUnshiftList(GGC_List to, GGC_List from)
 void *GGC_ListShift(GGC_List list)
 {
     GGC_ListNode node = NULL, head = NULL;
+    void *el = NULL;
     ggc_size_t len;
 
     GGC_PUSH_2(list, node);
@@ -189,9 +190,11 @@ void *GGC_ListShift(GGC_List list)
 
         len = GGC_RD(list, length) - 1;
         GGC_WD(list, length, len);
+
+        el = GGC_RP(node, el);
     }
 
-    return node;
+    return el;
 }
 
 /* insert an element after the specified one, in the given list */
-- 
2.43.0


From 15d756840be408446c2d211ad8d9ba80d36114fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 02/27] fix: GGC_ListPushList of an empty list must not clear
 the target's tail

---
 collections/list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index 1db0841..bdf03bd 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -70,6 +70,10 @@ void GGC_ListPushList(GGC_List to, GGC_List from)
         return;
     }
 
+    /* nothing to append? */
+    if (!GGC_RP(from, head))
+        return;
+
     /* they both exist, so we actually need to append */
     tolen = GGC_RD(to, length);
     fromlen = GGC_RD(from, length);
-- 
2.43.0


From 4d99341f1e2ef2d694919c6a9a83e0a5ada00e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 03/27] fix: GGC_ListUnshiftList of an empty list must not
 dereference its null tail

---
 collections/list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index bdf03bd..c19d5ab 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -150,6 +150,10 @@ void GGC_ListUnshiftList(GGC_List to, GGC_List from)
         return;
     }
 
+    /* nothing to prepend? */
+    if (!GGC_RP(from, head))
+        return;
+
     /* they both exist, so we actually need to prepend */
     tolen = GGC_RD(to, length);
     fromlen = GGC_RD(from, length);
-- 
2.43.0


From 7ea388758c930e3c3d452e718a1e6e85fb4b9de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 04/27] fix: GGC_ListInsertAfter of the last node must update
 the list's tail

---
 collections/list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index c19d5ab..6431f7a 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -219,6 +219,8 @@ void GGC_ListInsertAfter(GGC_List list, GGC_ListNode after, void *value)
     next = GGC_RP(after, next);
     GGC_WP(node, next, next);
     GGC_WP(after, next, node);
+    if (!next)
+        GGC_WP(list, tail, node);
 
     len = GGC_RD(list, length) + 1;
     GGC_WD(list, length, len);
-- 
2.43.0


From ca4aefc8a75c5d5185b13df97478b8c1c51ec896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 05/27] fix: GGC_ListInsertAfterList handles an empty source
 and updates the target's tail

---
 collections/list.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index 6431f7a..48dd207 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -236,6 +236,10 @@ void GGC_ListInsertAfterList(GGC_List to, GGC_ListNode after, GGC_List from)
 
     GGC_PUSH_6(to, after, from, head, tail, next);
 
+    /* nothing to insert? */
+    if (!GGC_RP(from, head))
+        return;
+
     /* pull them out of the old list */
     fromlen = GGC_RD(from, length);
     head = GGC_RP(from, head);
@@ -249,6 +253,8 @@ void GGC_ListInsertAfterList(GGC_List to, GGC_ListNode after, GGC_List from)
     next = GGC_RP(after, next);
     GGC_WP(after, next, head);
     GGC_WP(tail, next, next);
+    if (!next)
+        GGC_WP(to, tail, tail);
 
     /* then set the length properly */
     tolen = GGC_RD(to, length) + fromlen;
-- 
2.43.0


From 0f21bccc7c92bc0ce77aabb00b376d94ac431968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 06/27] fix: a new or reused pool starts with no survivors and
 no finalizers

---
 allocator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allocator.c b/allocator.c
index dfb161f..a1ddbcd 100644
--- a/allocator.c
+++ b/allocator.c
@@ -126,6 +126,10 @@ struct GGGGC_Pool *ggggc_newPool(int mustSucceed)
     ret->next = NULL;
     ret->free = ret->start;
     ret->end = (ggc_size_t *) ((unsigned char *) ret + GGGGC_POOL_BYTES);
+    ret->survivors = 0;
+#ifdef GGGGC_FEATURE_FINALIZERS
+    ret->finalizers = NULL;
+#endif
 
     return ret;
 }
-- 
2.43.0


From b8e51bb32b9868d0547d499e73529c945a2746b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 07/27] fix: gembc handles user-tagged words on the JIT pointer
 stack

---
 collector/gembc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index b2e5496..ee4fd91 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -509,7 +509,7 @@ collect:
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (!IS_TAGGED(*((void *) jpsCur)))
+            if (!IS_TAGGED(*jpsCur))
                 TOSEARCH_ADD(jpsCur);
 #else
             int wordIdx;
@@ -987,7 +987,7 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (*jpsCur)
+            if (*jpsCur && !IS_TAGGED(*jpsCur))
                 FOLLOW_COMPACTED_OBJECT(*jpsCur);
 #else
             int wordIdx;
-- 
2.43.0


From 5f4f2e1daea90395c9101ba64cedb6db304c4083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 08/27] fix: portablems compiles with the JIT pointer stack and
 tagging or finalizers

---
 collector/portablems.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 9893de6..84682f3 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -201,6 +201,9 @@ struct GGGGC_Pool *ggggc_poolOf(void *obj)
 {
     struct GGGGC_PoolList *plCur, pool0Node;
     struct GGGGC_PointerStackList pointerStackNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    struct GGGGC_JITPointerStackList jitPointerStackNode;
+#endif
 
     /* hopefully it's a local pool, so we can simply find it */
     struct GGGGC_Pool *pool;
@@ -212,7 +215,12 @@ struct GGGGC_Pool *ggggc_poolOf(void *obj)
     /* Not a local pool. We have to stop the world to scan all the other
      * threads' pools, and in portablems, the only way to do that is a complete
      * collection. */
-    stopTheWorld(&pool0Node, &pointerStackNode);
+    stopTheWorld(
+        &pool0Node, &pointerStackNode
+#ifdef GGGGC_FEATURE_JITPSTACK
+        , &jitPointerStackNode
+#endif
+    );
 
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
         for (pool = plCur->pool; pool; pool = pool->next) {
@@ -585,7 +593,7 @@ void ggggc_collect0(unsigned char gen)
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (*jpsCur && !IS_TAGGED(*((void *) jpsCur)))
+            if (*jpsCur && !IS_TAGGED(*jpsCur))
                 mark(*jpsCur);
 #else
             int wordIdx;
-- 
2.43.0


From 2561e7a6d143da04e1d208deb4f8160ac09a0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 09/27] fix: ggggc_postCompact must not record a first object
 past the end of a full pool

---
 collector/gembc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index ee4fd91..32a8855 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1266,7 +1266,7 @@ void ggggc_postCompact(struct GGGGC_Pool *pool)
 
 #if GGGGC_GENERATIONS > 1
     /* and perhaps set firstObject for the free space */
-    if (pool->gen) {
+    if (pool->gen && pool->free < pool->end) {
         card = GGGGC_CARD_OF(pool->free);
         if (card != lastCard)
             pool->firstObject[card] = ((ggc_size_t) pool->free & GGGGC_CARD_INNER_MASK) / sizeof(ggc_size_t);
-- 
2.43.0


From 196e619157b33c1d446d921ac57f51e77ca89309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 10/27] fix: the remembered-card scan must stop at the end of
 the pool

---
 collector/gembc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 32a8855..5fef0de 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -542,7 +542,9 @@ collect:
                         ADD_OBJECT_POINTERS(obj, obj->descriptor__ptr);
                         obj = (struct GGGGC_Header *)
                             ((ggc_size_t) obj + obj->descriptor__ptr->size * sizeof(ggc_size_t));
-                        if (obj->descriptor__ptr == NULL) break;
+                        if ((ggc_size_t *) obj >= poolCur->end ||
+                            obj->descriptor__ptr == NULL)
+                            break;
                     }
                 }
             }
-- 
2.43.0


From f1dba0c927fab1052e6ff4b3e48806c041801ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 11/27] fix: GGC_PTR must shift a full word, not an int

---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index 6870515..d8925d0 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -229,7 +229,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 #define GGGGC_OFFSETOF(type, member) \
     ((ggc_size_t) &((type) 0)->member ## __ptr / sizeof(ggc_size_t))
 #define GGC_PTR(type, member) \
-    | (1<<GGGGC_OFFSETOF(type, member))
+    | ((ggc_size_t)1<<GGGGC_OFFSETOF(type, member))
 #define GGC_NO_PTRS | 0
 
 /* macros for array types */
-- 
2.43.0


From c8bf11baeeaf90108ddb9f810123022769339ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 12/27] fix: GGC_LENGTH reads the array's length

---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index d8925d0..b16e5cb 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -353,7 +353,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 #define GGC_RAP(object, index)  GGGGC_RP(object, a__ptrs[(index)])
 #define GGC_RAD(object, index)  GGGGC_RD(object, a__data[(index)])
 #define GGC_RUP(object)         ((object)->header.descriptor__ptr->user__ptr)
-#define GGC_LENGTH(object)      ((object)->header.descriptor__ptr->length)
+#define GGC_LENGTH(object)      ((object)->length)
 
 /* because the write barrier forces you to use identifiers, an identifier
  * version of NULL */
-- 
2.43.0


From 72b5eecbd6c066196f742b72235c550a6be516d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 13/27] fix: GGC_PUSH_N must record how many roots it pushed

---
 ggggc/push.h | 1 +
 pushgen.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ggggc/push.h b/ggggc/push.h
index a1bdb02..a268ac3 100644
--- a/ggggc/push.h
+++ b/ggggc/push.h
@@ -778,6 +778,7 @@ do { \
         alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \
     void *ggggc_pptrs[] = (void*[]) pptrs; \
     ggggc_pstack_cur->next = ggggc_pointerStack; \
+    ggggc_pstack_cur->size = ggggc_n; \
     memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \
     ggggc_pstack_cur->pointers[ggggc_n] = NULL; \
     ggggc_pointerStack = ggggc_pstack_cur; \
diff --git a/pushgen.c b/pushgen.c
index ebe3daa..65873a4 100644
--- a/pushgen.c
+++ b/pushgen.c
@@ -83,6 +83,7 @@ int main()
            "        alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \\\n"
            "    void *ggggc_pptrs[] = (void*[]) pptrs; \\\n"
            "    ggggc_pstack_cur->next = ggggc_pointerStack; \\\n"
+           "    ggggc_pstack_cur->size = ggggc_n; \\\n"
            "    memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \\\n"
            "    ggggc_pstack_cur->pointers[ggggc_n] = NULL; \\\n"
            "    ggggc_pointerStack = ggggc_pstack_cur; \\\n"
-- 
2.43.0


From daeefddd878e59a4c10cf5663575c7a9e9689dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 14/27] fix: size the descriptor-descriptor table for external
 tags too

---
 ggggc-internals.h | 2 +-
 globals.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ggggc-internals.h b/ggggc-internals.h
index 8f8f058..bc84806 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -107,7 +107,7 @@ extern struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 extern struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
 
 /* descriptor descriptors */
-extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
+extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)];
 
 /* and a lock for the descriptor descriptors */
 extern ggc_mutex_t ggggc_descriptorDescriptorsLock;
diff --git a/globals.c b/globals.c
index 136fb25..ae7ff66 100644
--- a/globals.c
+++ b/globals.c
@@ -24,5 +24,5 @@ ggc_thread_local struct GGGGC_Pool *ggggc_gen0;
 ggc_thread_local struct GGGGC_Pool *ggggc_pool0;
 struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
-struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
+struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)];
 ggc_mutex_t ggggc_descriptorDescriptorsLock;
-- 
2.43.0


From 5acb984e89a8f7e5ef71da6f7fb6bd9324c60744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 15/27] fix: mmap reports failure as MAP_FAILED, not NULL

---
 allocator/mmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator/mmap.c b/allocator/mmap.c
index d78474e..7fe376c 100644
--- a/allocator/mmap.c
+++ b/allocator/mmap.c
@@ -23,7 +23,7 @@ static void *allocPool(int mustSucceed)
 
     /* allocate enough space that we can align it later */
     space = (unsigned char *) mmap(NULL, GGGGC_POOL_BYTES*2, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANON, -1, 0);
-    if (space == NULL) {
+    if (space == (unsigned char *) MAP_FAILED) {
         if (mustSucceed) {
             perror("mmap");
             abort();
-- 
2.43.0


From f816d7e0e44d1ce2ff9f9bf3289d81976b1f35a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 16/27] fix: the malloc pool allocator releases its lock when
 it fails

---
 allocator/malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/allocator/malloc.c b/allocator/malloc.c
index 1aab88b..26936a7 100644
--- a/allocator/malloc.c
+++ b/allocator/malloc.c
@@ -37,6 +37,7 @@ static void *allocPool(int mustSucceed)
                 perror("malloc");
                 abort();
             }
+            ggc_mutex_unlock(&poolLock);
             return NULL;
         }
         spaceEnd = space + GGGGC_POOL_BYTES * i;
-- 
2.43.0


From c08a47fc0fcbe2e6eb0359459ee8388e334c8f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 17/27] fix: gembc finalizers: check even if the last pointer
 searched is null, keep every list across promotion

---
 collector/gembc.c | 188 ++++++++++++++++++++++++++--------------------
 1 file changed, 105 insertions(+), 83 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 5fef0de..577fabd 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -172,7 +172,6 @@ void *ggggc_malloc(struct GGGGC_Descriptor *descriptor)
 #ifdef GGGGC_FEATURE_FINALIZERS
 #define COLLECT_FULL_ARGS \
     GGGGC_FinalizerEntry *survivingFinalizersOut, \
-    GGGGC_FinalizerEntry *survivingFinalizersTailOut, \
     GGGGC_FinalizerEntry *readyFinalizersOut
 #else
 #define COLLECT_FULL_ARGS void
@@ -251,25 +250,27 @@ void ggggc_postCompact(struct GGGGC_Pool *);
 static struct ToSearch toSearchList;
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-/* macro to handle the finalizers for a given pool */
-#define FINALIZER_POOL() do { \
+/* macro to handle the finalizers for a given pool. survived is whether obj, which
+ * has been followed if it moved, survived. */
+#define FINALIZER_POOL(survived) do { \
+    int moved; \
     finalizer = (GGGGC_FinalizerEntry) poolCur->finalizers; \
     poolCur->finalizers = NULL; \
     while (finalizer) { \
         obj = (struct GGGGC_Header *) finalizer; \
-        if (IS_FORWARDED_OBJECT(obj)) \
-            FOLLOW_FORWARDED_OBJECT(obj); \
+        FOLLOW_FORWARDED_OBJECT(obj); \
         finalizer = (GGGGC_FinalizerEntry) obj; \
         nextFinalizer = finalizer->next__ptr; \
         \
         /* grab the object */ \
         obj = (struct GGGGC_Header *) finalizer->obj__ptr; \
-        if (IS_FORWARDED_OBJECT(obj)) { \
+        moved = IS_FORWARDED_OBJECT(obj) ? 1 : 0; \
+        (void) moved; \
+        FOLLOW_FORWARDED_OBJECT(obj); \
+        if (survived) { \
             /* it survived, keep the finalizer */ \
             finalizer->next__ptr = survivingFinalizers; \
             survivingFinalizers = finalizer; \
-            if (!survivingFinalizersTail) \
-                survivingFinalizersTail = finalizer; \
             \
         } else { \
             /* object died, add this to ready finalizers */ \
@@ -281,6 +282,31 @@ static struct ToSearch toSearchList;
         finalizer = nextFinalizer; \
     } \
 } while(0)
+
+/* add a list of finalizers to the finalizers kept by the pool its head is in */
+static void keepFinalizers(GGGGC_FinalizerEntry list)
+{
+    struct GGGGC_Header *obj;
+    GGGGC_FinalizerEntry tail;
+    struct GGGGC_Pool *pool;
+
+    if (!list) return;
+
+    /* the list's entries may have moved */
+    obj = (struct GGGGC_Header *) list;
+    FOLLOW_FORWARDED_OBJECT(obj);
+    list = tail = (GGGGC_FinalizerEntry) obj;
+    while (tail->next__ptr) {
+        obj = (struct GGGGC_Header *) tail->next__ptr;
+        FOLLOW_FORWARDED_OBJECT(obj);
+        tail = (GGGGC_FinalizerEntry) obj;
+    }
+
+    /* the pool may already have finalizers of its own */
+    pool = GGGGC_POOL_OF(list);
+    tail->next__ptr = (GGGGC_FinalizerEntry) pool->finalizers;
+    pool->finalizers = list;
+}
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
@@ -421,8 +447,8 @@ void ggggc_collect0(unsigned char gen)
 #endif
 #ifdef GGGGC_FEATURE_FINALIZERS
     int finalizersChecked;
-    GGGGC_FinalizerEntry survivingFinalizers, survivingFinalizersTail, readyFinalizers;
-    survivingFinalizers = survivingFinalizersTail = readyFinalizers = NULL;
+    GGGGC_FinalizerEntry survivingFinalizers, readyFinalizers;
+    survivingFinalizers = readyFinalizers = NULL;
 #endif
 
     /* first, make sure we stop the world */
@@ -488,7 +514,7 @@ collect:
     ) {
         ggggc_collectFull(
 #ifdef GGGGC_FEATURE_FINALIZERS
-            &survivingFinalizers, &survivingFinalizersTail, &readyFinalizers
+            &survivingFinalizers, &readyFinalizers
 #endif
         );
         goto postCollect;
@@ -557,10 +583,40 @@ collect:
 #endif
 
     /* now test all our pointers */
-    while (toSearch->used) {
+    while (1) {
         void **ptr;
         struct GGGGC_Header *obj;
 
+        if (!toSearch->used) {
+#ifdef GGGGC_FEATURE_FINALIZERS
+            /* nothing left to search, so check finalizers */
+            if (!finalizersChecked) {
+                GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+
+                finalizersChecked = 1;
+
+                /* add all the finalizers themselves */
+                for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+                    for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                        FINALIZER_POOL(GGGGC_GEN_OF(obj) > gen);
+                    }
+                }
+                for (genCur = 1; genCur <= gen; genCur++) {
+                    for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                        FINALIZER_POOL(GGGGC_GEN_OF(obj) > gen);
+                    }
+                }
+
+                /* then make sure the finalizer queues get promoted */
+                TOSEARCH_ADD((void **) (void *) &survivingFinalizers);
+                TOSEARCH_ADD((void **) (void *) &readyFinalizers);
+                continue;
+            }
+#endif /* GGGGC_FEATURE_FINALIZERS */
+
+            break;
+        }
+
         TOSEARCH_POP(void **, ptr);
         obj = (struct GGGGC_Header *) *ptr;
         if (obj == NULL) continue;
@@ -594,16 +650,9 @@ collect:
             if (!nobj) {
 #ifdef GGGGC_FEATURE_FINALIZERS
                 /* preserve all finalizers */
-                if (survivingFinalizers) {
-                    poolCur = GGGGC_POOL_OF(survivingFinalizers);
-                    poolCur->finalizers = survivingFinalizers;
-                    survivingFinalizersTail->next__ptr = readyFinalizers;
-                } else if (readyFinalizers) {
-                    poolCur = GGGGC_POOL_OF(readyFinalizers);
-                    poolCur->finalizers = readyFinalizers;
-                }
-                survivingFinalizers = survivingFinalizersTail =
-                    readyFinalizers = NULL;
+                keepFinalizers(survivingFinalizers);
+                keepFinalizers(readyFinalizers);
+                survivingFinalizers = readyFinalizers = NULL;
 #endif
 
                 /* failed to allocate, need to collect gen+1 too */
@@ -633,32 +682,6 @@ collect:
             abort();
         }
 #endif
-
-#ifdef GGGGC_FEATURE_FINALIZERS
-        /* perhaps check finalizers */
-        if (!toSearch->used && !finalizersChecked) {
-            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
-
-            finalizersChecked = 1;
-
-            /* add all the finalizers themselves */
-            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
-            }
-            for (genCur = 1; genCur <= gen; genCur++) {
-                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
-            }
-
-            /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&survivingFinalizersTail);
-            TOSEARCH_ADD(&readyFinalizers);
-        }
-#endif /* GGGGC_FEATURE_FINALIZERS */
     }
 #endif /* GGGGC_GENERATIONS > 1 */
 
@@ -666,10 +689,7 @@ postCollect:
 
 #ifdef GGGGC_FEATURE_FINALIZERS
     /* preserve surviving finalizers */
-    if (survivingFinalizers) {
-        poolCur = GGGGC_POOL_OF(survivingFinalizers);
-        poolCur->finalizers = survivingFinalizers;
-    }
+    keepFinalizers(survivingFinalizers);
 #endif
 
     /* heuristically expand too-small generations */
@@ -849,8 +869,8 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif
 #ifdef GGGGC_FEATURE_FINALIZERS
     int finalizersChecked = 0;
-    GGGGC_FinalizerEntry survivingFinalizers, survivingFinalizersTail, readyFinalizers;
-    survivingFinalizers = survivingFinalizersTail = readyFinalizers = NULL;
+    GGGGC_FinalizerEntry survivingFinalizers, readyFinalizers;
+    survivingFinalizers = readyFinalizers = NULL;
 #endif
 
     TOSEARCH_INIT();
@@ -892,11 +912,41 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif /* GGGGC_FEATURE_JITPSTACK */
 
     /* now mark */
-    while (toSearch->used) {
+    while (1) {
         void **ptr;
         struct GGGGC_Header *obj;
         ggc_size_t lastMark;
 
+        if (!toSearch->used) {
+#ifdef GGGGC_FEATURE_FINALIZERS
+            /* nothing left to search, so handle finalizers */
+            if (!finalizersChecked) {
+                GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+
+                finalizersChecked = 1;
+
+                /* add all the finalizers themselves */
+                for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+                    for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                        FINALIZER_POOL(moved);
+                    }
+                }
+                for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
+                    for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                        FINALIZER_POOL(moved);
+                    }
+                }
+
+                /* then make sure the finalizer queues get marked */
+                TOSEARCH_ADD((void **) (void *) &survivingFinalizers);
+                TOSEARCH_ADD((void **) (void *) &readyFinalizers);
+                continue;
+            }
+#endif /* GGGGC_FEATURE_FINALIZERS */
+
+            break;
+        }
+
         TOSEARCH_POP(void **, ptr);
         obj = (struct GGGGC_Header *) *ptr;
         if (obj == NULL) continue;
@@ -922,32 +972,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
             /* add its pointers */
             ADD_OBJECT_POINTERS(obj, descriptor);
         }
-
-#ifdef GGGGC_FEATURE_FINALIZERS
-        /* possibly start handling finalizers */
-        if (!toSearch->used && !finalizersChecked) {
-            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
-
-            finalizersChecked = 1;
-
-            /* add all the finalizers themselves */
-            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
-            }
-            for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
-                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
-            }
-
-            /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&survivingFinalizersTail);
-            TOSEARCH_ADD(&readyFinalizers);
-        }
-#endif /* GGGGC_FEATURE_FINALIZERS */
     }
 
     /* find all our sizes, for later compaction */
@@ -1020,7 +1044,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
     } \
 } while(0)
     F(survivingFinalizers);
-    F(survivingFinalizersTail);
     F(readyFinalizers);
 #undef F
 #endif
@@ -1061,7 +1084,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 
 #ifdef GGGGC_FEATURE_FINALIZERS
     *survivingFinalizersOut = survivingFinalizers;
-    *survivingFinalizersTailOut = survivingFinalizersTail;
     *readyFinalizersOut = readyFinalizers;
 #endif
 }
-- 
2.43.0


From c54c4544649c943f74dd753c6902b9385bfa7960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 18/27] fix: the world barrier cannot be initialized for zero
 threads

---
 threads.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/threads.c b/threads.c
index 4065b26..2ee1318 100644
--- a/threads.c
+++ b/threads.c
@@ -49,7 +49,8 @@ static void *ggggcThreadWrapper(void *arg)
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
     ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
+    if (--ggggc_threadCount)
+        ggc_barrier_init(&ggggc_worldBarrier, ggggc_threadCount);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* and give back its pools */
@@ -71,7 +72,8 @@ void ggc_pre_blocking()
     /* take ourselves out of contention */
     if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
     else ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
+    if (--ggggc_threadCount)
+        ggc_barrier_init(&ggggc_worldBarrier, ggggc_threadCount);
 
     /* add our roots and pools */
     blockedPoolListNode.pool = ggggc_gen0;
@@ -97,7 +99,7 @@ void ggc_post_blocking()
      * though. */
 
     /* add ourselves back to the world barrier */
-    ggc_barrier_destroy(&ggggc_worldBarrier);
+    if (ggggc_threadCount) ggc_barrier_destroy(&ggggc_worldBarrier);
     ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
 
     /* remove our roots and pools from the list */
-- 
2.43.0


From b13a4236d7853dfcd3408d8308b19f5c1127f918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 19/27] fix: a blocked thread's JIT pointer stack is a root too

---
 threads.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/threads.c b/threads.c
index 2ee1318..95095c1 100644
--- a/threads.c
+++ b/threads.c
@@ -61,6 +61,9 @@ static void *ggggcThreadWrapper(void *arg)
 
 static ggc_thread_local struct GGGGC_PoolList blockedPoolListNode;
 static ggc_thread_local struct GGGGC_PointerStackList blockedPointerStackListNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+static ggc_thread_local struct GGGGC_JITPointerStackList blockedJITPointerStackListNode;
+#endif
 
 /* call this before blocking */
 void ggc_pre_blocking()
@@ -82,6 +85,12 @@ void ggc_pre_blocking()
     blockedPointerStackListNode.pointerStack = ggggc_pointerStack;
     blockedPointerStackListNode.next = ggggc_blockedThreadPointerStacks;
     ggggc_blockedThreadPointerStacks = &blockedPointerStackListNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    blockedJITPointerStackListNode.cur = ggc_jitPointerStack;
+    blockedJITPointerStackListNode.top = ggc_jitPointerStackEnd;
+    blockedJITPointerStackListNode.next = ggggc_blockedThreadJITPointerStacks;
+    ggggc_blockedThreadJITPointerStacks = &blockedJITPointerStackListNode;
+#endif
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
@@ -91,6 +100,9 @@ void ggc_post_blocking()
 {
     struct GGGGC_PoolList *plCur;
     struct GGGGC_PointerStackList *pslCur;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    struct GGGGC_JITPointerStackList **jpslCur;
+#endif
 
     /* get a lock on the thread count etc */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0);
@@ -127,6 +139,14 @@ void ggc_post_blocking()
         }
 
     }
+#ifdef GGGGC_FEATURE_JITPSTACK
+    for (jpslCur = &ggggc_blockedThreadJITPointerStacks; *jpslCur; jpslCur = &(*jpslCur)->next) {
+        if (*jpslCur == &blockedJITPointerStackListNode) {
+            *jpslCur = (*jpslCur)->next;
+            break;
+        }
+    }
+#endif
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
-- 
2.43.0


From d61bb6f2354115990d1ee7e3d5ce1237dee5137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 20/27] fix: a thread that could not be created is not part of
 the world barrier

---
 threads/posix.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/threads/posix.c b/threads/posix.c
index 34f6449..71d4661 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -46,6 +46,7 @@ int ggc_thread_create(
         GGC_ThreadArg arg
 ) {
     ThreadInfo ti = NULL;
+    int err;
 
     GGC_PUSH_2(arg, ti);
 
@@ -63,8 +64,16 @@ int ggc_thread_create(
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* spawn the pthread */
-    if ((errno = pthread_create(thread, NULL, ggggcThreadWrapper, ti)))
+    if ((err = pthread_create(thread, NULL, ggggcThreadWrapper, ti))) {
+        /* no thread after all, so it's not part of the thread barrier */
+        while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
+            GGC_YIELD();
+        ggc_barrier_destroy(&ggggc_worldBarrier);
+        ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
+        ggc_mutex_unlock(&ggggc_worldBarrierLock);
+        errno = err;
         return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From dc070861e704f0e8de65e03bf5e9cf0db387caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 21/27] fix: portablems must keep what a blocked thread's
 unswept heap refers to

---
 collector/portablems.c | 54 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/collector/portablems.c b/collector/portablems.c
index 84682f3..292fd00 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -439,6 +439,11 @@ static void mark(struct GGGGC_Header *obj)
     }
 }
 
+/* get an object's descriptor, whether or not the object is marked */
+#define MARKED_DESCRIPTOR(obj) \
+    ((struct GGGGC_Descriptor *) (void *) \
+        ((ggc_size_t) (void *) (obj)->descriptor__ptr & (ggc_size_t) ~1))
+
 /* used by both sweep and clearFreeList */
 static ggc_thread_local ggc_size_t survivors, total;
 
@@ -547,6 +552,50 @@ void clearFreeList()
     }
 }
 
+/* A blocked thread can't sweep its own heap, so until it can, everything in it
+ * stays allocated, and so everything it refers to must stay allocated too. The
+ * sweep in the next collection that finds it unblocked frees what's dead. */
+static void markBlocked()
+{
+    struct GGGGC_PoolList *plCur;
+    struct GGGGC_Pool *pool;
+    for (plCur = ggggc_blockedThreadPool0s; plCur; plCur = plCur->next) {
+        for (pool = plCur->pool; pool; pool = pool->next) {
+            ggc_size_t *cur = pool->start;
+            while (cur < pool->end) {
+                struct GGGGC_Header *obj = (struct GGGGC_Header *) (void *) cur;
+                if (obj->descriptor__ptr) {
+                    mark(obj);
+                    cur += MARKED_DESCRIPTOR(obj)->size;
+                } else {
+                    cur += ((struct FreeListNode *) (void *) cur)->size;
+                }
+            }
+        }
+    }
+}
+
+/* remove the marks from blocked threads' heaps */
+static void unmarkBlocked()
+{
+    struct GGGGC_PoolList *plCur;
+    struct GGGGC_Pool *pool;
+    for (plCur = ggggc_blockedThreadPool0s; plCur; plCur = plCur->next) {
+        for (pool = plCur->pool; pool; pool = pool->next) {
+            ggc_size_t *cur = pool->start;
+            while (cur < pool->end) {
+                struct GGGGC_Header *obj = (struct GGGGC_Header *) (void *) cur;
+                if (obj->descriptor__ptr) {
+                    obj->descriptor__ptr = MARKED_DESCRIPTOR(obj);
+                    cur += obj->descriptor__ptr->size;
+                } else {
+                    cur += ((struct FreeListNode *) (void *) cur)->size;
+                }
+            }
+        }
+    }
+}
+
 /* run garbage collection */
 void ggggc_collect0(unsigned char gen)
 {
@@ -615,6 +664,8 @@ void ggggc_collect0(unsigned char gen)
     }
 #endif /* GGGGC_FEATURE_JITPSTACK */
 
+    markBlocked();
+
 #ifdef GGGGC_FEATURE_FINALIZERS
     /* look for finalized objects */
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
@@ -658,6 +709,9 @@ void ggggc_collect0(unsigned char gen)
     /* indicate that we're now ready to sweep */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
+    /* keep blocked threads' heaps as they are */
+    unmarkBlocked();
+
     /* sweep our own heap */
     sweep(ggggc_gen0);
 
-- 
2.43.0


From 65ffee5e67a68ff6ecf3814169629498e3462b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 22/27] fix: create threads under the world lock, so no
 collection waits for a thread that never starts

The barrier was raised before pthread_create and lowered again if that failed.
A collection starting in between waited for a thread that did not exist.
---
 threads/posix.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/threads/posix.c b/threads/posix.c
index 71d4661..ad07708 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -55,26 +55,24 @@ int ggc_thread_create(
     GGC_WD(ti, func, func);
     GGC_WP(ti, arg, arg);
 
-    /* update our thread barrier */
+    /* hold off collections while we spawn */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
-    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
-    else ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* spawn the pthread */
     if ((err = pthread_create(thread, NULL, ggggcThreadWrapper, ti))) {
         /* no thread after all, so it's not part of the thread barrier */
-        while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
-            GGC_YIELD();
-        ggc_barrier_destroy(&ggggc_worldBarrier);
-        ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
         ggc_mutex_unlock(&ggggc_worldBarrierLock);
         errno = err;
         return -1;
     }
 
+    /* update our thread barrier */
+    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
+    else ggc_barrier_destroy(&ggggc_worldBarrier);
+    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+
     return 0;
 }
 
-- 
2.43.0


From 5f665882cd3b069479c42b81bfdb47e1d44a21ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 23/27] fix: don't leave globalized roots registered twice
 until their scope ends

Compaction follows every registered root to its object's new location. Between
GGC_GLOBALIZE and the end of the scope (all of main, for globals pushed there)
each variable was registered both locally and globally, and so was moved on
twice, to the new location of some other object.
---
 roots.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/roots.c b/roots.c
index 75b7db0..32d029d 100644
--- a/roots.c
+++ b/roots.c
@@ -48,6 +48,9 @@ void ggggc_globalize()
     }
     ggggc_pointerStackGlobals->next = gPointerStack;
     ggggc_pointerStackGlobals = gPointerStack;
+
+    /* the global copy is the one to scan, as no root may be scanned twice */
+    ggggc_pointerStack->size = 0;
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 201e157fdb75eb3b961e6bb85a7a9f83ae8b9ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 24/27] fix: a new descriptor-descriptor may have moved before
 it is returned

---
 allocator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/allocator.c b/allocator.c
index a1ddbcd..30c3c97 100644
--- a/allocator.c
+++ b/allocator.c
@@ -265,7 +265,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
         GGC_GLOBALIZE();
     }
 
-    return ret;
+    /* registering it may have yielded to a collection, which moves it */
+    return ggggc_descriptorDescriptors[size];
 }
 
 /* allocate a descriptor for an object of the given size in words with the
-- 
2.43.0


From 056a90ab66430293381303d61fc1146b2ef94010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:06 +0000
Subject: [PATCH 25/27] fix: gembc finalizer lists must not reach from a
 generation into a younger one

---
 collector/gembc.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 577fabd..816e083 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -283,29 +283,27 @@ static struct ToSearch toSearchList;
     } \
 } while(0)
 
-/* add a list of finalizers to the finalizers kept by the pool its head is in */
+/* give each of a list of finalizers back to the pool it is in, so that no list
+ * reaches from a generation into a younger one */
 static void keepFinalizers(GGGGC_FinalizerEntry list)
 {
     struct GGGGC_Header *obj;
-    GGGGC_FinalizerEntry tail;
+    GGGGC_FinalizerEntry next;
     struct GGGGC_Pool *pool;
 
-    if (!list) return;
-
-    /* the list's entries may have moved */
-    obj = (struct GGGGC_Header *) list;
-    FOLLOW_FORWARDED_OBJECT(obj);
-    list = tail = (GGGGC_FinalizerEntry) obj;
-    while (tail->next__ptr) {
-        obj = (struct GGGGC_Header *) tail->next__ptr;
+    while (list) {
+        /* the list's entries may have moved */
+        obj = (struct GGGGC_Header *) list;
         FOLLOW_FORWARDED_OBJECT(obj);
-        tail = (GGGGC_FinalizerEntry) obj;
-    }
+        list = (GGGGC_FinalizerEntry) obj;
+        next = list->next__ptr;
 
-    /* the pool may already have finalizers of its own */
-    pool = GGGGC_POOL_OF(list);
-    tail->next__ptr = (GGGGC_FinalizerEntry) pool->finalizers;
-    pool->finalizers = list;
+        pool = GGGGC_POOL_OF(list);
+        list->next__ptr = (GGGGC_FinalizerEntry) pool->finalizers;
+        pool->finalizers = list;
+
+        list = next;
+    }
 }
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
-- 
2.43.0


From 1a9e956cbafc6ec2a1574e0278443882d4f20976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 26/27] fix: GGC_PUSH_N must compile with gcc

---
 ggggc/push.h | 2 +-
 pushgen.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ggggc/push.h b/ggggc/push.h
index a268ac3..3de0d5d 100644
--- a/ggggc/push.h
+++ b/ggggc/push.h
@@ -776,7 +776,7 @@ do { \
     struct GGGGC_PointerStack *ggggc_pstack_cur = \
         (struct GGGGC_PointerStack *) \
         alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \
-    void *ggggc_pptrs[] = (void*[]) pptrs; \
+    void **ggggc_pptrs = (void*[]) pptrs; \
     ggggc_pstack_cur->next = ggggc_pointerStack; \
     ggggc_pstack_cur->size = ggggc_n; \
     memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \
diff --git a/pushgen.c b/pushgen.c
index 65873a4..1931f25 100644
--- a/pushgen.c
+++ b/pushgen.c
@@ -81,7 +81,7 @@ int main()
            "    struct GGGGC_PointerStack *ggggc_pstack_cur = \\\n"
            "        (struct GGGGC_PointerStack *) \\\n"
            "        alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \\\n"
-           "    void *ggggc_pptrs[] = (void*[]) pptrs; \\\n"
+           "    void **ggggc_pptrs = (void*[]) pptrs; \\\n"
            "    ggggc_pstack_cur->next = ggggc_pointerStack; \\\n"
            "    ggggc_pstack_cur->size = ggggc_n; \\\n"
            "    memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \\\n"
-- 
2.43.0


From eca14f834a7286ff72eaedbcd6218810da56717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 27/27] fix: define ggc_sem_wait, which the POSIX threads
 header declares

---
 threads/posix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/threads/posix.c b/threads/posix.c
index ad07708..b73ab61 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -40,6 +40,11 @@ BLOCKING(
     pthread_mutex_lock(mutex)
 )
 
+BLOCKING(
+    ggc_sem_wait(ggc_sem_t *sem),
+    (sem_wait(sem) ? errno : 0)
+)
+
 int ggc_thread_create(
         ggc_thread_t *thread,
         void (*func)(GGC_ThreadArg),
-- 
2.43.0

