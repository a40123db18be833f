From 4a3512e2810fe32601e64b358be38d575f65758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 1/7] fix: string_slice::equals_sloppy compares only len bytes
 for 16-bit slices (integer promotion)

---
 MassTree/string_slice.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/string_slice.hh b/MassTree/string_slice.hh
index 697932f..2bb6f29 100644
--- a/MassTree/string_slice.hh
+++ b/MassTree/string_slice.hh
@@ -159,7 +159,7 @@ template <typename T> struct string_slice {
 # if WORDS_BIGENDIAN
             return (delta >> (8 * (size - len))) == 0;
 # else
-            return (delta << (8 * (size - len))) == 0;
+            return T(delta << (8 * (size - len))) == 0;
 # endif
         }
 #endif
-- 
2.43.0


From 0246b8485edcde00fe38020dc62e790d56d2874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 2/7] fix: ARTOLC Tree::lookup validates the node before
 reporting a key shorter than the path as absent

---
 ARTOLC/Tree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 4f515f9..638de45 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -56,6 +56,8 @@ namespace ART_OLC {
                     // fallthrough
                 case CheckPrefixResult::Match:
                     if (k.getKeyLen() <= level) {
+                        node->readUnlockOrRestart(v, needRestart);
+                        if (needRestart) goto restart;
                         return 0;
                     }
                     parentNode = node;
-- 
2.43.0


From 61bc605467959aeea2c2939b9339aebbac954e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:49 +0000
Subject: [PATCH 3/7] fix: BTreeOLC lookup of an absent key returned an
 uninitialised result

---
 BTreeOLC/BTreeOLC.h              | 2 +-
 BTreeOLC/BTreeOLC_child_layout.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BTreeOLC/BTreeOLC.h b/BTreeOLC/BTreeOLC.h
index e7826a9..10cc283 100644
--- a/BTreeOLC/BTreeOLC.h
+++ b/BTreeOLC/BTreeOLC.h
@@ -391,7 +391,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->keys[pos]==k)) {
       success = true;
       result = leaf->payloads[pos];
diff --git a/BTreeOLC/BTreeOLC_child_layout.h b/BTreeOLC/BTreeOLC_child_layout.h
index 2f8e953..94fd1e2 100644
--- a/BTreeOLC/BTreeOLC_child_layout.h
+++ b/BTreeOLC/BTreeOLC_child_layout.h
@@ -390,7 +390,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->data[pos].first==k)) {
       success = true;
       result = leaf->data[pos].second;
-- 
2.43.0


From 5f739c2f8b7bc265651c6346fc8e5931d13a0964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:49 +0000
Subject: [PATCH 4/7] hook: BTreeOLC page size can be set by VP_PAGE_SIZE
 (verification only)

---
 BTreeOLC/BTreeOLC.h              | 4 ++++
 BTreeOLC/BTreeOLC_child_layout.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/BTreeOLC/BTreeOLC.h b/BTreeOLC/BTreeOLC.h
index 10cc283..46147bb 100644
--- a/BTreeOLC/BTreeOLC.h
+++ b/BTreeOLC/BTreeOLC.h
@@ -10,7 +10,11 @@ namespace btreeolc {
 
 enum class PageType : uint8_t { BTreeInner=1, BTreeLeaf=2 };
 
+#ifdef VP_PAGE_SIZE
+static const uint64_t pageSize=VP_PAGE_SIZE;
+#else
 static const uint64_t pageSize=4*1024;
+#endif
 
 struct OptLock {
   std::atomic<uint64_t> typeVersionLockObsolete{0b100};
diff --git a/BTreeOLC/BTreeOLC_child_layout.h b/BTreeOLC/BTreeOLC_child_layout.h
index 94fd1e2..571e239 100644
--- a/BTreeOLC/BTreeOLC_child_layout.h
+++ b/BTreeOLC/BTreeOLC_child_layout.h
@@ -20,7 +20,11 @@ namespace btreeolc {
 
 enum class PageType : uint8_t { BTreeInner=1, BTreeLeaf=2 };
 
+#ifdef VP_PAGE_SIZE
+static const uint64_t pageSize=VP_PAGE_SIZE;
+#else
 static const uint64_t pageSize=4*1024;
+#endif
 
 struct OptLock {
   std::atomic<uint64_t> typeVersionLockObsolete{0b100};
-- 
2.43.0


From a952e2aa2c5fbb69bae6185e77b3c589cbbcdcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:33 +0000
Subject: [PATCH 5/7] hook: wormhole leaf size can be set by VP_WH_KPN
 (verification only)

---
 wormhole/wh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wormhole/wh.c b/wormhole/wh.c
index ffb1da6..42ced24 100644
--- a/wormhole/wh.c
+++ b/wormhole/wh.c
@@ -23,7 +23,11 @@
 #define WH_SLABLEAF_SIZE ((1lu << 21)) // 2MB for valgrind
 #endif
 
+#ifdef VP_WH_KPN // verification only
+#define WH_KPN ((VP_WH_KPN))
+#else
 #define WH_KPN ((128u)) // keys per node; power of 2
+#endif
 #define WH_HDIV (((1u << 16)) / WH_KPN)
 #define WH_MID ((WH_KPN >> 1)) // ideal cut point for split, the closer the better
 #define WH_BKT_NR ((8))
-- 
2.43.0


From 72a2d0afa3d4dfe05a9324f4f04448b80afb3bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:23 +0000
Subject: [PATCH 6/7] fix: OptiQL update validates the node at the last key
 level before trusting it

traverseToLeafEx relied on the (now disabled) exclusive lock at the last level and skipped
checkOrRestart there: a child read during a concurrent write could be taken for an absent key.
---
 OptiQL/Tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index a5fafb9..f698140 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -648,7 +648,7 @@ restart:
         }
         parentNode = node;
         node = N::getChild(k[level], parentNode);
-        if (level < k.getKeyLen() - 1) {
+        if (!lockAcquired) {
           parentNode->checkOrRestart(v, needRestart);
           if (needRestart) goto restart;
         }
-- 
2.43.0


From 1fc2e3e5283874cbebbba671d3d869244ddd5e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:25 +0000
Subject: [PATCH 7/7] fix: OptiQL tryExpand computes the path length without
 wrapping for 1-byte keys

level + 1 <= keyLen - 2 is always true for a key of one byte (unsigned), so a contended leaf was
replaced by a path of four billion bytes.
---
 OptiQL/Tree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index f698140..5f33528 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -969,14 +969,14 @@ expand:
   parentNode->hotness = 0;
 
   N *leaf = nullptr;
-  if (level + 1 <= k.getKeyLen() - 2) {
+  if (level + 3 <= k.getKeyLen()) {
     uint32_t prefixLength = k.getKeyLen() - 2 - (level + 1);
     auto n4p = new N4(&k[level + 1], prefixLength);
     auto n4c = new N4(&k[level + 1 + prefixLength], 0);
     n4p->insert(k[level + 1 + prefixLength], n4c);
     n4c->insert(k[level + 1 + prefixLength + 1], tid);
     leaf = n4p;
-  } else if (level + 1 == k.getKeyLen() - 1) {
+  } else if (level + 2 == k.getKeyLen()) {
     auto n4 = new N4(&k[level + 1], 0);
     n4->insert(k[level + 1], tid);
     leaf = n4;
-- 
2.43.0

