From 84d6710223ff7cdd349451209f44b59978f9c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 01/18] fix: make ~ConcurrentHashMap compile and unmap the
 mapped pairs of a table

---
 containers/cliffMap/hashMap.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index d97a9a3..2a52320 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -752,8 +752,8 @@ public:
         }
         static bool munmapTable(Table *table)
         {
-            size_t size = table->chm.size.load();
-            bool ret = (munmap(table, (sizeof(KVpair) * size)) != 0);
+            // Unmap the pairs, which are what mmapTable() mapped. The table itself is on the heap.
+            bool ret = (munmap(table->pairs, (sizeof(KVpair) * table->len)) == 0);
             delete table;
             return ret;
         }
@@ -881,10 +881,10 @@ public:
     ~ConcurrentHashMap()
     {
         // TODO: Unmap all mapped files, I guess.
-        Table *table = table.load();
+        Table *table = this->table.load();
         // Unmap the file.
         // TODO: What about the other files?
-        if (!munmapTable(table))
+        if (!Table::munmapTable(table))
         {
             // Error.
             fprintf(stderr, "Failed to unmap the file from memory.\n");
-- 
2.43.0


From fa11438cc788dffcd074419b351d33805b636051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 02/18] fix: remove(key) reports whether the key was bound

---
 containers/cliffMap/hashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 2a52320..354160c 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -916,7 +916,7 @@ public:
     }
     bool remove(Key key)
     {
-        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD);
+        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD) != VINITIAL;
     }
     // Remove key with specified value.
     bool remove(Key key, Value value)
-- 
2.43.0


From 416381a74b1869f50dab157b82d9cbd328ce38db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 03/18] fix: update() applies its function when the argument
 equals the current value

---
 containers/cliffMap/hashMap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 354160c..667fb00 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -1137,7 +1137,8 @@ public:
         // Now we have a key slot.
 
         // If the value we want to place is already there.
-        if (newVal == V)
+        // (A custom function computes its own new value, so it must still be applied.)
+        if (newVal == V && CAS == &Table::CASvalue)
         {
             // Then we can get away with doing nothing.
             return V;
-- 
2.43.0


From 9c85d7cf6ba6dcc74500956824bdf867d132fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 04/18] fix: keep the update function when an operation moves
 on to a larger table

---
 containers/cliffMap/hashMap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 667fb00..8395b59 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -1125,7 +1125,7 @@ public:
                 }
                 // Try again in the new table.
                 // This is a recursive call.
-                return putIfMatch(newTable, key, newVal, oldVal);
+                return putIfMatch(newTable, key, newVal, oldVal, CAS);
 #else
                 // The key is not present.
                 return VINITIAL;
@@ -1162,7 +1162,7 @@ public:
         {
             // Copy the slot and retry in the new table.
             // This is a recursive call to the new table.
-            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
         }
 #endif
         // Update the existing table.
@@ -1223,7 +1223,7 @@ public:
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
             if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
             {
-                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
             }
 #endif
             // Otherwise retry our put.
-- 
2.43.0


From 09fd239d1990f6ca52a51ca9745ddb6c67938aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 05/18] fix: a failed persistent CAS never reports the dirty
 flag or fails on it

---
 include/persistence.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/persistence.hpp b/include/persistence.hpp
index 9ab0f17..40fc5eb 100644
--- a/include/persistence.hpp
+++ b/include/persistence.hpp
@@ -99,6 +99,18 @@ static bool pcas(std::atomic<U> *address, U &oldVal, U newVal)
     pcas_read<U>(address);
     // Attempt to CAS.
     bool ret = address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag));
+    // We may have met a value that was placed after the read above and is not persisted yet.
+    // Persist it and compare again without the flag, which must never be visible to the caller.
+    while (!ret && ((uintptr_t)oldVal & DirtyFlag) != 0)
+    {
+        persist(address, oldVal);
+        oldVal = (U)((uintptr_t)oldVal & ~DirtyFlag);
+        if (oldVal != oldValCopy)
+        {
+            break;
+        }
+        ret = address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag));
+    }
     assert((ret && oldValCopy == oldVal) || (!ret && oldValCopy != oldVal));
     return ret;
 }
-- 
2.43.0


From babec80c12b3cb1bad516b8616856cfe3003163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 06/18] fix: ucf adapter insert() reports whether the key was
 new

---
 containers/ucfMap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/containers/ucfMap.hpp b/containers/ucfMap.hpp
index 78a07f5..3b970af 100644
--- a/containers/ucfMap.hpp
+++ b/containers/ucfMap.hpp
@@ -17,7 +17,8 @@ namespace ucf
             //assert((shiftedEl >> ConcurrentHashMap<KeyT, ValT>::BITS_MARKED) == el);
 
             ValT x = c->put(shiftedEl, shiftedEl);
-            return x == shiftedEl;
+            // A reserved value means that the key was not in the map before.
+            return ConcurrentHashMap<KeyT, ValT>::isValueReserved(x);
         }
 
         bool erase(ValT el)
-- 
2.43.0


From cc98f20fa25a94c4b08bf3f53354aa70c888a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 07/18] fix: a helper of a table migration does not wait for
 the report of a stalled thread

---
 containers/cliffMap/hashMap.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 8395b59..da2d774 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -456,6 +456,13 @@ public:
                     // Move on to the next chunk of work.
                     copyIdx += MIN_COPY_WORK;
 
+                    // After a panic, stop once we have gone over every slot ourselves.
+                    // Nothing is left to move then. Only a stalled thread's report may be outstanding, and we must not wait for it.
+                    if (panicStart != -1 && copyIdx >= panicStart + oldLen)
+                    {
+                        break;
+                    }
+
                     // Stop working after just doing the bare minimum amount of work.
                     // NOTE: This can be commented out to instead keep taking on additional chunks of work until the whole resize process is complete.
                     // if (!copyAll && panicStart == -1)
-- 
2.43.0


From eac1b714ee268489006d7e73a48543014c96c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 08/18] fix: a stalled copy never brings back a key that was
 removed in a newer table

---
 containers/cliffMap/hashMap.hpp | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index da2d774..c64c701 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -78,6 +78,8 @@ class ConcurrentHashMap
     static Key KTOMBSTONE;
     // Primed tombstone. Marked to prevent any updates to the location, used for resizing.
     static Value TOMBPRIME;
+    // Primed initial value. Like TOMBPRIME, but tells that there never was a value in this slot.
+    static Value INITPRIME;
 
     // Heuristics for resizing.
     // Consider a reprobes heuristic, or some alternative, to indicate when to resize and gather statistics on key distribution.
@@ -163,14 +165,14 @@ public:
                 while (!isMarked((uintptr_t)oldVal, MigrationFlag))
                 {
                     // If there isn't a usable value to migrate, replace it with a tombprime. Otherwise, mark it.
-                    Value mark = (oldVal == VINITIAL || oldVal == VTOMBSTONE) ? TOMBPRIME : (Value)setMark((uintptr_t)oldVal, MigrationFlag);
+                    Value mark = (oldVal == VINITIAL) ? INITPRIME : (oldVal == VTOMBSTONE) ? TOMBPRIME : (Value)setMark((uintptr_t)oldVal, MigrationFlag);
                     // Attempt the CAS.
                     Value actualVal = CASvalue(oldTable, idx, oldVal, mark);
                     // If we succeeded.
                     if (actualVal == oldVal)
                     {
                         // If we replaced an empty spot.
-                        if (mark == TOMBPRIME)
+                        if (mark == TOMBPRIME || mark == INITPRIME)
                         {
                             // We are already done.
                             return true;
@@ -189,7 +191,7 @@ public:
                 // We have successfully marked the value.
 
                 // If we marked with a tombstone.
-                if (oldVal == TOMBPRIME)
+                if (oldVal == TOMBPRIME || oldVal == INITPRIME)
                 {
                     // No need to migrate a value. We are done.
                     return false;
@@ -694,12 +696,12 @@ public:
                     }
 
                     // Anything that's not a sentinel.
-                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
+                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME && V != INITPRIME)
                     {
                         table->chm.size.fetch_add(1);
                     }
                     // Anything left that's not a tombstone.
-                    else if (V != VTOMBSTONE && V != TOMBPRIME)
+                    else if (V != VTOMBSTONE && V != TOMBPRIME && V != INITPRIME)
                     {
                         table->chm.slots.fetch_add(1);
                     }
@@ -817,7 +819,8 @@ public:
                     // If the value is a tombstone, initial value, or migrated.
                     if (val == VTOMBSTONE ||
                         val == VINITIAL ||
-                        val == TOMBPRIME)
+                        val == TOMBPRIME ||
+                        val == INITPRIME)
                     {
                         // Then migration for this value is complete.
                         continue;
@@ -1152,6 +1155,12 @@ public:
         }
 
 #ifdef RESIZE
+        // A migration never replaces a value that is or was in the newer table, even if that value has moved on since.
+        if (oldVal == VINITIAL && V != VINITIAL && V != INITPRIME)
+        {
+            return V;
+        }
+
         // Consider allocating a newer table for placement.
         // If a new table hasn't already been allocated.
         if (newTable == nullptr &&
@@ -1227,6 +1236,11 @@ public:
                 V = actualValue;
             }
 #ifdef RESIZE
+            // Again, a migration gives way to a value that appeared in the meantime.
+            if (oldVal == VINITIAL && V != VINITIAL && V != INITPRIME)
+            {
+                return V;
+            }
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
             if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
             {
@@ -1266,6 +1280,9 @@ public:
         case TOMBPRIME:
             stream << "TOMBPRIME";
             break;
+        case INITPRIME:
+            stream << "INITPRIME";
+            break;
         case MATCH_ANY:
             stream << "MATCH_ANY";
             break;
@@ -1324,7 +1341,7 @@ public:
     // If it is reserved, then it serves a special purpose as a sentinel.
     static bool isValueReserved(Value value)
     {
-        return value == VINITIAL || value == VTOMBSTONE || value == TOMBPRIME || value == MATCH_ANY || value == NO_MATCH_OLD;
+        return value == VINITIAL || value == VTOMBSTONE || value == TOMBPRIME || value == INITPRIME || value == MATCH_ANY || value == NO_MATCH_OLD;
     }
 
 private:
@@ -1361,6 +1378,8 @@ Value ConcurrentHashMap<Key, Value, Hash>::VTOMBSTONE = ((((size_t)1 << 62) - 2)
 template <typename Key, typename Value, class Hash>
 Value ConcurrentHashMap<Key, Value, Hash>::TOMBPRIME = (size_t)setMark(VTOMBSTONE, MigrationFlag);
 template <typename Key, typename Value, class Hash>
+Value ConcurrentHashMap<Key, Value, Hash>::INITPRIME = (size_t)setMark(VINITIAL, MigrationFlag);
+template <typename Key, typename Value, class Hash>
 Value ConcurrentHashMap<Key, Value, Hash>::MATCH_ANY = ((((size_t)1 << 62) - 3) << BITS_MARKED);
 template <typename Key, typename Value, class Hash>
 Value ConcurrentHashMap<Key, Value, Hash>::NO_MATCH_OLD = ((((size_t)1 << 62) - 4) << BITS_MARKED);
-- 
2.43.0


From 980eb3c3c9809ff8d144d8adab435477b798fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 09/18] fix: take the lock in the reading calls of the
 standard-map adapter

---
 containers/stlMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/containers/stlMap.hpp b/containers/stlMap.hpp
index 9d10f83..ec38759 100644
--- a/containers/stlMap.hpp
+++ b/containers/stlMap.hpp
@@ -38,6 +38,7 @@ namespace stl
 
         ValT get(KeyT el)
         {
+            guard_type g(global_lock);
             try
             {
                 return c->at(el);
@@ -50,6 +51,7 @@ namespace stl
 
         size_t count()
         {
+            guard_type g(global_lock);
             return c->size();
         }
 
-- 
2.43.0


From 36eb036ce73672b03c19a997b4d29534414eda0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 10/18] fix: open existing table files only on recovery and
 never as new tables

---
 containers/cliffMap/hashMap.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index c64c701..37f1943 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -628,16 +628,16 @@ public:
                 count = Table::numFromName(fileName);
             }
 
-            // If we want to map a new file.
-            if (newTable)
+            // If we want to map an existing file.
+            if (!newTable)
             {
                 // Try to open an existing hash table.
                 fd = open(fileName, O_RDWR);
             }
-            // If we want to map an existing file.
+            // If we want to map a new file.
             else
             {
-                // We will open the existing file.
+                // Never reuse the content of an existing file.
                 // Report table doesn't exist.
                 fd = -1;
             }
-- 
2.43.0


From fdf16526b60762c7ae20c8a101612b303b47b40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 11/18] fix: give a table file its name only after it is
 initialised and persisted

---
 containers/cliffMap/hashMap.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 37f1943..a2cd800 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -711,7 +711,9 @@ public:
             else
             {
                 // Create and open the file.
-                fd = open(fileName, O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
+                // It only gets its final name once it is initialized, so that recovery never finds a partial table.
+                const std::string tempName = std::string(fileName) + ".tmp";
+                fd = open(tempName.c_str(), O_RDWR | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR);
                 if (fd == -1)
                 {
                     // Error.
@@ -748,6 +750,12 @@ public:
                 // Persist all keys and values.
                 // Everything else can be inferred upon recovery.
                 PERSIST(pairs, sizeof(KVpair) * tableCapacity);
+                if (std::rename(tempName.c_str(), fileName) != 0)
+                {
+                    // Error.
+                    std::cerr << "Failed to name a new file." << std::endl;
+                    throw std::runtime_error("cannot create or open file");
+                }
                 // Allocate our table.
                 // We pass in the location of our KV pairs to assign them to the structure.
                 // We pass in the size of the table to assign the length.
-- 
2.43.0


From 87ff66a63374da24e2c57c0bf902e1fc49fa1771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 12/18] fix: persist a migrated pair before the old table
 forgets it

---
 containers/cliffMap/hashMap.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index a2cd800..8960d2a 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -1221,7 +1221,13 @@ public:
             {
                 // Adjust the size counters for the table.
                 // If this was a table copy, do nothing.
-                if (oldVal != VINITIAL)
+                // It must be durable though, before the old table forgets the pair.
+                if (oldVal == VINITIAL)
+                {
+                    table->key(idx);
+                    table->value(idx);
+                }
+                else
                 {
                     // If we removed an initial or tombstone value with a non-tombstone.
                     if ((V == VINITIAL || V == VTOMBSTONE) && newVal != VTOMBSTONE)
-- 
2.43.0


From f95d8a462049c479171c089ebb122ebeed933362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 13/18] fix: remove the file of a table that lost the race to
 become the new table

---
 containers/cliffMap/hashMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 8960d2a..0080108 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -366,6 +366,8 @@ public:
                     // Failure means some other thread succeeded.
                     // Free the allocated memory.
                     munmapTable(newTable);
+                    // Nobody uses its file.
+                    std::remove(filename.c_str());
                     // And get the table that was placed.
                     newTable = this->newTable.load();
                     // The new table should never be NULL.
-- 
2.43.0


From e8c8a752af9b0d00d74d0414417e8481652a0c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 14/18] fix: an insert that a crash interrupted does not hide
 the value being migrated

---
 containers/cliffMap/hashMap.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 0080108..6c22ed5 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -684,18 +684,8 @@ public:
                     Value V = table->value(i);
                     Key K = table->key(i);
 
-                    // While we're at it, check for inconsistent table entries.
-                    // THis is the only situation I've come up with where we could have a problem with partial persists.
-                    if (K != KINITIAL && V == VINITIAL)
-                    {
-                        // If the key has been set but the value hasn't, then we have an incomplete insert on our hands.
-                        // Just make it a tombstone since we don't know what value it should have been.
-                        Table::CASvalue(table, i, VINITIAL, VTOMBSTONE);
-                        // Update the replaced value for subsequent use in this loop.
-                        V = table->value(i);
-                        // We should always succeed. We are running sequentially, after all.
-                        assert(V == VTOMBSTONE);
-                    }
+                    // NOTE: If the key has been set but the value hasn't, then we have an incomplete insert on our hands.
+                    // It must not become a tombstone, since that would hide a value that was about to migrate into this slot.
 
                     // Anything that's not a sentinel.
                     if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME && V != INITPRIME)
-- 
2.43.0


From 4072e5d09da3b6e2df4b14daf7e6602d0f4f1ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 15/18] fix: recovery finds, orders and links the table files
 and completes every migration

---
 containers/cliffMap/hashMap.hpp | 136 ++++++++++++++------------------
 1 file changed, 61 insertions(+), 75 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 6c22ed5..b67eced 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -32,9 +32,12 @@
 #include <cassert>
 #include <chrono>
 #include <cstddef>
+#include <algorithm>
 #include <filesystem>
 #include <iostream>
+#include <string>
 #include <utility>
+#include <vector>
 
 // Fast hashing library.
 #include "xxhash.hpp"
@@ -397,6 +400,15 @@ public:
                 return shouldHelp ? newTable : hashMap->helpCopy(newTable);
             }
 
+            // Migrate every slot, whatever was already migrated. Only meant for recovery, which runs on one thread.
+            void copyAllSlots(ConcurrentHashMap<Key, Value, Hash> *hashMap, Table *oldTable)
+            {
+                for (size_t i = 0; i < oldTable->len; i++)
+                {
+                    copySlot(hashMap, i, oldTable, newTable.load());
+                }
+            }
+
             // Help migrate the table.
             // Do not migrate the whole table by default.
             void helpCopyImpl(ConcurrentHashMap<Key, Value, Hash> *hashMap, Table *oldTable, bool copyAll = false)
@@ -774,104 +786,78 @@ public:
         // Recovery.
         if (reconstruct)
         {
-            std::vector<std::string> tableNames;
+            // The number and the full name of each table file.
+            std::vector<std::pair<size_t, std::string>> tableNames;
             std::vector<Table *> tables;
-            std::string lastTableName;
 
             // Get the table names.
             std::filesystem::path path = fileDir;
             for (auto &p : std::filesystem::directory_iterator(path))
             {
-                const std::string filenameStr = p.path().filename().string();
-                if (p.is_regular_file())
+                const std::string filenameStr = p.path().string();
+                // Anything else is no table, or was never completed.
+                if (p.is_regular_file() && p.path().extension().string() == ".dat")
                 {
-                    tableNames.push_back(filenameStr);
+                    tableNames.push_back(std::make_pair(Table::numFromName(filenameStr.c_str()), filenameStr));
                 }
             }
 
-            // Sort the tables by name.
-            std::sort(tableNames.begin(), tableNames.end(),
-                      [](std::string a, std::string b)
-                      {
-                          return a.compare(b) < 0;
-                      });
-
-            // For each table.
-            // Map the table.
-            // Check if the table is empty or migrated.
-            for (auto it = tableNames.begin(); it != tableNames.end(); ++it)
-            {
-                // Allocate an mmapped table.
-                Table *table = Table::mmapTable(!reconstruct, size, 0, (*it).c_str());
+            // Sort the tables by number, from the oldest to the newest.
+            std::sort(tableNames.begin(), tableNames.end());
 
-                // If the table is empty, deallocate it and continue.
-                if (table->chm.size.load() == 0)
+            // Ensure we use unique file names, including those for tables that recovery needs.
+            for (auto &name : tableNames)
+            {
+                if (fileNameCounter.load() <= name.first)
                 {
-                    Table::munmapTable(table);
+                    fileNameCounter.store(name.first + 1);
                 }
+            }
 
-                // If the table is fully migrated, deallocate it and continue.
-                bool migrationDone = true;
-                // Check for non-migrated values.
-                for (size_t i = 0; i < table->len; i++)
-                {
-                    ValT val = table->value(i);
-                    // If the value is a tombstone, initial value, or migrated.
-                    if (val == VTOMBSTONE ||
-                        val == VINITIAL ||
-                        val == TOMBPRIME ||
-                        val == INITPRIME)
-                    {
-                        // Then migration for this value is complete.
-                        continue;
-                    }
-                    // Migration did not complete.
-                    // NOTE: If a migration was in progress (MigrationFlag is set for a valid value), then we consider migration incomplete as well.
-                    else
-                    {
-                        migrationDone = false;
-                        break;
-                    }
-                }
-                // If this table was fully migrated.
-                if (migrationDone)
+            // Map the tables and link each one to its successor. We are running only one thread.
+            for (auto &name : tableNames)
+            {
+                Table *table = Table::mmapTable(!reconstruct, size, 0, name.second.c_str());
+                if (!tables.empty())
                 {
-                    // Deallocate it.
-                    Table::munmapTable(table);
-                    // Delete the underlying file.
-                    if (std::remove((*it).c_str()) != 0)
-                    {
-                        fprintf(stderr, "Error deleting file \"%s\". Error %d\n", (*it).c_str(), errno);
-                    }
+                    bool CASSucceed = tables.back()->chm.CASNewTable(table);
+                    assert(CASSucceed);
                 }
-                else
+                tables.push_back(table);
+            }
+            // Without any table, start with an empty one.
+            if (tables.empty())
+            {
+                tables.push_back(Table::mmapTable(true, size, 0));
+            }
+
+            // Complete every migration, from the oldest table on. A pair that is in the newer table already stays as it is there.
+            // The marks that tell how far a migration got may not have been persisted, so we go over every slot.
+            Table *top = tables[0];
+            this->table.store(top);
+            for (Table *next; (next = top->chm.newTable.load()) != nullptr; top = next)
+            {
+                top->chm.copyAllSlots(this, top);
+                this->table.store(next);
+                // All pairs are persisted in the newer table now. Delete the underlying file.
+                const std::string filename = Table::getOrderedFileName(top->chm.id);
+                Table::munmapTable(top);
+                if (std::remove(filename.c_str()) != 0)
                 {
-                    // Migration is incomplete. Add it to our list.
-                    tables.push_back(table);
+                    fprintf(stderr, "Error deleting file \"%s\". Error %d\n", filename.c_str(), errno);
                 }
-                lastTableName = *it;
             }
-            // Now that tables are filtered out, perform migrations (or just link tables together).
-            Table *oldTable = NULL;
-            Table *newTable = NULL;
-            for (auto it = tables.begin(); it != tables.end(); ++it)
+            // The migrations do not count the pairs.
+            size_t count = 0;
+            for (size_t i = 0; i < top->len; i++)
             {
-                oldTable = newTable;
-                newTable = *it;
-
-                if (oldTable != NULL)
+                Value val = top->value(i);
+                if (val != VTOMBSTONE && val != VINITIAL && val != TOMBPRIME && val != INITPRIME)
                 {
-                    // Link the levels. This should always succeed, since we are running only one thread.
-                    bool CASSucceed = oldTable->chm.CASNewTable(newTable);
-                    assert(CASSucceed);
+                    count++;
                 }
             }
-            // Store the lowest table with an incomplete migration, as the base.
-            // Might as well not migrate during recovery, since we lose out on parallel migration performance.
-            this->table.store(tables[0]);
-
-            // Ensure we use unique file names.
-            fileNameCounter.store(Table::numFromName(lastTableName.c_str()));
+            top->chm.size.store(count);
         }
         else
         {
-- 
2.43.0


From 9254406adedbffe8fd4afa0b52a0eaba3ac212a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:26 +0000
Subject: [PATCH 16/18] fix: keep the last consumed stripe of a long xxhash3
 stream update

When update() consumed whole blocks straight from the input, the end of the
internal buffer stayed stale, and digest() took its catch-up bytes from there.
---
 hashing/xxhash.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashing/xxhash.hpp b/hashing/xxhash.hpp
index 91f22fc..c33478a 100644
--- a/hashing/xxhash.hpp
+++ b/hashing/xxhash.hpp
@@ -2054,6 +2054,9 @@ namespace xxh
 					consume_stripes(acc, nbStripesSoFar, internal_buffer_stripes, input, accWidth);
 					input += internal_buffer_size;
 				} while (input <= limit);
+
+				/* digest_long() reads the end of the last stripe consumed from the end of the buffer */
+				memcpy(buffer + sizeof(buffer) - detail3::stripe_len, input - detail3::stripe_len, detail3::stripe_len);
 			}
 
 			if (input < bEnd)
-- 
2.43.0


From 084e6c55e28c6dc27cd39ef560187fb4cd39c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:26 +0000
Subject: [PATCH 17/18] fix: order 128-bit hashes as numbers

operator> compared the halves independently, so both a > b and b > a could hold.
---
 hashing/xxhash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashing/xxhash.hpp b/hashing/xxhash.hpp
index c33478a..346a27c 100644
--- a/hashing/xxhash.hpp
+++ b/hashing/xxhash.hpp
@@ -82,7 +82,7 @@ namespace xxh
 
 			bool operator>(const uint128_t &other)
 			{
-				return (high64 > other.high64 || low64 > other.low64);
+				return (high64 > other.high64 || (high64 == other.high64 && low64 > other.low64));
 			}
 
 			bool operator>=(const uint128_t &other)
-- 
2.43.0


From e3ccf528e904f81e9ce4a5d7b456de58a638402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:26 +0000
Subject: [PATCH 18/18] fix: assign xxhash streaming states

The assignment operators returned nothing, which is undefined, and a copied
seeded xxhash3 state kept using the secret inside the original.
---
 hashing/xxhash.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/hashing/xxhash.hpp b/hashing/xxhash.hpp
index 346a27c..9ef1a9d 100644
--- a/hashing/xxhash.hpp
+++ b/hashing/xxhash.hpp
@@ -1917,9 +1917,10 @@ namespace xxh
 			v4 = seed - detail::PRIME<bit_mode>(1);
 		};
 
-		hash_state_t operator=(hash_state_t<bit_mode> &other)
+		hash_state_t &operator=(hash_state_t<bit_mode> &other)
 		{
 			memcpy(this, &other, sizeof(hash_state_t<bit_mode>));
+			return *this;
 		}
 
 		void reset(uint_t<bit_mode> seed = 0)
@@ -2095,10 +2096,29 @@ namespace xxh
 			}
 		}
 
-	public:
-		hash3_state_t operator=(hash3_state_t &other)
+		void copy(const hash3_state_t &other)
 		{
+			if (this == &other)
+			{
+				return;
+			}
 			memcpy(this, &other, sizeof(hash3_state_t));
+			if (other.secret == other.customSecret)
+			{ /* the secret generated from the seed is part of the state */
+				secret = customSecret;
+			}
+		}
+
+	public:
+		hash3_state_t(const hash3_state_t &other)
+		{
+			copy(other);
+		}
+
+		hash3_state_t &operator=(const hash3_state_t &other)
+		{
+			copy(other);
+			return *this;
 		}
 
 		hash3_state_t(uint64_t seed = 0)
-- 
2.43.0

