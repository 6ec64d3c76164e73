From 4cfbf129d23e3ac5473a1ec135a2458b88c2d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 01/46] fix: keep the conditional function when an update moves
 on to a new table

An increment that met a growing table continued in the new table with the
plain CAS, which stored the placeholder value instead of the count.
---
 containers/cliffMap/hashMap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index d97a9a3..c514964 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -1125,7 +1125,7 @@ public:
                 }
                 // Try again in the new table.
                 // This is a recursive call.
-                return putIfMatch(newTable, key, newVal, oldVal);
+                return putIfMatch(newTable, key, newVal, oldVal, CAS);
 #else
                 // The key is not present.
                 return VINITIAL;
@@ -1161,7 +1161,7 @@ public:
         {
             // Copy the slot and retry in the new table.
             // This is a recursive call to the new table.
-            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
         }
 #endif
         // Update the existing table.
@@ -1222,7 +1222,7 @@ public:
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
             if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
             {
-                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
             }
 #endif
             // Otherwise retry our put.
-- 
2.43.0


From 4ca1d11e05d67811be6221207e294efbfb8cd192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 02/46] fix: remove reports whether the key was present

The old value (or the 'absent' sentinel, which is not zero) was converted to
bool, so removing an absent key returned true and removing value 0 false.
---
 containers/cliffMap/hashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index c514964..009c1b0 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -916,7 +916,7 @@ public:
     }
     bool remove(Key key)
     {
-        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD);
+        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD) != VINITIAL;
     }
     // Remove key with specified value.
     bool remove(Key key, Value value)
-- 
2.43.0


From 69584ab47565bf988cf28410ff38b80a5520a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 03/46] fix: ucf insert returns true if the element is new,
 like the other containers

---
 containers/ucfMap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/containers/ucfMap.hpp b/containers/ucfMap.hpp
index 78a07f5..579cf3d 100644
--- a/containers/ucfMap.hpp
+++ b/containers/ucfMap.hpp
@@ -17,7 +17,8 @@ namespace ucf
             //assert((shiftedEl >> ConcurrentHashMap<KeyT, ValT>::BITS_MARKED) == el);
 
             ValT x = c->put(shiftedEl, shiftedEl);
-            return x == shiftedEl;
+            // Newly inserted if there was no previous value.
+            return ConcurrentHashMap<KeyT, ValT>::isValueReserved(x);
         }
 
         bool erase(ValT el)
-- 
2.43.0


From 18eb26e33b85576185edb6700602444e7e9565a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 04/46] fix: stl container takes its lock for get and count too

Both read the tree while other threads may be rebalancing it.
---
 containers/stlMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/containers/stlMap.hpp b/containers/stlMap.hpp
index 9d10f83..ec38759 100644
--- a/containers/stlMap.hpp
+++ b/containers/stlMap.hpp
@@ -38,6 +38,7 @@ namespace stl
 
         ValT get(KeyT el)
         {
+            guard_type g(global_lock);
             try
             {
                 return c->at(el);
@@ -50,6 +51,7 @@ namespace stl
 
         size_t count()
         {
+            guard_type g(global_lock);
             return c->size();
         }
 
-- 
2.43.0


From dbce35da43c279ea2794cc1a45899e296523a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 05/46] fix: a failed pcas hands back the persisted value it
 found, never a flagged one

---
 include/persistence.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/persistence.hpp b/include/persistence.hpp
index 9ab0f17..b722b1d 100644
--- a/include/persistence.hpp
+++ b/include/persistence.hpp
@@ -91,16 +91,26 @@ static U pcas_read(std::atomic<U> *address)
 
 // Always use this when CAS'ing fields with a dirty flag, unless you are marking the dirty flag by hand.
 // This includes DescRef, T, WordDescriptor::Mutable, and KCASDescriptor::Mutable.
+// On failure, oldVal receives the (persisted, unflagged) value that was found instead.
 template <class U>
 static bool pcas(std::atomic<U> *address, U &oldVal, U newVal)
 {
-    U oldValCopy = oldVal;
-    // Ensure the field is persisted.
-    pcas_read<U>(address);
-    // Attempt to CAS.
-    bool ret = address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag));
-    assert((ret && oldValCopy == oldVal) || (!ret && oldValCopy != oldVal));
-    return ret;
+    while (true)
+    {
+        // Ensure the field is persisted.
+        U actual = pcas_read<U>(address);
+        if (actual != oldVal)
+        {
+            oldVal = actual;
+            return false;
+        }
+        // Attempt to CAS.
+        // If the field changed in the meantime, then it may be dirty, so read it again.
+        if (address->compare_exchange_strong(actual, (U)((uintptr_t)newVal | DirtyFlag)))
+        {
+            return true;
+        }
+    }
 }
 
 #endif
-- 
2.43.0


From dd55b77f9099254cf5d9b4694f6251cceecc4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 06/46] fix: a successful pcas persists its value before
 reporting success

---
 include/persistence.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/persistence.hpp b/include/persistence.hpp
index b722b1d..2365239 100644
--- a/include/persistence.hpp
+++ b/include/persistence.hpp
@@ -106,8 +106,11 @@ static bool pcas(std::atomic<U> *address, U &oldVal, U newVal)
         }
         // Attempt to CAS.
         // If the field changed in the meantime, then it may be dirty, so read it again.
-        if (address->compare_exchange_strong(actual, (U)((uintptr_t)newVal | DirtyFlag)))
+        U dirtyVal = (U)((uintptr_t)newVal | DirtyFlag);
+        if (address->compare_exchange_strong(actual, dirtyVal))
         {
+            // The caller may report success, so the new value must survive a crash from here on.
+            persist<U>(address, dirtyVal);
             return true;
         }
     }
-- 
2.43.0


From 95b3998ad3404194bdab2171363f486ec0cb53ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 07/46] fix: count each migrated slot exactly once, by whoever
 retires it

---
 containers/cliffMap/hashMap.hpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 009c1b0..d530022 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -209,23 +209,16 @@ public:
                 // Only succeeds if there isn't already a value there.
                 // If there is, we say that our write "happened before" the write that placed the existing value.
                 // In that case, we don't need to do anything.
-                bool copiedIntoNew = (hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL) == VINITIAL);
+                hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL);
 
                 // Now that the value has been migrated, replace the old table value with a tombstone.
                 // This will prevent other threads from redundantly attempting to copy to the new table.
                 // If other threads attempt this redundant computation, it will waste time but not hurt correctness.
                 // They will see the value has been migrated and fail to replace.
-                // Keep trying until we succeed.
-                Value actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
-                while (actualVal != oldVal)
-                {
-                    oldVal = actualVal;
-                    actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
-                }
-                // Return whether or not we made progress (copied a value from the old table to the new table).
+                // Exactly one thread succeeds in retiring the slot, so exactly one thread reports it as migrated.
                 // Note: Stalling threads may delay reporting of completed migrations.
                 // This means old tables may continue to exist for longer than we like, but it shouldn't hurt correctness.
-                return copiedIntoNew;
+                return CASvalue(oldTable, idx, oldVal, TOMBPRIME) == oldVal;
             }
 #endif
         public:
-- 
2.43.0


From 7d1ce78a255260a5363e96b447682c579dc941ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 08/46] fix: helping a migration never waits for a stalled
 thread

---
 containers/cliffMap/hashMap.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index d530022..c914531 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -448,6 +448,13 @@ public:
                     }
                     // Move on to the next chunk of work.
                     copyIdx += MIN_COPY_WORK;
+                    // After panicking, one pass over the whole table leaves nothing to migrate.
+                    // Don't wait for stalled threads to report the slots they finished.
+                    if (panicStart != -1 && copyIdx - (size_t)panicStart >= oldLen)
+                    {
+                        hashMap->table.compare_exchange_strong(oldTable, newTable);
+                        return;
+                    }
 
                     // Stop working after just doing the bare minimum amount of work.
                     // NOTE: This can be commented out to instead keep taking on additional chunks of work until the whole resize process is complete.
-- 
2.43.0


From b4a795b563ea559b668706e984bb3f7bd1b94bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 09/46] fix: mmapTable creates a new table when asked for one
 and maps the existing one otherwise

---
 containers/cliffMap/hashMap.hpp | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index c914531..7eb7de8 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -619,23 +619,17 @@ public:
                 count = Table::numFromName(fileName);
             }
 
-            // If we want to map a new file.
-            if (newTable)
-            {
-                // Try to open an existing hash table.
-                fd = open(fileName, O_RDWR);
-            }
             // If we want to map an existing file.
-            else
-            {
-                // We will open the existing file.
-                // Report table doesn't exist.
-                fd = -1;
-            }
-
-            // If we opened an existing file, just map the data.
-            if (fd != -1)
+            if (!newTable)
             {
+                // Open the existing hash table.
+                fd = open(fileName, O_RDWR);
+                if (fd == -1)
+                {
+                    // Error.
+                    std::cerr << "Failed to open the existing file." << std::endl;
+                    throw std::runtime_error("cannot open file");
+                }
                 // Used to store file information.
                 struct stat finfo;
                 // Get existing file size.
@@ -698,11 +692,12 @@ public:
                     }
                 }
             }
-            // If the file doesn't exist yet, try to make it.
+            // If we want a new table, make a new file for it.
+            // Whatever an earlier map left under that name must not become part of the new table.
             else
             {
                 // Create and open the file.
-                fd = open(fileName, O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
+                fd = open(fileName, O_RDWR | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR);
                 if (fd == -1)
                 {
                     // Error.
-- 
2.43.0


From 9e71e5f30be4897cfd1ffa4bece75bdf85e1b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 10/46] fix: munmapTable unmaps the pairs, with their full
 length

---
 containers/cliffMap/hashMap.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 7eb7de8..9dd5f8b 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -747,8 +747,7 @@ public:
         }
         static bool munmapTable(Table *table)
         {
-            size_t size = table->chm.size.load();
-            bool ret = (munmap(table, (sizeof(KVpair) * size)) != 0);
+            bool ret = (munmap(table->pairs, (sizeof(KVpair) * table->len)) == 0);
             delete table;
             return ret;
         }
-- 
2.43.0


From fb1732154e5a362a2adb0b701686b85ee719def5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 11/46] fix: a table file appears only once it is complete, and
 failures leave nothing behind

---
 containers/cliffMap/hashMap.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 9dd5f8b..d664425 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -637,6 +637,8 @@ public:
                 {
                     // Error.
                     fprintf(stderr, "Failed to read the existing file's size.\n");
+                    close(fd);
+                    throw std::runtime_error("cannot read file size");
                 }
                 size_t length = finfo.st_size;
                 // length should always be some multiple of our KVpair size.
@@ -650,6 +652,7 @@ public:
                     // Error.
                     std::cerr << "Failed to mmap the existing file. errno = "
                               << errno << ", " << strerror(errno) << std::endl;
+                    close(fd);
                     throw std::logic_error("mmap existing file failed.");
                 }
 
@@ -697,7 +700,9 @@ public:
             else
             {
                 // Create and open the file.
-                fd = open(fileName, O_RDWR | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR);
+                // It only gets its final name once it is complete, so recovery never sees a partial table.
+                const std::string tempName = std::string(fileName) + ".tmp";
+                fd = open(tempName.c_str(), O_RDWR | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR);
                 if (fd == -1)
                 {
                     // Error.
@@ -711,6 +716,8 @@ public:
                 {
                     // Error.
                     std::cerr << "Failed to adjust file size." << std::endl;
+                    close(fd);
+                    std::remove(tempName.c_str());
                     throw std::runtime_error("cannot create or open file");
                 }
                 // Allocate our file.
@@ -720,6 +727,8 @@ public:
                     // Error.
                     std::cerr << "Failed to mmap a new file. errno = "
                               << errno << ", " << strerror(errno) << std::endl;
+                    close(fd);
+                    std::remove(tempName.c_str());
                     throw std::logic_error("mmap new file failed.");
                 }
                 // Ensure the allocation is actually to persistent memory.
@@ -734,6 +743,16 @@ public:
                 // Persist all keys and values.
                 // Everything else can be inferred upon recovery.
                 PERSIST(pairs, sizeof(KVpair) * tableCapacity);
+                // The table is complete, so give it its name.
+                if (std::rename(tempName.c_str(), fileName) != 0)
+                {
+                    // Error.
+                    std::cerr << "Failed to rename the new file." << std::endl;
+                    munmap(pairs, length);
+                    close(fd);
+                    std::remove(tempName.c_str());
+                    throw std::runtime_error("cannot rename file");
+                }
                 // Allocate our table.
                 // We pass in the location of our KV pairs to assign them to the structure.
                 // We pass in the size of the table to assign the length.
-- 
2.43.0


From 7e38798e1618bc33461f472e9f55f87e66dec5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 12/46] fix: recovery finds the existing tables, in order, and
 finishes what was in flight

---
 containers/cliffMap/hashMap.hpp | 147 ++++++++++++--------------------
 1 file changed, 56 insertions(+), 91 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index d664425..1f64e84 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -28,13 +28,17 @@
 #ifndef HASH_MAP_HPP
 #define HASH_MAP_HPP
 
+#include <algorithm>
 #include <atomic>
 #include <cassert>
+#include <cctype>
 #include <chrono>
 #include <cstddef>
 #include <filesystem>
 #include <iostream>
+#include <string>
 #include <utility>
+#include <vector>
 
 // Fast hashing library.
 #include "xxhash.hpp"
@@ -271,6 +275,14 @@ public:
 #endif
             }
 
+            // Account for slots which were already migrated when the table was recovered.
+            void recordMigrated(size_t migrated)
+            {
+#ifdef RESIZE
+                copyDone.fetch_add(migrated);
+#endif
+            }
+
             // Heuristic to estimate if the table is overfull.
             // This will prevent the load factor from getting too high.
             bool tableFull(size_t reprobeCount, size_t len)
@@ -549,48 +561,18 @@ public:
         {
             return "/mnt/pmem/pm1/tables/" + std::to_string(count) + ".dat";
         }
+        // Whether this is the name of a table, "<number>.dat".
+        static bool isTableName(const std::filesystem::path &path)
+        {
+            const std::string stem = path.stem().string();
+            return path.extension() == ".dat" && !stem.empty() &&
+                   std::all_of(stem.begin(), stem.end(), [](unsigned char c)
+                               { return std::isdigit(c) != 0; });
+        }
         // Take a full table name with path and keep only the associated number.
         static size_t numFromName(const char *source)
         {
-            // Get the length of the string.
-            size_t len = 0;
-            while (source[len] != '\0')
-            {
-                len++;
-            }
-            // Work our way to the last ".", which comes just after the num.
-            size_t end;
-            for (size_t i = len - 1; i >= 0; i--)
-            {
-                if (source[i] == '.')
-                {
-                    end = i;
-                    break;
-                }
-            }
-            // Work our way to the last "/", which comes just before the num.
-            size_t start;
-            for (size_t i = len - 1; i >= 0; i--)
-            {
-                if (source[i] == '/')
-                {
-                    start = i;
-                    break;
-                }
-            }
-            // Copy the characters over to an appropriately sized space, say 30.
-            char *dest = (char *)malloc(sizeof(char *) * 30);
-            size_t idx = 0;
-            for (size_t i = start + 1; i < end; i++)
-            {
-                dest[idx] = source[i];
-                idx++;
-            }
-            dest[idx] = '\n';
-            // Convert the string to an integer.
-            size_t ret = atoi(dest);
-            // Return the integer.
-            return ret;
+            return std::stoull(std::filesystem::path(source).stem().string());
         }
         static Table *mmapTable(bool newTable, size_t tableCapacity, size_t existingSize = 0, const char *constFileName = NULL)
         {
@@ -668,20 +650,9 @@ public:
                 {
 
                     Value V = table->value(i);
-                    Key K = table->key(i);
 
-                    // While we're at it, check for inconsistent table entries.
-                    // THis is the only situation I've come up with where we could have a problem with partial persists.
-                    if (K != KINITIAL && V == VINITIAL)
-                    {
-                        // If the key has been set but the value hasn't, then we have an incomplete insert on our hands.
-                        // Just make it a tombstone since we don't know what value it should have been.
-                        Table::CASvalue(table, i, VINITIAL, VTOMBSTONE);
-                        // Update the replaced value for subsequent use in this loop.
-                        V = table->value(i);
-                        // We should always succeed. We are running sequentially, after all.
-                        assert(V == VTOMBSTONE);
-                    }
+                    // NOTE: A key that has been set without a value is an incomplete insert, and reads as absent.
+                    // It must stay untouched, since the value might still have to arrive from an older table.
 
                     // Anything that's not a sentinel.
                     if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
@@ -693,6 +664,11 @@ public:
                     {
                         table->chm.slots.fetch_add(1);
                     }
+                    // Anything that was already migrated.
+                    else if (V == TOMBPRIME)
+                    {
+                        table->chm.recordMigrated(1);
+                    }
                 }
             }
             // If we want a new table, make a new file for it.
@@ -780,26 +756,27 @@ public:
         {
             std::vector<std::string> tableNames;
             std::vector<Table *> tables;
-            std::string lastTableName;
 
             // Get the table names.
             std::filesystem::path path = fileDir;
             for (auto &p : std::filesystem::directory_iterator(path))
             {
-                const std::string filenameStr = p.path().filename().string();
-                if (p.is_regular_file())
+                if (p.is_regular_file() && Table::isTableName(p.path()))
                 {
-                    tableNames.push_back(filenameStr);
+                    tableNames.push_back(p.path().string());
                 }
             }
 
-            // Sort the tables by name.
+            // Sort the tables by number.
             std::sort(tableNames.begin(), tableNames.end(),
-                      [](std::string a, std::string b)
+                      [](const std::string &a, const std::string &b)
                       {
-                          return a.compare(b) < 0;
+                          return Table::numFromName(a.c_str()) < Table::numFromName(b.c_str());
                       });
 
+            // Ensure we use unique file names.
+            fileNameCounter.store(tableNames.empty() ? 0 : Table::numFromName(tableNames.back().c_str()) + 1);
+
             // For each table.
             // Map the table.
             // Check if the table is empty or migrated.
@@ -808,36 +785,9 @@ public:
                 // Allocate an mmapped table.
                 Table *table = Table::mmapTable(!reconstruct, size, 0, (*it).c_str());
 
-                // If the table is empty, deallocate it and continue.
+                // If the table is empty or fully migrated, deallocate it and continue.
+                // NOTE: If a migration was in progress (MigrationFlag is set for a valid value), then we consider migration incomplete.
                 if (table->chm.size.load() == 0)
-                {
-                    Table::munmapTable(table);
-                }
-
-                // If the table is fully migrated, deallocate it and continue.
-                bool migrationDone = true;
-                // Check for non-migrated values.
-                for (size_t i = 0; i < table->len; i++)
-                {
-                    ValT val = table->value(i);
-                    // If the value is a tombstone, initial value, or migrated.
-                    if (val == VTOMBSTONE ||
-                        val == VINITIAL ||
-                        val == TOMBPRIME)
-                    {
-                        // Then migration for this value is complete.
-                        continue;
-                    }
-                    // Migration did not complete.
-                    // NOTE: If a migration was in progress (MigrationFlag is set for a valid value), then we consider migration incomplete as well.
-                    else
-                    {
-                        migrationDone = false;
-                        break;
-                    }
-                }
-                // If this table was fully migrated.
-                if (migrationDone)
                 {
                     // Deallocate it.
                     Table::munmapTable(table);
@@ -852,7 +802,11 @@ public:
                     // Migration is incomplete. Add it to our list.
                     tables.push_back(table);
                 }
-                lastTableName = *it;
+            }
+            // If nothing is left, start over with an empty table.
+            if (tables.empty())
+            {
+                tables.push_back(Table::mmapTable(true, size));
             }
             // Now that tables are filtered out, perform migrations (or just link tables together).
             Table *oldTable = NULL;
@@ -873,8 +827,19 @@ public:
             // Might as well not migrate during recovery, since we lose out on parallel migration performance.
             this->table.store(tables[0]);
 
-            // Ensure we use unique file names.
-            fileNameCounter.store(Table::numFromName(lastTableName.c_str()));
+            // However, values that were on their way when we stopped must arrive now.
+            for (auto it = tables.begin(); it != tables.end(); ++it)
+            {
+                for (size_t i = 0; i < (*it)->len; i++)
+                {
+                    if (isMarked((uintptr_t)(*it)->value(i), MigrationFlag))
+                    {
+                        // The next table is missing if it was still empty.
+                        (*it)->chm.resize(this, *it);
+                        (*it)->chm.copySlotAndCheck(this, *it, i, true);
+                    }
+                }
+            }
         }
         else
         {
-- 
2.43.0


From deff378153df23a4aee57a95825ebe961d57f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 13/46] fix: maps recover from the tables directory, and fresh
 maps leave no foreign tables in it

---
 containers/cliffMap/hashMap.hpp | 16 ++++++++++++++--
 containers/ucfMap.hpp           |  3 +--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 1f64e84..2e6f31f 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -64,6 +64,9 @@
 
 inline const size_t REPROBE_LIMIT = 10;
 
+// The directory that holds the table files.
+inline const char *const TABLE_DIR = "/mnt/pmem/pm1/tables/";
+
 template <class Key, class Value, class Hash = std::hash<Key>>
 class ConcurrentHashMap
 {
@@ -367,8 +370,9 @@ public:
                 else
                 {
                     // Failure means some other thread succeeded.
-                    // Free the allocated memory.
+                    // Free the allocated memory and the unused file.
                     munmapTable(newTable);
+                    std::remove(filename.c_str());
                     // And get the table that was placed.
                     newTable = this->newTable.load();
                     // The new table should never be NULL.
@@ -559,7 +563,7 @@ public:
         // TODO: Grab count and store in CHM.
         static std::string getOrderedFileName(size_t count)
         {
-            return "/mnt/pmem/pm1/tables/" + std::to_string(count) + ".dat";
+            return TABLE_DIR + std::to_string(count) + ".dat";
         }
         // Whether this is the name of a table, "<number>.dat".
         static bool isTableName(const std::filesystem::path &path)
@@ -844,6 +848,14 @@ public:
         else
         {
             // Alternative approach: just make a table, bypassing recovery.
+            // Tables of an earlier map must not be mistaken for ours by a later recovery.
+            for (auto &p : std::filesystem::directory_iterator(TABLE_DIR))
+            {
+                if (p.is_regular_file() && Table::isTableName(p.path()))
+                {
+                    std::filesystem::remove(p.path());
+                }
+            }
             // Allocate a new, mmapped table.
             Table *table = Table::mmapTable(!reconstruct, size, 0);
             // Store the table.
diff --git a/containers/ucfMap.hpp b/containers/ucfMap.hpp
index 579cf3d..5783a76 100644
--- a/containers/ucfMap.hpp
+++ b/containers/ucfMap.hpp
@@ -49,8 +49,7 @@ namespace ucf
         container_type(const TestOptions &opt, bool reconstruct = false)
         {
             const size_t realcapacity = 1 << opt.capacity;
-            const char *path = opt.filename.c_str();
-            c = new ConcurrentHashMap<KeyT, ValT>(path, realcapacity, reconstruct);
+            c = new ConcurrentHashMap<KeyT, ValT>(TABLE_DIR, realcapacity, reconstruct);
             if (c == nullptr)
                 throw std::runtime_error("could not allocate");
             return;
-- 
2.43.0


From 29307d49fd0ad59e28100427bac6efe830f514f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 14/46] fix: count the keys per map, so that migrations cannot
 lose updates of the size

---
 containers/cliffMap/hashMap.hpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 2e6f31f..74eb623 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -229,8 +229,7 @@ public:
             }
 #endif
         public:
-            // The number of active KV pairs.
-            // If this number gets too large, consider resizing.
+            // The number of active KV pairs when the table was created or recovered.
             std::atomic<size_t> size;
 
             // The number of usable slots.
@@ -315,8 +314,8 @@ public:
                 // Compute the new table size.
                 // Total capacity of the current table.
                 size_t oldLen = table->len;
-                // Current number of KV pairs stored in the table.
-                size_t size = this->size.load();
+                // Current number of KV pairs stored in the map.
+                size_t size = hashMap->size();
                 // An initial size estimate.
                 size_t newSize = size;
 
@@ -844,6 +843,18 @@ public:
                     }
                 }
             }
+            // Now every key is in exactly one table, so they can be counted.
+            for (Table *t = tables[0]; t != nullptr; t = t->chm.newTable.load())
+            {
+                for (size_t i = 0; i < t->len; i++)
+                {
+                    Value V = t->value(i);
+                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
+                    {
+                        count.fetch_add(1);
+                    }
+                }
+            }
         }
         else
         {
@@ -885,8 +896,7 @@ public:
     // This number is really only meaningful if the size is not being changed by other threads.
     size_t size()
     {
-        Table *table = this->table.load();
-        return table->chm.size.load();
+        return count.load();
     }
     bool isEmpty()
     {
@@ -1184,19 +1194,19 @@ public:
             // If we succeeded.
             if (actualValue == V)
             {
-                // Adjust the size counters for the table.
+                // Adjust the size counter.
                 // If this was a table copy, do nothing.
                 if (oldVal != VINITIAL)
                 {
                     // If we removed an initial or tombstone value with a non-tombstone.
                     if ((V == VINITIAL || V == VTOMBSTONE) && newVal != VTOMBSTONE)
                     {
-                        table->chm.size.fetch_add(1);
+                        count.fetch_add(1);
                     }
                     // If we removed a non-initial and non-tombstone value with a tombstone.
                     else if (!(V == VINITIAL || V == VTOMBSTONE) && newVal == VTOMBSTONE)
                     {
-                        table->chm.size.fetch_add(-1);
+                        count.fetch_add(-1);
                     }
                 }
                 // If we replaced an initial value when we had expected a non-initial value, return the tombstone sentinel.
@@ -1312,6 +1322,8 @@ public:
 private:
     // The structure that stores the top table.
     std::atomic<Table *> table;
+    // The number of active KV pairs, across all tables.
+    std::atomic<size_t> count{0};
 };
 
 // size_t keys and values.
-- 
2.43.0


From 3213694d75984fb5a4edf8985f8686e81adbf077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 15/46] fix: a stalled table copy cannot bring back a key that
 was removed meanwhile

---
 containers/cliffMap/hashMap.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 74eb623..8fa50cd 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -216,7 +216,7 @@ public:
                 // Only succeeds if there isn't already a value there.
                 // If there is, we say that our write "happened before" the write that placed the existing value.
                 // In that case, we don't need to do anything.
-                hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL);
+                hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL, &Table::CASvalue, oldTable, idx);
 
                 // Now that the value has been migrated, replace the old table value with a tombstone.
                 // This will prevent other threads from redundantly attempting to copy to the new table.
@@ -1039,8 +1039,10 @@ public:
 
     // Called by most put functions. This one does the heavy lifting.
     // This accepts custom conditional CAS functions.
+    // A table copy also names the slot it copies from.
     Value putIfMatch(Table *table, Key key, Value newVal, Value oldVal,
-                     Value CAS(Table *table, size_t idx, Value oldValue, Value newValue) = &Table::CASvalue)
+                     Value CAS(Table *table, size_t idx, Value oldValue, Value newValue) = &Table::CASvalue,
+                     Table *sourceTable = nullptr, size_t sourceIdx = 0)
     {
         // It's not appropriate to set a value back to an initial, unset state.
         assert(newVal != VINITIAL);
@@ -1125,7 +1127,7 @@ public:
                 }
                 // Try again in the new table.
                 // This is a recursive call.
-                return putIfMatch(newTable, key, newVal, oldVal, CAS);
+                return putIfMatch(newTable, key, newVal, oldVal, CAS, sourceTable, sourceIdx);
 #else
                 // The key is not present.
                 return VINITIAL;
@@ -1161,7 +1163,7 @@ public:
         {
             // Copy the slot and retry in the new table.
             // This is a recursive call to the new table.
-            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
+            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS, sourceTable, sourceIdx);
         }
 #endif
         // Update the existing table.
@@ -1188,6 +1190,13 @@ public:
                 return V;
             }
 
+            // If someone else finished this table copy, then the key may even have been removed again and moved on to yet another table.
+            // Since we saw VINITIAL here before checking that, a copy which is still needed cannot be missed.
+            if (sourceTable != nullptr && sourceTable->value(sourceIdx) == TOMBPRIME)
+            {
+                return V;
+            }
+
             // Atomically update the value.
             // NOTE: This can be an arbitrary function, such as increment.
             Value actualValue = CAS(table, idx, V, newVal);
@@ -1222,7 +1231,7 @@ public:
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
             if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
             {
-                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
+                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS, sourceTable, sourceIdx);
             }
 #endif
             // Otherwise retry our put.
-- 
2.43.0


From 6681e79c166046a176bf90bfc510481099034fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 16/46] fix: XXH3 streaming keeps the bytes before a last
 partial stripe

---
 hashing/xxhash.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashing/xxhash.hpp b/hashing/xxhash.hpp
index 91f22fc..23401fe 100644
--- a/hashing/xxhash.hpp
+++ b/hashing/xxhash.hpp
@@ -2054,6 +2054,9 @@ namespace xxh
 					consume_stripes(acc, nbStripesSoFar, internal_buffer_stripes, input, accWidth);
 					input += internal_buffer_size;
 				} while (input <= limit);
+
+				/* digest_long() completes a last partial stripe with the bytes before it */
+				memcpy(buffer + sizeof(buffer) - detail3::stripe_len, input - detail3::stripe_len, detail3::stripe_len);
 			}
 
 			if (input < bEnd)
-- 
2.43.0


From 7a7c4472feae46c8989f0d0ac76f7bc6797c79fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 17/46] fix: xxHash streaming states can be copied

---
 hashing/xxhash.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/hashing/xxhash.hpp b/hashing/xxhash.hpp
index 23401fe..d2d7a5a 100644
--- a/hashing/xxhash.hpp
+++ b/hashing/xxhash.hpp
@@ -1917,10 +1917,9 @@ namespace xxh
 			v4 = seed - detail::PRIME<bit_mode>(1);
 		};
 
-		hash_state_t operator=(hash_state_t<bit_mode> &other)
-		{
-			memcpy(this, &other, sizeof(hash_state_t<bit_mode>));
-		}
+		hash_state_t(const hash_state_t<bit_mode> &other) = default;
+
+		hash_state_t &operator=(const hash_state_t<bit_mode> &other) = default;
 
 		void reset(uint_t<bit_mode> seed = 0)
 		{
@@ -2096,9 +2095,21 @@ namespace xxh
 		}
 
 	public:
-		hash3_state_t operator=(hash3_state_t &other)
+		hash3_state_t(const hash3_state_t &other)
+		{
+			*this = other;
+		}
+
+		hash3_state_t &operator=(const hash3_state_t &other)
 		{
 			memcpy(this, &other, sizeof(hash3_state_t));
+
+			if (other.secret == other.customSecret) /* a generated secret is part of the state */
+			{
+				secret = customSecret;
+			}
+
+			return *this;
 		}
 
 		hash3_state_t(uint64_t seed = 0)
-- 
2.43.0


From 0f3bdf8cb787ee0d7a68abef898c987568b5f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 18/46] fix: concurrent_hash_map::swap: swap all state and make
 it abortable

The mask and the element count were swapped without a snapshot, so an
aborted transaction left them exchanged, and on_init_size stayed with the
old map, which made the element count wrong after a restart.
---
 include/libpmemobj++/container/concurrent_hash_map.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/container/concurrent_hash_map.hpp b/include/libpmemobj++/container/concurrent_hash_map.hpp
index de1c7c8..dd0451d 100644
--- a/include/libpmemobj++/container/concurrent_hash_map.hpp
+++ b/include/libpmemobj++/container/concurrent_hash_map.hpp
@@ -1367,6 +1367,8 @@ public:
 			 */
 			transaction::snapshot((size_t *)&this->my_mask);
 			transaction::snapshot((size_t *)&this->my_size);
+			transaction::snapshot((size_t *)&table.my_mask);
+			transaction::snapshot((size_t *)&table.my_size);
 
 			this->mask() = table.mask().exchange(
 				this->mask(), std::memory_order_relaxed);
@@ -1376,7 +1378,7 @@ public:
 
 			/* Swap consistent size */
 			std::swap(this->tls_ptr, table.tls_ptr);
-
+			this->on_init_size.swap(table.on_init_size);
 			for (size_type i = 0; i < embedded_buckets; ++i)
 				this->my_embedded_segment[i].node_list.swap(
 					table.my_embedded_segment[i].node_list);
-- 
2.43.0


From a667c8e6aaf8dbb3972a4430c55a352f89df5694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 19/46] fix: vector::erase: destroy the elements that are left
 over

The elements after the new end were never destroyed, so whatever they own
stayed allocated and was lost when they were constructed over.
---
 include/libpmemobj++/container/vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 2067322..4de55ee 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -1869,7 +1869,8 @@ vector<T>::erase(const_iterator first, const_iterator last)
 
 		std::move(move_begin, move_end, dest);
 
-		_size -= count;
+		/* destroy the moved-from elements at the end */
+		shrink(_size - count);
 	});
 
 	return iterator(&_data[static_cast<difference_type>(idx)]);
-- 
2.43.0


From 36ad294e9b6a0d2e786b028de043a8915397bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 20/46] fix: vector::resize(count, value): do not ignore count
 == capacity()

---
 include/libpmemobj++/container/vector.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 4de55ee..555e4cd 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -1995,9 +1995,6 @@ template <typename T>
 void
 vector<T>::resize(size_type count, const value_type &value)
 {
-	if (_capacity == count)
-		return;
-
 	pool_base pb = get_pool();
 	transaction::run(pb, [&] {
 		if (count <= _size)
-- 
2.43.0


From 4bb7ee344fe4e8f91c6366b374a22e988f758468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 21/46] fix: vector::insert: do not construct elements over
 living ones

move_elements_backward() constructed one element too many, and with an
empty range it moved every element into itself.
---
 include/libpmemobj++/container/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 555e4cd..d09b62c 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -2254,7 +2254,7 @@ template <typename T>
 void
 vector<T>::move_elements_backward(pointer first, pointer last, pointer d_last)
 {
-	while (first != last && d_last >= cend())
+	while (first != last && d_last > cend())
 		detail::create<value_type>(--d_last, std::move(*(--last)));
 
 	if (first != last)
@@ -2320,6 +2320,9 @@ vector<T>::internal_insert(size_type idx, InputIt first, InputIt last)
 
 	auto count = static_cast<size_type>(std::distance(first, last));
 
+	if (count == 0)
+		return;
+
 	if (_capacity >= size() + count) {
 		pointer dest =
 			&_data[static_cast<difference_type>(size() + count)];
-- 
2.43.0


From ebfc501d771eba596c1931f0e13d421251efb11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 22/46] fix: temp_value: do not throw from the destructor in an
 aborted transaction

The exception left a destructor and terminated the program when an
allocation failed in vector::emplace().
---
 include/libpmemobj++/detail/temp_value.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/detail/temp_value.hpp b/include/libpmemobj++/detail/temp_value.hpp
index f22ec2d..c23a864 100644
--- a/include/libpmemobj++/detail/temp_value.hpp
+++ b/include/libpmemobj++/detail/temp_value.hpp
@@ -108,7 +108,12 @@ struct temp_value<
 
 	~temp_value()
 	{
-		pmem::obj::delete_persistent<T>(ptr);
+		/*
+		 * If the transaction has been aborted, the object is already
+		 * gone and delete_persistent() would throw.
+		 */
+		if (pmemobj_tx_stage() == TX_STAGE_WORK)
+			pmem::obj::delete_persistent<T>(ptr);
 	}
 
 	T &
-- 
2.43.0


From 286b32180bade73d255052ba70547c3bfc252520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 23/46] fix: basic_string: leave a valid empty string behind
 after a move

A moved-from large string had no storage: c_str() was null and appending
to it lost the terminating null and with it the last character. One that
was short but not in SSO mode kept its contents.
---
 include/libpmemobj++/container/basic_string.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/libpmemobj++/container/basic_string.hpp b/include/libpmemobj++/container/basic_string.hpp
index 3b48125..1dbbd6d 100644
--- a/include/libpmemobj++/container/basic_string.hpp
+++ b/include/libpmemobj++/container/basic_string.hpp
@@ -675,8 +675,9 @@ basic_string<CharT, Traits>::basic_string(basic_string &&other)
 	allocate(other.size());
 	initialize(std::move(other));
 
-	if (other.is_sso_used())
-		other.initialize(0U, value_type('\0'));
+	other.destroy_data();
+	other.allocate(0);
+	other.initialize(0U, value_type('\0'));
 }
 
 /**
@@ -1020,8 +1021,9 @@ basic_string<CharT, Traits>::assign(basic_string &&other)
 	transaction::run(pop, [&] {
 		replace_content(std::move(other));
 
-		if (other.is_sso_used())
-			other.initialize(0U, value_type('\0'));
+		other.destroy_data();
+		other.allocate(0);
+		other.initialize(0U, value_type('\0'));
 	});
 
 	return *this;
-- 
2.43.0


From 6ef3cc3d563409def2a08503f9e9b77228c4ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 24/46] fix: vector: allow elements of the vector itself as
 arguments

push_back(v[i]), insert(pos, v[i]), insert(pos, n, v[i]) and
resize(n, v[i]) copied the element after it had been moved away.
---
 include/libpmemobj++/container/vector.hpp | 36 +++++++++++++++++++----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index d09b62c..433e87c 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -1599,9 +1599,17 @@ vector<T>::insert(const_iterator pos, size_type count, const value_type &value)
 	size_type idx = static_cast<size_type>(std::distance(cbegin(), pos));
 
 	transaction::run(pb, [&] {
+		/*
+		 * value might be a reference to underlying array element, see
+		 * emplace().
+		 */
+		detail::temp_value<value_type, noexcept(T(value))> tmp(value);
+
+		const value_type &tmp_ref = tmp.get();
+
 		internal_insert(
-			idx, single_element_iterator<value_type>(&value, 0),
-			single_element_iterator<value_type>(&value, count));
+			idx, single_element_iterator<value_type>(&tmp_ref, 0),
+			single_element_iterator<value_type>(&tmp_ref, count));
 	});
 
 	return iterator(&_data[static_cast<difference_type>(idx)]);
@@ -1783,12 +1791,21 @@ vector<T>::emplace_back(Args &&... args)
 
 	transaction::run(pb, [&] {
 		if (_size == _capacity) {
+			/*
+			 * args might be a reference to underlying array
+			 * element, which realloc() moves and destroys.
+			 */
+			detail::temp_value<value_type,
+					   noexcept(T(std::forward<Args>(
+						   args)...))>
+				tmp(std::forward<Args>(args)...);
+
 			realloc(get_recommended_capacity(_size + 1));
+			construct_at_end(1, std::move(tmp.get()));
 		} else {
 			add_data_to_tx(size(), 1);
+			construct_at_end(1, std::forward<Args>(args)...);
 		}
-
-		construct_at_end(1, std::forward<Args>(args)...);
 	});
 
 	return back();
@@ -2000,9 +2017,18 @@ vector<T>::resize(size_type count, const value_type &value)
 		if (count <= _size)
 			shrink(count);
 		else {
+			/*
+			 * value might be a reference to underlying array
+			 * element, see emplace().
+			 */
+			detail::temp_value<value_type, noexcept(T(value))> tmp(
+				value);
+
+			const value_type &tmp_ref = tmp.get();
+
 			if (_capacity < count)
 				realloc(count);
-			construct_at_end(count - _size, value);
+			construct_at_end(count - _size, tmp_ref);
 		}
 	});
 }
-- 
2.43.0


From a9da5da2ee257f3a1810ab64596e499dcce91117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 25/46] fix: vector::resize: add the new elements to the
 transaction

When the capacity sufficed, the elements constructed at the end were not
part of the transaction, so they were not flushed when it committed and
a power failure lost them.
---
 include/libpmemobj++/container/vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 433e87c..e52719b 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -1986,6 +1986,8 @@ vector<T>::resize(size_type count)
 		else {
 			if (_capacity < count)
 				realloc(count);
+			else
+				add_data_to_tx(_size, count - _size);
 			construct_at_end(count - _size);
 		}
 	});
@@ -2028,6 +2030,8 @@ vector<T>::resize(size_type count, const value_type &value)
 
 			if (_capacity < count)
 				realloc(count);
+			else
+				add_data_to_tx(_size, count - _size);
 			construct_at_end(count - _size, tmp_ref);
 		}
 	});
-- 
2.43.0


From 016af8fe370c311322f196adb67bf47628dab4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 26/46] fix: segment_vector::insert: allow elements of the
 container itself as arguments

The value was copied after the element it refers to had been moved.
---
 include/libpmemobj++/container/segment_vector.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/container/segment_vector.hpp b/include/libpmemobj++/container/segment_vector.hpp
index 9f09219..899684d 100644
--- a/include/libpmemobj++/container/segment_vector.hpp
+++ b/include/libpmemobj++/container/segment_vector.hpp
@@ -1982,9 +1982,17 @@ segment_vector<T, Policy>::insert(const_iterator pos, size_type count,
 
 	pool_base pb = get_pool();
 	transaction::run(pb, [&] {
+		/*
+		 * value might be a reference to an element of this container,
+		 * which insert_gap() moves.
+		 */
+		detail::temp_value<value_type, noexcept(T(value))> tmp(value);
+
+		const value_type &tmp_ref = tmp.get();
+
 		insert_gap(idx, count);
 		for (size_type i = idx; i < idx + count; ++i)
-			get(i) = std::move(value);
+			get(i) = tmp_ref;
 	});
 
 	return iterator(this, idx);
-- 
2.43.0


From 6e5d8c695d4291176e2be1b3b52033b2784c1147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 27/46] fix: vector, segment_vector: do not start a transaction
 in a destructor after an abort

When an element's constructor threw in a constructor of segment_vector,
the destructors of its parts began a transaction in the aborted one, which
terminates the program.
---
 include/libpmemobj++/container/segment_vector.hpp | 4 ++++
 include/libpmemobj++/container/vector.hpp         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/libpmemobj++/container/segment_vector.hpp b/include/libpmemobj++/container/segment_vector.hpp
index 899684d..ed15315 100644
--- a/include/libpmemobj++/container/segment_vector.hpp
+++ b/include/libpmemobj++/container/segment_vector.hpp
@@ -1297,6 +1297,10 @@ segment_vector<T, Policy>::assign(const std::vector<T> &other)
 template <typename T, typename Policy>
 segment_vector<T, Policy>::~segment_vector()
 {
+	/* an aborted transaction reverts the allocation itself */
+	if (pmemobj_tx_stage() == TX_STAGE_ONABORT)
+		return;
+
 	free_data();
 }
 
diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index e52719b..9d002f5 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -861,6 +861,10 @@ vector<T>::assign(const std::vector<T> &other)
 template <typename T>
 vector<T>::~vector()
 {
+	/* an aborted transaction reverts the allocation itself */
+	if (pmemobj_tx_stage() == TX_STAGE_ONABORT)
+		return;
+
 	free_data();
 }
 
-- 
2.43.0


From f4d94d3cc956286a06b263c4a29a78d311d215b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 28/46] fix: basic_string: snapshot the characters that a short
 string loses

erase(), replace() and resize() of an inline string snapshotted only what
they wrote. If the string grew again in the same transaction, the removed
characters were overwritten without a snapshot and an abort did not bring
them back.
---
 include/libpmemobj++/container/basic_string.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/libpmemobj++/container/basic_string.hpp b/include/libpmemobj++/container/basic_string.hpp
index 1dbbd6d..ebc7fc8 100644
--- a/include/libpmemobj++/container/basic_string.hpp
+++ b/include/libpmemobj++/container/basic_string.hpp
@@ -1466,6 +1466,12 @@ basic_string<CharT, Traits>::erase(size_type index, size_type count)
 			auto move_len = sz - index - count;
 			auto new_size = sz - count;
 
+			/*
+			 * Snapshot the removed characters as well, later calls
+			 * in the same transaction will not do it.
+			 */
+			add_sso_to_tx(index, sz - index + 1);
+
 			auto range = sso_data().range(index, move_len + 1);
 
 			traits_type::move(range.begin(), &*last, move_len);
@@ -2479,7 +2485,8 @@ basic_string<CharT, Traits>::replace(const_iterator first, const_iterator last,
 
 	transaction::run(pop, [&] {
 		if (is_sso_used() && new_size <= sso_capacity) {
-			add_sso_to_tx(index, new_size - index + 1);
+			add_sso_to_tx(index,
+				      (std::max)(sz, new_size) - index + 1);
 
 			assert(count2 < new_size + 1);
 			traits_type::move(&sso_data()._data[index + count2],
@@ -2695,7 +2702,8 @@ basic_string<CharT, Traits>::replace(const_iterator first, const_iterator last,
 
 	transaction::run(pop, [&] {
 		if (is_sso_used() && new_size <= sso_capacity) {
-			add_sso_to_tx(index, new_size - index + 1);
+			add_sso_to_tx(index,
+				      (std::max)(sz, new_size) - index + 1);
 
 			assert(count2 < new_size + 1);
 			traits_type::move(&sso_data()._data[index + count2],
@@ -3635,6 +3643,7 @@ basic_string<CharT, Traits>::resize(size_type count, CharT ch)
 		if (count > sz) {
 			append(count - sz, ch);
 		} else if (is_sso_used()) {
+			add_sso_to_tx(count, sz - count + 1);
 			set_sso_size(count);
 			sso_data()[count] = value_type('\0');
 		} else {
-- 
2.43.0


From b07a7940bd6a9f67d27d7fc0b1e6e55e748b00cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 29/46] fix: basic_string: insert and replace with parts of the
 string itself

The source was read after it had been moved, unless the string changed its
representation at the same time.
---
 .../libpmemobj++/container/basic_string.hpp   | 63 +++++++++----------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/include/libpmemobj++/container/basic_string.hpp b/include/libpmemobj++/container/basic_string.hpp
index ebc7fc8..bf1c109 100644
--- a/include/libpmemobj++/container/basic_string.hpp
+++ b/include/libpmemobj++/container/basic_string.hpp
@@ -2264,6 +2264,15 @@ basic_string<CharT, Traits>::insert(const_iterator pos, InputIt first,
 	auto index = static_cast<size_type>(std::distance(cbegin(), pos));
 
 	transaction::run(pop, [&] {
+		/* 1) Cache C-style string in case of self-insert, because it
+		 * will be moved, or destroyed when switching from sso to large
+		 * string.
+		 *
+		 * 2) We cache in std::vector instead of std::string because of
+		 * overload deduction ambiguity on Windows
+		 */
+		std::vector<value_type> str(first, last);
+
 		if (is_sso_used() && new_size <= sso_capacity) {
 			auto len = sz - index;
 
@@ -2271,36 +2280,20 @@ basic_string<CharT, Traits>::insert(const_iterator pos, InputIt first,
 
 			traits_type::move(&sso_data()._data[index + count],
 					  &sso_data()._data[index], len);
-			std::copy(first, last, &sso_data()._data[index]);
+			std::copy(str.begin(), str.end(),
+				  &sso_data()._data[index]);
 
 			assert(new_size == index + len + count);
 			set_sso_size(new_size);
 			sso_data()._data[new_size] = value_type('\0');
 		} else {
-			if (is_sso_used()) {
-				/* 1) Cache C-style string in case of
-				 * self-insert, because it will be destroyed
-				 * when switching from sso to large string.
-				 *
-				 * 2) We cache in std::vector instead of
-				 * std::string because of overload deduction
-				 * ambiguity on Windows
-				 */
-				std::vector<value_type> str(first, last);
-
+			if (is_sso_used())
 				sso_to_large(new_size);
-				non_sso_data().insert(
-					non_sso_data().begin() +
-						static_cast<difference_type>(
-							index),
-					str.begin(), str.end());
-			} else {
-				non_sso_data().insert(
-					non_sso_data().begin() +
-						static_cast<difference_type>(
-							index),
-					first, last);
-			}
+
+			non_sso_data().insert(
+				non_sso_data().begin() +
+					static_cast<difference_type>(index),
+				str.begin(), str.end());
 		}
 	});
 
@@ -2484,6 +2477,15 @@ basic_string<CharT, Traits>::replace(const_iterator first, const_iterator last,
 	auto pop = get_pool();
 
 	transaction::run(pop, [&] {
+		/* 1) Cache C-style string in case of self-replace, because it
+		 * will be moved, or destroyed when switching from sso to large
+		 * string.
+		 *
+		 * 2) We cache in std::vector instead of std::string because of
+		 * overload deduction ambiguity on Windows
+		 */
+		std::vector<value_type> str(first2, last2);
+
 		if (is_sso_used() && new_size <= sso_capacity) {
 			add_sso_to_tx(index,
 				      (std::max)(sz, new_size) - index + 1);
@@ -2492,21 +2494,12 @@ basic_string<CharT, Traits>::replace(const_iterator first, const_iterator last,
 			traits_type::move(&sso_data()._data[index + count2],
 					  &sso_data()._data[index + count],
 					  sz - index - count);
-			std::copy(first2, last2, &sso_data()._data[index]);
+			std::copy(str.begin(), str.end(),
+				  &sso_data()._data[index]);
 
 			set_sso_size(new_size);
 			sso_data()._data[new_size] = value_type('\0');
 		} else {
-			/* 1) Cache C-style string in case of
-			 * self-replace, because it will be destroyed
-			 * when switching from sso to large string.
-			 *
-			 * 2) We cache in std::vector instead of
-			 * std::string because of overload deduction
-			 * ambiguity on Windows
-			 */
-			std::vector<value_type> str(first2, last2);
-
 			if (is_sso_used()) {
 				sso_to_large(new_size);
 			}
-- 
2.43.0


From 1ca36a6986dae7dcdcaf557332b04fdba2ffa4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 30/46] fix: basic_string::find: do not look beyond the end of
 the string

A pattern that ends in a null character was found at the end of the
string, where its last character matched the terminating null.
---
 include/libpmemobj++/container/basic_string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/libpmemobj++/container/basic_string.hpp b/include/libpmemobj++/container/basic_string.hpp
index bf1c109..9b9ee03 100644
--- a/include/libpmemobj++/container/basic_string.hpp
+++ b/include/libpmemobj++/container/basic_string.hpp
@@ -2903,6 +2903,8 @@ basic_string<CharT, Traits>::find(const CharT *s, size_type pos,
 		if (!found)
 			return npos;
 		pos = static_cast<size_type>(std::distance(cdata(), found));
+		if (sz - pos < count)
+			return npos;
 		if (traits_type::compare(found, s, count) == 0) {
 			return pos;
 		}
-- 
2.43.0


From 889124ef06d00edb6989addb116884bb6b704e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 31/46] fix: persistent_ptr::pointer_to: make it compile

The constructor it uses passed a raw pointer to persistent_ptr_base, which has no such constructor.
---
 include/libpmemobj++/persistent_ptr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/persistent_ptr.hpp b/include/libpmemobj++/persistent_ptr.hpp
index 9e61a5b..22276dc 100644
--- a/include/libpmemobj++/persistent_ptr.hpp
+++ b/include/libpmemobj++/persistent_ptr.hpp
@@ -608,7 +608,8 @@ protected:
 	 * pointer_traits<persistent_ptr>::pointer_to to be able to create
 	 * valid pointers. This is used in libstdc++'s std::vector::insert().
 	 */
-	persistent_ptr(element_type *vptr, int) : persistent_ptr_base(vptr)
+	persistent_ptr(element_type *vptr, int)
+	    : persistent_ptr_base(pmemobj_oid(vptr))
 	{
 		if (OID_IS_NULL(oid)) {
 			oid.pool_uuid_lo = std::numeric_limits<decltype(
-- 
2.43.0


From 3df8cfa4ad4bff1ea4a72f82b6c21f9507f576fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 32/46] fix: make_persistent, allocator: refuse arrays whose
 size in bytes does not fit

The product wrapped around: a small block was allocated and the constructors ran far beyond its end.
---
 include/libpmemobj++/allocator.hpp                  |  2 +-
 include/libpmemobj++/detail/array_traits.hpp        | 13 +++++++++++++
 include/libpmemobj++/make_persistent_array.hpp      |  2 +-
 .../libpmemobj++/make_persistent_array_atomic.hpp   |  3 ++-
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/libpmemobj++/allocator.hpp b/include/libpmemobj++/allocator.hpp
index 4673272..85ba156 100644
--- a/include/libpmemobj++/allocator.hpp
+++ b/include/libpmemobj++/allocator.hpp
@@ -256,7 +256,7 @@ public:
 				"refusing to allocate memory outside of transaction scope");
 
 		/* allocate raw memory, no object construction */
-		return pmemobj_tx_alloc(sizeof(value_type) * cnt,
+		return pmemobj_tx_alloc(detail::pp_array_bytes<value_type>(cnt),
 					detail::type_num<T>());
 	}
 
diff --git a/include/libpmemobj++/detail/array_traits.hpp b/include/libpmemobj++/detail/array_traits.hpp
index eb02e73..d1d1b4a 100644
--- a/include/libpmemobj++/detail/array_traits.hpp
+++ b/include/libpmemobj++/detail/array_traits.hpp
@@ -84,6 +84,19 @@ struct pp_array_type<T[N]> {
 	typedef T type;
 };
 
+/*
+ * Size of an array of n objects; a size that no allocator grants if it does
+ * not fit.
+ */
+template <typename T>
+inline std::size_t
+pp_array_bytes(std::size_t n)
+{
+	return n > static_cast<std::size_t>(-1) / sizeof(T)
+		? static_cast<std::size_t>(-1)
+		: sizeof(T) * n;
+}
+
 } /* namespace detail */
 
 } /* namespace pmem */
diff --git a/include/libpmemobj++/make_persistent_array.hpp b/include/libpmemobj++/make_persistent_array.hpp
index 2d6d895..239da26 100644
--- a/include/libpmemobj++/make_persistent_array.hpp
+++ b/include/libpmemobj++/make_persistent_array.hpp
@@ -93,7 +93,7 @@ make_persistent(std::size_t N, allocation_flag flag = allocation_flag::none())
 			"refusing to allocate memory outside of transaction scope");
 
 	persistent_ptr<T> ptr = pmemobj_tx_xalloc(
-		sizeof(I) * N, detail::type_num<I>(), flag.value);
+		detail::pp_array_bytes<I>(N), detail::type_num<I>(), flag.value);
 
 	if (ptr == nullptr) {
 		if (errno == ENOMEM)
diff --git a/include/libpmemobj++/make_persistent_array_atomic.hpp b/include/libpmemobj++/make_persistent_array_atomic.hpp
index 6b18080..92ee75a 100644
--- a/include/libpmemobj++/make_persistent_array_atomic.hpp
+++ b/include/libpmemobj++/make_persistent_array_atomic.hpp
@@ -79,7 +79,8 @@ make_persistent_atomic(
 {
 	typedef typename detail::pp_array_type<T>::type I;
 
-	auto ret = pmemobj_xalloc(pool.handle(), ptr.raw_ptr(), sizeof(I) * N,
+	auto ret = pmemobj_xalloc(pool.handle(), ptr.raw_ptr(),
+				  detail::pp_array_bytes<I>(N),
 				  detail::type_num<I>(), flag.value,
 				  &detail::array_constructor<I>,
 				  static_cast<void *>(&N));
-- 
2.43.0


From 3ae6e79ddc3fa08f0d5bc826872f89d23fdffc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 33/46] fix: make_persistent: free the object if its
 constructor throws

A caller that catches the exception inside the transaction and commits leaked the memory (and the elements already constructed).
---
 include/libpmemobj++/make_persistent.hpp      | 10 ++++-
 .../libpmemobj++/make_persistent_array.hpp    | 37 +++++++++++++++++--
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/include/libpmemobj++/make_persistent.hpp b/include/libpmemobj++/make_persistent.hpp
index 5a2c19d..b1d78de 100644
--- a/include/libpmemobj++/make_persistent.hpp
+++ b/include/libpmemobj++/make_persistent.hpp
@@ -96,7 +96,15 @@ make_persistent(allocation_flag flag, Args &&... args)
 				.with_pmemobj_errormsg();
 	}
 
-	detail::create<T, Args...>(ptr.get(), std::forward<Args>(args)...);
+	try {
+		detail::create<T, Args...>(ptr.get(),
+					   std::forward<Args>(args)...);
+	} catch (...) {
+		/* the transaction may go on, without this object */
+		if (pmemobj_tx_stage() == TX_STAGE_WORK)
+			pmemobj_tx_free(*ptr.raw_ptr());
+		throw;
+	}
 
 	return ptr;
 }
diff --git a/include/libpmemobj++/make_persistent_array.hpp b/include/libpmemobj++/make_persistent_array.hpp
index 239da26..528276f 100644
--- a/include/libpmemobj++/make_persistent_array.hpp
+++ b/include/libpmemobj++/make_persistent_array.hpp
@@ -55,6 +55,35 @@
 namespace pmem
 {
 
+namespace detail
+{
+
+/*
+ * Constructs the elements of a newly allocated array. If a constructor throws,
+ * the elements constructed so far are destroyed and the array is freed again,
+ * as the transaction may go on without it.
+ */
+template <typename I>
+inline void
+create_array(PMEMoid oid, I *data, std::ptrdiff_t n)
+{
+	std::ptrdiff_t i = 0;
+
+	try {
+		for (; i < n; ++i)
+			create<I>(data + i);
+	} catch (...) {
+		if (pmemobj_tx_stage() == TX_STAGE_WORK) {
+			while (i > 0)
+				destroy<I>(data[--i]);
+			pmemobj_tx_free(oid);
+		}
+		throw;
+	}
+}
+
+} /* namespace detail */
+
 namespace obj
 {
 
@@ -120,8 +149,8 @@ make_persistent(std::size_t N, allocation_flag flag = allocation_flag::none())
 	 * case when transaction is aborted after make_persistent completes and
 	 * we have no way to call destructors.
 	 */
-	for (std::ptrdiff_t i = 0; i < static_cast<std::ptrdiff_t>(N); ++i)
-		detail::create<I>(data + i);
+	detail::create_array<I>(ptr.raw(), data,
+				static_cast<std::ptrdiff_t>(N));
 
 	return ptr;
 }
@@ -180,8 +209,8 @@ make_persistent(allocation_flag flag = allocation_flag::none())
 	 * case when transaction is aborted after make_persistent completes and
 	 * we have no way to call destructors.
 	 */
-	for (std::ptrdiff_t i = 0; i < static_cast<std::ptrdiff_t>(N); ++i)
-		detail::create<I>(data + i);
+	detail::create_array<I>(ptr.raw(), data,
+				static_cast<std::ptrdiff_t>(N));
 
 	return ptr;
 }
-- 
2.43.0


From 3fdfc7cad733fc0a7e842b62185c976f0f851262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 34/46] fix: allocator::destroy: snapshot the object, not the
 size of a pointer

Changes of the destructor beyond the first 16 bytes survived an abort.
---
 include/libpmemobj++/allocator.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/libpmemobj++/allocator.hpp b/include/libpmemobj++/allocator.hpp
index 85ba156..3e949b4 100644
--- a/include/libpmemobj++/allocator.hpp
+++ b/include/libpmemobj++/allocator.hpp
@@ -139,9 +139,7 @@ public:
 	destroy(pointer p)
 	{
 		/* XXX should we allow modifications outside of tx? */
-		if (pmemobj_tx_stage() == TX_STAGE_WORK) {
-			pmemobj_tx_add_range_direct((void *)p.get(), sizeof(p));
-		}
+		detail::conditional_add_to_tx(p.get());
 
 		detail::destroy<value_type>(*p);
 	}
-- 
2.43.0


From 66026ec6d04c7e9182a5b1133d0dc65b27a0b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 35/46] fix: persistent_ptr: a null pointer stays null when
 converted to a base class

The offset of the base was added to the null pointer, which then compared unequal to null pointers.
---
 include/libpmemobj++/persistent_ptr.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/libpmemobj++/persistent_ptr.hpp b/include/libpmemobj++/persistent_ptr.hpp
index 22276dc..e6b7fbe 100644
--- a/include/libpmemobj++/persistent_ptr.hpp
+++ b/include/libpmemobj++/persistent_ptr.hpp
@@ -272,8 +272,9 @@ public:
 	persistent_ptr(persistent_ptr<U> const &r) noexcept
 	    : persistent_ptr_base(r.oid)
 	{
-		this->oid.off +=
-			static_cast<std::uint64_t>(calculate_offset<U>());
+		if (!OID_IS_NULL(this->oid))
+			this->oid.off += static_cast<std::uint64_t>(
+				calculate_offset<U>());
 		verify_type();
 	}
 
@@ -293,8 +294,9 @@ public:
 	persistent_ptr(persistent_ptr<U> const &r) noexcept
 	    : persistent_ptr_base(r.oid)
 	{
-		this->oid.off +=
-			static_cast<std::uint64_t>(calculate_offset<U>());
+		if (!OID_IS_NULL(this->oid))
+			this->oid.off += static_cast<std::uint64_t>(
+				calculate_offset<U>());
 		verify_type();
 	}
 
-- 
2.43.0


From eacfe2189b7d0f016766b2701b6e58b73f67161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 36/46] fix: levelMap: a buffer for each thread of the level
 hash map

---
 containers/levelMap.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/containers/levelMap.hpp b/containers/levelMap.hpp
index f9e2dae..c1e1a82 100644
--- a/containers/levelMap.hpp
+++ b/containers/levelMap.hpp
@@ -39,13 +39,19 @@ namespace clevel
 
         pool pop;
 
+        // The map's own expansion thread uses number 0.
+        static size_t threadId()
+        {
+            return localThreadNum + 1;
+        }
+
         bool insert(ValT val)
         {
             auto map = pop.root()->cons;
             assert(map != nullptr);
 
             // NOTE: id appears unused. Just pass in the key.
-            auto r = map->insert(value_type(val, val), localThreadNum, static_cast<size_t>(val));
+            auto r = map->insert(value_type(val, val), threadId(), static_cast<size_t>(val));
             return (!r.found);
         }
 
@@ -54,7 +60,7 @@ namespace clevel
             auto map = pop.root()->cons;
             assert(map != nullptr);
 
-            auto r = map->erase(key_type(key), 1);
+            auto r = map->erase(key_type(key), threadId());
             return (r.found);
         }
 
@@ -111,7 +117,7 @@ namespace clevel
                 pmem::obj::transaction::manual tx(pop);
 
                 proot->cons = pmem::obj::make_persistent<root::map_type>();
-                proot->cons->set_thread_num(1);
+                proot->cons->set_thread_num(opt.numthreads + 1);
 
                 pmem::obj::transaction::commit();
             }
-- 
2.43.0


From 1b8430a4ff252afc71d816a57bdc62292df836ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 37/46] fix: runTest: match options in full

Any argument that begins with an option's name was taken for that option:
-threads 3 or -t5 3 set the number of threads, -hx showed the help.
---
 runTest.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runTest.hpp b/runTest.hpp
index bba9673..e525751 100644
--- a/runTest.hpp
+++ b/runTest.hpp
@@ -101,7 +101,7 @@ template <class N, class T>
 bool matchOpt1(const std::vector<std::string> &args, N &pos, std::string opt, T &fld)
 {
     std::string arg(args.at(pos));
-    if (arg.find(opt) != 0)
+    if (arg != opt)
         return false;
     ++pos;
     fld = conv<T>(args.at(pos));
@@ -113,7 +113,7 @@ template <class N, class Fn, class... Parms>
 bool matchOpt0(const std::vector<std::string> &args, N &pos, std::string opt, Fn fn, Parms... parms)
 {
     std::string arg(args.at(pos));
-    if (arg.find(opt) != 0)
+    if (arg != opt)
         return false;
     fn(parms...);
     ++pos;
-- 
2.43.0


From 90f338d8d906f1f2da6b7455189855d216015f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 38/46] fix: runTest: keep blanks in the file name

-f 'a b' mapped the file a.
---
 runTest.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runTest.hpp b/runTest.hpp
index e525751..3413570 100644
--- a/runTest.hpp
+++ b/runTest.hpp
@@ -97,6 +97,13 @@ U conv(const V &val)
     return res;
 }
 
+// A string is taken as it is; extraction would end at the first blank.
+template <>
+inline std::string conv<std::string, std::string>(const std::string &val)
+{
+    return val;
+}
+
 template <class N, class T>
 bool matchOpt1(const std::vector<std::string> &args, N &pos, std::string opt, T &fld)
 {
-- 
2.43.0


From 0b6f0ec3aa011f0f9e49317378cba4ad0fa07e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 39/46] fix: pmemMap: close the pool

The pool stayed open when the container was destroyed, and a second run
or a run after the recovery test could not open it.
---
 containers/pmemMap.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/containers/pmemMap.hpp b/containers/pmemMap.hpp
index 9ad7bc2..0c034ce 100644
--- a/containers/pmemMap.hpp
+++ b/containers/pmemMap.hpp
@@ -138,6 +138,13 @@ namespace pm
             return;
         }
 
+        ~container_type()
+        {
+            // The constructor gives up if it cannot open the pool.
+            if (pop.handle() != nullptr)
+                pop.close();
+        }
+
         bool isConsistent()
         {
             // NOTE: Assume it is consistent.
-- 
2.43.0


From 94e5674428f2a3499966bb555528974518d713ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 40/46] fix: clevel_hash: redo an insertion whenever the levels
 changed under it

A level that becomes the last one while an item is being inserted into it may
be rehashed before the item arrives; only the case of the level that was the
last one from the start was noticed, so inserted keys got lost.
---
 include/libpmemobj++/experimental/clevel_hash.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 1bdde1f..f485833 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -1061,10 +1061,11 @@ RETRY_INSERT:
 		{
 			if (CAS(&(e->off), old_e.raw(), created.p.raw()))
 			{
-				if (!m->is_resizing && meta(my_pool_uuid)->is_resizing &&
-					level_num == 0)
+				if (m_copy != meta)
 				{
-					// Resizing may occur during the insert. Hence, redo the
+					// Resizing may occur during the insert: the level may
+					// meanwhile have become the last one, and its bucket may
+					// have been rehashed before the CAS. Hence, redo the
 					// insertion to avoid missing the new item. The possible
 					// duplication will be fixed in future updates and deletes.
 					pop.persist(&(meta.off), sizeof(uint64_t));
-- 
2.43.0


From 65f1d6546ab88908666bbfd03d9632321c3e2d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 41/46] fix: clevel_hash: an item that is in the table twice

Redone insertions leave two slots that refer to one item. erase freed it once
per slot, and update hit an assertion (or did not return) when both had been moved to the same
level.
---
 .../libpmemobj++/experimental/clevel_hash.hpp | 60 +++++++++----------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index f485833..9f7cb9d 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -23,6 +23,7 @@
 #include <libpmemobj++/detail/persistent_pool_ptr.hpp>
 #include <libpmemobj++/detail/specialization.hpp>
 
+#include <algorithm>
 #include <atomic>
 #include <cassert>
 #include <cmath>
@@ -764,7 +765,6 @@ RETRY_FIND:
 
 		f_code_t result;
 		KV_entry_ptr_t prev_e;
-		size_type prev_i;
 
 		n_levels = 0;
 		level_ptr_t li = nullptr, next_li = m->last_level;
@@ -834,18 +834,11 @@ RETRY_FIND:
 						// Duplication due to the re-insertion in normal
 						// executions or os scheduling during a rehashing
 						// operation. In this case, delete the pointer in
-						// bottom level.
-						if (prev_i < i)
-						{
-							del_dup(pop, &f_b.slots[j], &(levels[level_num]
-								.get_address(my_pool_uuid)->buckets[idx]
-								.slots[slot_idx]), f_e, prev_e);
-						}
-						else
-						{
-							// Never fires!
-							assert(false);
-						}
+						// bottom level (or either of them, if both were
+						// moved to the same level).
+						del_dup(pop, &f_b.slots[j], &(levels[level_num]
+							.get_address(my_pool_uuid)->buckets[idx]
+							.slots[slot_idx]), f_e, prev_e);
 					}
 					// Refer to different locations
 					else
@@ -869,7 +862,6 @@ RETRY_FIND:
 					slot_idx = j;
 
 					prev_e = f_e;
-					prev_i = i;
 				} // end if result in FOUND_IN_LEFT or FOUND_IN_RIGHT
 			} // end for j, f_idx, f_b
 
@@ -924,18 +916,11 @@ RETRY_FIND:
 						// Duplication due to the re-insertion in normal
 						// executions or os scheduling during a rehashing
 						// operation. In this case, delete the pointer in
-						// bottom level.
-						if (prev_i < i)
-						{
-							del_dup(pop, &s_b.slots[j], &(levels[level_num]
-								.get_address(my_pool_uuid)->buckets[idx]
-								.slots[slot_idx]), s_e, prev_e);
-						}
-						else
-						{
-							// Never fires!
-							assert(false);
-						}
+						// bottom level (or either of them, if both were
+						// moved to the same level).
+						del_dup(pop, &s_b.slots[j], &(levels[level_num]
+							.get_address(my_pool_uuid)->buckets[idx]
+							.slots[slot_idx]), s_e, prev_e);
 					}
 					// Refer to different locations
 					else
@@ -959,7 +944,6 @@ RETRY_FIND:
 					slot_idx = j;
 
 					prev_e = s_e;
-					prev_i = i;
 				} // end if result in FOUND_IN_LEFT or FOUND_IN_RIGHT
 			} // end for j, s_idx, s_b
 
@@ -1108,6 +1092,7 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 	partial_t partial = get_partial(hv);
 	difference_type expand_bucket_old;
 	bool succ_deletion = false;
+	std::vector<uint64_t> removed;
 
 	while(true)
 	{
@@ -1139,8 +1124,11 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 							pop.persist(&(f_b.slots[j].p.off), sizeof(uint64_t));
 							succ_deletion = true;
 
-							PMEMoid oid = tmp.p.raw_ptr(my_pool_uuid);
-							pmemobj_free(&oid);
+							// The item may be in the table several times
+							// (see insert), but is freed only once.
+							if (std::find(removed.begin(), removed.end(),
+								tmp.p.get_offset()) == removed.end())
+								removed.push_back(tmp.p.get_offset());
 
 
 				// Instead of redoing the delete to guarantee the deletion is
@@ -1179,8 +1167,11 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 							pop.persist(&(s_b.slots[j].p.off), sizeof(uint64_t));
 							succ_deletion = true;
 
-							PMEMoid oid = tmp.p.raw_ptr(my_pool_uuid);
-							pmemobj_free(&oid);
+							// The item may be in the table several times
+							// (see insert), but is freed only once.
+							if (std::find(removed.begin(), removed.end(),
+								tmp.p.get_offset()) == removed.end())
+								removed.push_back(tmp.p.get_offset());
 
 
 				// Instead of redoing the delete to guarantee the deletion is
@@ -1209,7 +1200,14 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 
 		// Context checking.
 		if (m_copy == meta)
+		{
+			for (uint64_t off : removed)
+			{
+				PMEMoid oid = {my_pool_uuid, off};
+				pmemobj_free(&oid);
+			}
 			return ret(succ_deletion);
+		}
 	} // end while(true)
 
 }
-- 
2.43.0


From 4ae091b9dfcd6bb6d4b7e3b1fb60f483629c5980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 42/46] fix: clevel_hash: search reads every slot once

The slot could be emptied between the test and the dereference.
---
 include/libpmemobj++/experimental/clevel_hash.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 9f7cb9d..45725c5 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -571,11 +571,11 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::search(
 			bucket &f_b = cl->buckets[f_idx];
 			for (size_type j = 0; j < assoc_num; j++)
 			{
-				if (f_b.slots[j].x.partial == partial
-					&& f_b.slots[j].p.get_offset() != 0)
+				KV_entry_ptr_u tmp(f_b.slots[j].p.off);
+				if (tmp.x.partial == partial && tmp.p.get_offset() != 0)
 				{
 					if (key_equal{}(
-						f_b.slots[j].p.get_address(my_pool_uuid)->first, key))
+						tmp.p.get_address(my_pool_uuid)->first, key))
 					{
 						return ret(i, f_idx, j);
 					}
@@ -585,11 +585,11 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::search(
 			bucket &s_b = cl->buckets[s_idx];
 			for (size_type j = 0; j < assoc_num; j++)
 			{
-				if (s_b.slots[j].x.partial == partial
-					&& s_b.slots[j].p.get_offset() != 0)
+				KV_entry_ptr_u tmp(s_b.slots[j].p.off);
+				if (tmp.x.partial == partial && tmp.p.get_offset() != 0)
 				{
 					if (key_equal{}(
-						s_b.slots[j].p.get_address(my_pool_uuid)->first, key))
+						tmp.p.get_address(my_pool_uuid)->first, key))
 					{
 						return ret(i, s_idx, j);
 					}
-- 
2.43.0


From fc0ee75a1aecefc3f1e0c583feace2b423efcfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 43/46] fix: containers: counts that exceed the largest index

range(start, n), insert(pos, count, value) and the string operations compared a
sum that may wrap around with the limit, and then accessed memory beyond the
end (or never returned) instead of throwing.
---
 include/libpmemobj++/container/array.hpp          |  8 ++++----
 include/libpmemobj++/container/basic_string.hpp   | 12 ++++++------
 include/libpmemobj++/container/segment_vector.hpp |  9 ++++++---
 include/libpmemobj++/container/vector.hpp         | 11 +++++++----
 4 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/include/libpmemobj++/container/array.hpp b/include/libpmemobj++/container/array.hpp
index 7ab7eca..c2f14d8 100644
--- a/include/libpmemobj++/container/array.hpp
+++ b/include/libpmemobj++/container/array.hpp
@@ -493,7 +493,7 @@ struct array {
 	slice<pointer>
 	range(size_type start, size_type n)
 	{
-		if (start + n > N)
+		if (start > N || n > N - start)
 			throw std::out_of_range("array::range");
 
 		detail::conditional_add_to_tx(_get_data() + start, n,
@@ -521,7 +521,7 @@ struct array {
 	slice<range_snapshotting_iterator>
 	range(size_type start, size_type n, size_type snapshot_size)
 	{
-		if (start + n > N)
+		if (start > N || n > N - start)
 			throw std::out_of_range("array::range");
 
 		if (snapshot_size > n)
@@ -549,7 +549,7 @@ struct array {
 	slice<const_iterator>
 	range(size_type start, size_type n) const
 	{
-		if (start + n > N)
+		if (start > N || n > N - start)
 			throw std::out_of_range("array::range");
 
 		return {const_iterator(_get_data() + start),
@@ -570,7 +570,7 @@ struct array {
 	slice<const_iterator>
 	crange(size_type start, size_type n) const
 	{
-		if (start + n > N)
+		if (start > N || n > N - start)
 			throw std::out_of_range("array::crange");
 
 		return {const_iterator(_get_data() + start),
diff --git a/include/libpmemobj++/container/basic_string.hpp b/include/libpmemobj++/container/basic_string.hpp
index 9b9ee03..a762c17 100644
--- a/include/libpmemobj++/container/basic_string.hpp
+++ b/include/libpmemobj++/container/basic_string.hpp
@@ -1586,7 +1586,7 @@ basic_string<CharT, Traits>::append(size_type count, CharT ch)
 	auto sz = size();
 	auto new_size = sz + count;
 
-	if (new_size > max_size())
+	if (count > max_size() - sz)
 		throw std::length_error("Size exceeds max size.");
 
 	if (is_sso_used()) {
@@ -1769,7 +1769,7 @@ basic_string<CharT, Traits>::append(InputIt first, InputIt last)
 	auto count = static_cast<size_type>(std::distance(first, last));
 	auto new_size = sz + count;
 
-	if (new_size > max_size())
+	if (count > max_size() - sz)
 		throw std::length_error("Size exceeds max size.");
 
 	if (is_sso_used()) {
@@ -2183,7 +2183,7 @@ basic_string<CharT, Traits>::insert(const_iterator pos, size_type count,
 {
 	auto sz = size();
 
-	if (sz + count > max_size())
+	if (count > max_size() - sz)
 		throw std::length_error("Count exceeds max size.");
 
 	auto new_size = sz + count;
@@ -2254,7 +2254,7 @@ basic_string<CharT, Traits>::insert(const_iterator pos, InputIt first,
 
 	auto count = static_cast<size_type>(std::distance(first, last));
 
-	if (sz + count > max_size())
+	if (count > max_size() - sz)
 		throw std::length_error("Count exceeds max size.");
 
 	auto pop = get_pool();
@@ -2469,7 +2469,7 @@ basic_string<CharT, Traits>::replace(const_iterator first, const_iterator last,
 
 	count = (std::min)(count, sz - index);
 
-	if (sz - count + count2 > max_size())
+	if (count2 > max_size() - (sz - count))
 		throw std::length_error("Count exceeds max size.");
 
 	auto new_size = sz - count + count2;
@@ -2686,7 +2686,7 @@ basic_string<CharT, Traits>::replace(const_iterator first, const_iterator last,
 
 	count = (std::min)(count, sz - index);
 
-	if (sz - count + count2 > max_size())
+	if (count2 > max_size() - (sz - count))
 		throw std::length_error("Count exceeds max size.");
 
 	auto new_size = sz - count + count2;
diff --git a/include/libpmemobj++/container/segment_vector.hpp b/include/libpmemobj++/container/segment_vector.hpp
index ed15315..2f66dbf 100644
--- a/include/libpmemobj++/container/segment_vector.hpp
+++ b/include/libpmemobj++/container/segment_vector.hpp
@@ -1676,7 +1676,7 @@ template <typename T, typename Policy>
 slice<typename segment_vector<T, Policy>::iterator>
 segment_vector<T, Policy>::range(size_type start, size_type n)
 {
-	if (start + n > size())
+	if (start > size() || n > size() - start)
 		throw std::out_of_range("segment_vector::range");
 
 	snapshot_data(start, start + n);
@@ -1699,7 +1699,7 @@ template <typename T, typename Policy>
 slice<typename segment_vector<T, Policy>::const_iterator>
 segment_vector<T, Policy>::range(size_type start, size_type n) const
 {
-	if (start + n > size())
+	if (start > size() || n > size() - start)
 		throw std::out_of_range("segment_vector::range");
 
 	return {const_iterator(this, start), const_iterator(this, start + n)};
@@ -1720,7 +1720,7 @@ template <typename T, typename Policy>
 slice<typename segment_vector<T, Policy>::const_iterator>
 segment_vector<T, Policy>::crange(size_type start, size_type n) const
 {
-	if (start + n > size())
+	if (start > size() || n > size() - start)
 		throw std::out_of_range("segment_vector::range");
 
 	return {const_iterator(this, start), const_iterator(this, start + n)};
@@ -2607,6 +2607,9 @@ segment_vector<T, Policy>::insert_gap(size_type idx, size_type count)
 
 	size_type _size = size();
 
+	if (count > max_size() - _size)
+		throw std::length_error("New size exceeds max size.");
+
 	if (capacity() < _size + count)
 		internal_reserve(_size + count);
 
diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 9d002f5..3ef0ba2 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -1272,7 +1272,7 @@ template <typename T>
 slice<typename vector<T>::pointer>
 vector<T>::range(size_type start, size_type n)
 {
-	if (start + n > size())
+	if (start > size() || n > size() - start)
 		throw std::out_of_range("vector::range");
 
 	detail::conditional_add_to_tx(cdata() + start, n,
@@ -1300,7 +1300,7 @@ template <typename T>
 slice<typename vector<T>::range_snapshotting_iterator>
 vector<T>::range(size_type start, size_type n, size_type snapshot_size)
 {
-	if (start + n > size())
+	if (start > size() || n > size() - start)
 		throw std::out_of_range("vector::range");
 
 	if (snapshot_size > n)
@@ -1329,7 +1329,7 @@ template <typename T>
 slice<typename vector<T>::const_iterator>
 vector<T>::range(size_type start, size_type n) const
 {
-	if (start + n > size())
+	if (start > size() || n > size() - start)
 		throw std::out_of_range("vector::range");
 
 	return {const_iterator(cdata() + start),
@@ -1351,7 +1351,7 @@ template <typename T>
 slice<typename vector<T>::const_iterator>
 vector<T>::crange(size_type start, size_type n) const
 {
-	if (start + n > size())
+	if (start > size() || n > size() - start)
 		throw std::out_of_range("vector::crange");
 
 	return {const_iterator(cdata() + start),
@@ -1603,6 +1603,9 @@ vector<T>::insert(const_iterator pos, size_type count, const value_type &value)
 	size_type idx = static_cast<size_type>(std::distance(cbegin(), pos));
 
 	transaction::run(pb, [&] {
+		if (count > max_size() - _size)
+			throw std::length_error("New size exceeds max size.");
+
 		/*
 		 * value might be a reference to underlying array element, see
 		 * emplace().
-- 
2.43.0


From fe6595ced1a89cd7635aab414725a23c0af040c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:47 +0000
Subject: [PATCH 44/46] fix: clevel_hash insert reported a key as present
 before the other thread's insertion of it was durable

---
 include/libpmemobj++/experimental/clevel_hash.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 45725c5..09ef13c 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -818,6 +818,11 @@ RETRY_FIND:
 
 				if (!fix_dup)
 				{
+					// The insertion of this item may still be in progress:
+					// it must be durable before its key is reported as
+					// present.
+					pop.persist(&(f_b.slots[j].p.off), sizeof(uint64_t));
+
 					result = FOUND_IN_LEFT;
 					level_num = i;
 					idx = f_idx;
@@ -900,6 +905,11 @@ RETRY_FIND:
 
 				if (!fix_dup)
 				{
+					// The insertion of this item may still be in progress:
+					// it must be durable before its key is reported as
+					// present.
+					pop.persist(&(s_b.slots[j].p.off), sizeof(uint64_t));
+
 					result = FOUND_IN_RIGHT;
 					level_num = i;
 					idx = s_idx;
-- 
2.43.0


From ce264030f47ab829a5bcbf93954dfe9fff858a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:03 +0000
Subject: [PATCH 45/46] fix: clht lost the entries it put into a new overflow
 bucket while copying to a larger table

---
 include/libpmemobj++/experimental/clht.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/libpmemobj++/experimental/clht.hpp b/include/libpmemobj++/experimental/clht.hpp
index 0e1b954..202aea1 100644
--- a/include/libpmemobj++/experimental/clht.hpp
+++ b/include/libpmemobj++/experimental/clht.hpp
@@ -808,6 +808,8 @@ public:
                 kv_ptr_t &s_new = b_new(my_pool_uuid)->slots[0];
                 s_new.off = slot.off;
                 pop.persist(&s_new.off, sizeof(kv_ptr_t));
+                bucket->next = b_new;
+                pop.persist(&bucket->next.off, sizeof(bucket_ptr_t));
                 return true;
             }
 
-- 
2.43.0


From 0d13d7af53e622590d81091c25f3176390332d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:03 +0000
Subject: [PATCH 46/46] fix: CCEH compared keys only up to their first zero
 byte and ignored their lengths, and overwrote entries with keys of another
 length

---
 include/libpmemobj++/experimental/cceh.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libpmemobj++/experimental/cceh.hpp b/include/libpmemobj++/experimental/cceh.hpp
index 76ac5bc..356adb8 100644
--- a/include/libpmemobj++/experimental/cceh.hpp
+++ b/include/libpmemobj++/experimental/cceh.hpp
@@ -110,8 +110,7 @@ description:
 		bool
 		operator()(const key_type &lhs, const key_type &rhs, size_type sz) const
 		{
-			return strncmp(reinterpret_cast<const char *>(lhs), 
-				reinterpret_cast<const char *>(rhs), sz) == 0;
+			return memcmp(lhs, rhs, sz) == 0;
 		}
 	};
 
@@ -187,7 +186,7 @@ description:
 				scoped_t lock_bucket(bucket_lock[slot_idx],true);//true：write lock，false: read lock
 				if (slots[slot_idx] != nullptr)
 				{
-					hv_type hv = hasher{}(slots[slot_idx]->key.get(), key_len);
+					hv_type hv = hasher{}(slots[slot_idx]->key.get(), slots[slot_idx]->key_len);
 					if ((hv >> (8*sizeof(key_hash)-local_depth)) == pattern)
 					{
 						continue;
@@ -471,6 +470,7 @@ description:
 		{
 			size_type location = (y+i) % KNumSlot;
 			if(target_segment->slots[location] != nullptr && target_segment->slots[location]->key.get()!=0x0
+				&& target_segment->slots[location]->key_len == key_len
 				&& key_equal{}(key,target_segment->slots[location]->key.get(),key_len))
 			{
 				lock_dir.release();
-- 
2.43.0

