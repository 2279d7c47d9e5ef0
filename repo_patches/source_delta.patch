From f035b5978202ae0707f05a50b8163384061a7d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 01/45] fix: LP_Set with capacity one grows before it is full

---
 include/datastructures/LP_Set.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index d096c6d..c1211b4 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -305,7 +305,7 @@ public:
     bool insert(const K &key) {
         ASSERT(key != 0);
 
-        if (Growing && !m_rehashing && (double) m_items / (double) m_arraySize >= 0.5)
+        if (Growing && !m_rehashing && 2 * (m_items + 1) > m_arraySize)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
-- 
2.43.0


From 669ce01ed60c77d1f4948b61b6616a52cfd3954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 02/45] fix: LP_Map grows at half load instead of when full

---
 include/datastructures/LP_Map.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 8c1d7fd..3d1f298 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -45,7 +45,7 @@ public:
     bool insert(const K &key, const V &value) {
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && 2 * (m_items + 1) > m_arraySize)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
-- 
2.43.0


From ffc1ec6a53f202d4294b36208964abbb64f631f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 03/45] fix: LP_MultiMap grows at half load instead of when
 full

---
 include/datastructures/LP_MultiMap.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index fa9557d..ff30ba0 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -131,7 +131,7 @@ public:
 
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && 2 * (m_items + 1) > m_arraySize)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
-- 
2.43.0


From 0e7e9808ac90254f740563ea3827cbf0b673973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 04/45] fix: multimap lookup range ends at the empty slot, not
 one past it

---
 include/datastructures/LP_MultiMap.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index ff30ba0..a70572b 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -178,13 +178,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
@@ -464,13 +464,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
-- 
2.43.0


From b3d5328a0d33546577c92b90df78a7ccb2a20b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 05/45] fix: nextPow2(0) is 1, hash tables never get zero
 capacity

---
 include/utils/Misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/Misc.h b/include/utils/Misc.h
index 88d856f..ab5bfa6 100644
--- a/include/utils/Misc.h
+++ b/include/utils/Misc.h
@@ -19,7 +19,7 @@ T isPowN(const T x, const T n) {
 
 template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type * = nullptr>
 T nextPow2(const T x) {
-    T v = x - 1;
+    T v = x == 0 ? 0 : x - 1;
 
     for (T s = 1; s < sizeof(T) * CHAR_BIT; s <<= 1) {
         v |= v >> s;
-- 
2.43.0


From 69f6ba90ee08cdab17d0465f55b3637121c36939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:21 +0000
Subject: [PATCH 06/45] fix: LP_Set filtered merge applies cmp to its own
 elements too

---
 include/datastructures/LP_Set.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index c1211b4..fb92af4 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -423,7 +423,7 @@ public:
 
     template<class Set, bool Growing2>
     void merge(LP_Set<K, Growing2> &&other, const Set &filter, const bool cmp = false) {
-        rehash(2*(size() + other.size()), filter);
+        rehash(2*(size() + other.size()), filter, cmp);
 
         for (std::size_t i = 0; i < other.capacity(); ++i) {
             if (other.m_array[i] != 0 && filter.count(other.m_array[i]) == cmp)
-- 
2.43.0


From cd53257345c3f312e18e8f3b5da02513052dfeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:18 +0000
Subject: [PATCH 07/45] fix: concurrent map lookups never return an
 uninitialised value

---
 include/datastructures/LP_Map.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 3d1f298..107e618 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -432,7 +432,7 @@ private:
 
     inline void _allocate(const std::size_t size) {
         m_keys.reset(new std::atomic<K>[size]()); // zero init
-        m_values.reset(new std::atomic<V>[size]); // random init
+        m_values.reset(new std::atomic<V>[size]()); // zero init, a lookup may see the key before its value
     }
 
 public:
-- 
2.43.0


From 621a76cd1040f54c885b6d98b5247777395abe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 08/45] hook: migration block size can be set for verification
 (PDT_VERIF_BLOCKSIZE)

---
 include/datastructures/Growing_LP.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/datastructures/Growing_LP.hxx b/include/datastructures/Growing_LP.hxx
index b4b8a62..460c54b 100644
--- a/include/datastructures/Growing_LP.hxx
+++ b/include/datastructures/Growing_LP.hxx
@@ -409,7 +409,11 @@ private:
     mutable uint l_epoch;
     mutable HashPtr l_table;
 
+#ifdef PDT_VERIF_BLOCKSIZE // verification hook: small migration blocks
+    const static uint c_BlockSize = PDT_VERIF_BLOCKSIZE;
+#else
     const static uint c_BlockSize = 256;
+#endif
 };
 
 template<class HT>
-- 
2.43.0


From 2507ca5cd83f44e8f64ff2a1a61a0ca8a9d99917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:51 +0000
Subject: [PATCH 09/45] fix: handles read the shared table pointer under the
 growth lock

---
 include/datastructures/Growing_LP.hxx | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/datastructures/Growing_LP.hxx b/include/datastructures/Growing_LP.hxx
index 460c54b..2918ccd 100644
--- a/include/datastructures/Growing_LP.hxx
+++ b/include/datastructures/Growing_LP.hxx
@@ -72,7 +72,7 @@ private:
     }
 
     std::atomic_uint helperThreads;
-    std::mutex grow_mutex;
+    mutable std::mutex grow_mutex;
 
 };
 
@@ -180,8 +180,11 @@ public:
 
 private:
     void getTable() const {
-        l_epoch = parent.g_epoch_r.load();
-        l_table = parent.g_table_r;
+        {
+            std::lock_guard<std::mutex> lock(parent.grow_mutex); // g_table_r may be exchanged concurrently
+            l_epoch = parent.g_epoch_r.load();
+            l_table = parent.g_table_r;
+        }
 
         if (l_table->m_version != l_epoch) {
             getTable();
@@ -337,8 +340,11 @@ public:
 
 private:
     void getTable() const {
-        l_epoch = parent.g_epoch_r.load();
-        l_table = parent.g_table_r;
+        {
+            std::lock_guard<std::mutex> lock(parent.grow_mutex); // g_table_r may be exchanged concurrently
+            l_epoch = parent.g_epoch_r.load();
+            l_table = parent.g_table_r;
+        }
 
         if (l_table->m_version != l_epoch) {
             getTable();
-- 
2.43.0


From 954f641ef1b80ebb4d0c3b88f270bf9a9bebae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:47 +0000
Subject: [PATCH 10/45] fix: Bit_Set batchSet and filter keep the rest of the
 set and its count

---
 include/datastructures/Bit_Set.hxx | 37 +++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/include/datastructures/Bit_Set.hxx b/include/datastructures/Bit_Set.hxx
index 2f9dc25..18570b2 100644
--- a/include/datastructures/Bit_Set.hxx
+++ b/include/datastructures/Bit_Set.hxx
@@ -228,25 +228,31 @@ public:
         std::size_t fromBlock = _block(from);
         std::size_t toBlock = _block(to - 1); // to not included
 
-        //print("before");
+        if (from >= to)
+            return; // empty range
 
-        // special case: first block
-        m_array[fromBlock] = (~(tKeyType) 0) << (from % cENTRIES);
+        // bits of the first block from 'from' on, bits of the last block before 'to'
+        const tKeyType fromMask = (~(tKeyType) 0) << (from % cENTRIES);
+        const tKeyType toMask = (~(tKeyType) 0) >> (cENTRIES - 1 - ((to - 1) % cENTRIES));
 
-        //print("first ");
+        auto set = [this](const std::size_t block, const tKeyType mask) {
+            m_ones += popcount(mask & ~m_array[block]);
+            m_array[block] |= mask;
+        };
 
-        // middle block: all ones
-        for (std::size_t i = fromBlock + 1; i < toBlock; ++i)
-            m_array[i] = (~(tKeyType) 0);
-
-        //print("middle");
-
-        // special case: last block
-        m_array[toBlock] = ((~(tKeyType) 0) >> (cENTRIES - (to % cENTRIES))) &
-                           (toBlock == fromBlock ? m_array[toBlock] : (~(tKeyType) 0));
+        if (fromBlock == toBlock) {
+            set(fromBlock, fromMask & toMask);
+        } else {
+            // special case: first block
+            set(fromBlock, fromMask);
 
-        m_ones = to - from;
+            // middle block: all ones
+            for (std::size_t i = fromBlock + 1; i < toBlock; ++i)
+                set(i, ~(tKeyType) 0);
 
+            // special case: last block
+            set(toBlock, toMask);
+        }
 
         //print("after ");
     }
@@ -375,12 +381,11 @@ public:
     template<class BitSet>
     void filter(const BitSet &filter) {
 
-        m_ones = 0;
         for (std::size_t i = std::max(m_lowerBound, filter.m_lowerBound);
              i < std::min(m_upperBound, filter.m_upperBound);
              i += cENTRIES) {
+            m_ones -= popcount(m_array[_block(i)] & filter.m_array[filter._block(i)]);
             m_array[_block(i)] &= ~filter.m_array[filter._block(i)];
-            m_ones += popcount(m_array[_block(i)]);
         }
     }
 
-- 
2.43.0


From 3be2ca4a13616de6714f5cf754b069f7f61ed99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:12 +0000
Subject: [PATCH 11/45] fix: blocked arrays reject the index just past the
 allocated blocks

---
 include/datastructures/BlockedArray.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/datastructures/BlockedArray.hxx b/include/datastructures/BlockedArray.hxx
index 0f6b966..0e5bfaf 100644
--- a/include/datastructures/BlockedArray.hxx
+++ b/include/datastructures/BlockedArray.hxx
@@ -41,13 +41,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
@@ -93,13 +93,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
-- 
2.43.0


From 6888e4359ab47652c4bada2e1f33c67982ce649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:12 +0000
Subject: [PATCH 12/45] fix: loading a simplex store allocates its blocks first

---
 include/datastructures/BlockedArray2.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/datastructures/BlockedArray2.hxx b/include/datastructures/BlockedArray2.hxx
index cc228ae..03af59c 100644
--- a/include/datastructures/BlockedArray2.hxx
+++ b/include/datastructures/BlockedArray2.hxx
@@ -602,6 +602,7 @@ private:
         m_blocks.resize(n);
 
         for (std::size_t i = 0; i < n; ++i) {
+            m_blocks[i] = std::make_unique<block>(0, 0);
             ar >> *m_blocks[i];
         }
     }
-- 
2.43.0


From 70ab94b5dbbcd87fb0d10dbe4d1a54eab45ded2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 13/45] fix: dSimplex::equalNeighbors is true for equal
 neighbors

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 13c7c10..7d3b896 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -499,7 +499,7 @@ public:
     bool equalNeighbors(const dSimplex<D, Precision> &a) const {
         PROFILER_INC("dSimplex_equalNeighbors");
 
-        return neighbors != a.neighbors;
+        return neighbors == a.neighbors;
     }
 
     bool operator==(const tIdType a) const { return id == a; }
-- 
2.43.0


From 3115c7c50ca3d62e69220b121ef2f8ced1a6f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 14/45] fix: rotating a vertex id by zero bits does not shift
 by the word width

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 7d3b896..6dda76c 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -659,7 +659,7 @@ private:
     }
 
     inline tHashType _rol(const tHashType x, const uint r) const {
-        return (x << r) | (x >> (sizeof(tHashType) * 8 - r));
+        return (x << r) | (x >> ((sizeof(tHashType) * 8 - r) & (sizeof(tHashType) * 8 - 1)));
     }
 
 public:
-- 
2.43.0


From 1eb9343a00efb70dd359110fc23e59daba3fc950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 15/45] fix: point maxima start at the lowest value, not the
 smallest positive one

---
 include/Geometry.h    | 2 +-
 include/Partitioner.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 6dda76c..ab613ad 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -260,7 +260,7 @@ public:
 
         dBox<D, Precision> bounds;
         bounds.low.fill(std::numeric_limits<Precision>::max());
-        bounds.high.fill(std::numeric_limits<Precision>::min());
+        bounds.high.fill(std::numeric_limits<Precision>::lowest());
 
 #ifndef NDEBUG
         std::size_t lc = 0;
diff --git a/include/Partitioner.h b/include/Partitioner.h
index 61e77ec..985893d 100644
--- a/include/Partitioner.h
+++ b/include/Partitioner.h
@@ -79,7 +79,7 @@ struct dPointStats {
         for (uint dim = 0; dim < D; ++dim) {
             min[dim] = std::numeric_limits<Precision>::max();
             mid[dim] = 0;
-            max[dim] = std::numeric_limits<Precision>::min();
+            max[dim] = std::numeric_limits<Precision>::lowest();
         }
     }
 
@@ -122,7 +122,7 @@ dPointStats<D, Precision> getPointStatsSeq(const InputIt &first,
 
     for (uint dim = 0; dim < D; ++dim) {
         stats.min[dim] = std::numeric_limits<Precision>::max();
-        stats.max[dim] = std::numeric_limits<Precision>::min();
+        stats.max[dim] = std::numeric_limits<Precision>::lowest();
 
         for (auto it = first; it != last; ++it) {
 
-- 
2.43.0


From 5eaf208b846c07e81c02a3e71df8a6191e2a19c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 16/45] fix: extend partitioner handles coincident points

---
 src/lib/Partitioner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Partitioner.cpp b/src/lib/Partitioner.cpp
index b2d07f9..8d458a1 100644
--- a/src/lib/Partitioner.cpp
+++ b/src/lib/Partitioner.cpp
@@ -200,7 +200,7 @@ ExtendPartitioner<D, Precision>::partition(const dPointStats<D, Precision> &stat
 
     // determine most vast dimension
     Precision maxExtend = 0;
-    int maxDim = -1;
+    int maxDim = 0; // any dimension will do if all points coincide
 
     for (uint d = 0; d < D; ++d) {
         if (stats.max[d] - stats.min[d] > maxExtend) {
-- 
2.43.0


From a2296ab712f0540753bd5a9e09d8deec19b57025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:05 +0000
Subject: [PATCH 17/45] fix: expansion sums do not read past the end of their
 inputs

---
 src/utils/Predicates.cpp | 56 ++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/utils/Predicates.cpp b/src/utils/Predicates.cpp
index fd6723c..26d9120 100644
--- a/src/utils/Predicates.cpp
+++ b/src/utils/Predicates.cpp
@@ -718,29 +718,29 @@ protected:
         eindex = findex = 0;
         if ((fnow > enow) == (fnow > -enow)) {
             Q = enow;
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
         } else {
             Q = fnow;
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
         }
         hindex = 0;
         if ((eindex < elen) && (findex < flen)) {
             if ((fnow > enow) == (fnow > -enow)) {
                 Fast_Two_Sum(enow, Q, Qnew, h[0]);
-                enow = e[++eindex];
+                if (++eindex < elen) enow = e[eindex];
             } else {
                 Fast_Two_Sum(fnow, Q, Qnew, h[0]);
-                fnow = f[++findex];
+                if (++findex < flen) fnow = f[findex];
             }
             Q = Qnew;
             hindex = 1;
             while ((eindex < elen) && (findex < flen)) {
                 if ((fnow > enow) == (fnow > -enow)) {
                     Two_Sum(Q, enow, Qnew, h[hindex]);
-                    enow = e[++eindex];
+                    if (++eindex < elen) enow = e[eindex];
                 } else {
                     Two_Sum(Q, fnow, Qnew, h[hindex]);
-                    fnow = f[++findex];
+                    if (++findex < flen) fnow = f[findex];
                 }
                 Q = Qnew;
                 hindex++;
@@ -748,13 +748,13 @@ protected:
         }
         while (eindex < elen) {
             Two_Sum(Q, enow, Qnew, h[hindex]);
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
             Q = Qnew;
             hindex++;
         }
         while (findex < flen) {
             Two_Sum(Q, fnow, Qnew, h[hindex]);
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
             Q = Qnew;
             hindex++;
         }
@@ -792,19 +792,19 @@ protected:
         eindex = findex = 0;
         if ((fnow > enow) == (fnow > -enow)) {
             Q = enow;
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
         } else {
             Q = fnow;
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
         }
         hindex = 0;
         if ((eindex < elen) && (findex < flen)) {
             if ((fnow > enow) == (fnow > -enow)) {
                 Fast_Two_Sum(enow, Q, Qnew, hh);
-                enow = e[++eindex];
+                if (++eindex < elen) enow = e[eindex];
             } else {
                 Fast_Two_Sum(fnow, Q, Qnew, hh);
-                fnow = f[++findex];
+                if (++findex < flen) fnow = f[findex];
             }
             Q = Qnew;
             if (hh != 0.0) {
@@ -813,10 +813,10 @@ protected:
             while ((eindex < elen) && (findex < flen)) {
                 if ((fnow > enow) == (fnow > -enow)) {
                     Two_Sum(Q, enow, Qnew, hh);
-                    enow = e[++eindex];
+                    if (++eindex < elen) enow = e[eindex];
                 } else {
                     Two_Sum(Q, fnow, Qnew, hh);
-                    fnow = f[++findex];
+                    if (++findex < flen) fnow = f[findex];
                 }
                 Q = Qnew;
                 if (hh != 0.0) {
@@ -826,7 +826,7 @@ protected:
         }
         while (eindex < elen) {
             Two_Sum(Q, enow, Qnew, hh);
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
             Q = Qnew;
             if (hh != 0.0) {
                 h[hindex++] = hh;
@@ -834,7 +834,7 @@ protected:
         }
         while (findex < flen) {
             Two_Sum(Q, fnow, Qnew, hh);
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
             Q = Qnew;
             if (hh != 0.0) {
                 h[hindex++] = hh;
@@ -874,28 +874,28 @@ protected:
         eindex = findex = 0;
         if ((fnow > enow) == (fnow > -enow)) {
             g0 = enow;
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
         } else {
             g0 = fnow;
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
         }
         if ((eindex < elen) && ((findex >= flen)
                                 || ((fnow > enow) == (fnow > -enow)))) {
             Fast_Two_Sum(enow, g0, Qnew, q);
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
         } else {
             Fast_Two_Sum(fnow, g0, Qnew, q);
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
         }
         Q = Qnew;
         for (hindex = 0; hindex < elen + flen - 2; hindex++) {
             if ((eindex < elen) && ((findex >= flen)
                                     || ((fnow > enow) == (fnow > -enow)))) {
                 Fast_Two_Sum(enow, q, R, h[hindex]);
-                enow = e[++eindex];
+                if (++eindex < elen) enow = e[eindex];
             } else {
                 Fast_Two_Sum(fnow, q, R, h[hindex]);
-                fnow = f[++findex];
+                if (++findex < flen) fnow = f[findex];
             }
             Two_Sum(Q, R, Qnew, q);
             Q = Qnew;
@@ -937,28 +937,28 @@ protected:
         hindex = 0;
         if ((fnow > enow) == (fnow > -enow)) {
             g0 = enow;
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
         } else {
             g0 = fnow;
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
         }
         if ((eindex < elen) && ((findex >= flen)
                                 || ((fnow > enow) == (fnow > -enow)))) {
             Fast_Two_Sum(enow, g0, Qnew, q);
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
         } else {
             Fast_Two_Sum(fnow, g0, Qnew, q);
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
         }
         Q = Qnew;
         for (count = 2; count < elen + flen; count++) {
             if ((eindex < elen) && ((findex >= flen)
                                     || ((fnow > enow) == (fnow > -enow)))) {
                 Fast_Two_Sum(enow, q, R, hh);
-                enow = e[++eindex];
+                if (++eindex < elen) enow = e[eindex];
             } else {
                 Fast_Two_Sum(fnow, q, R, hh);
-                fnow = f[++findex];
+                if (++findex < flen) fnow = f[findex];
             }
             Two_Sum(Q, R, Qnew, q);
             Q = Qnew;
-- 
2.43.0


From 2269ee98106d41204fec97c0d3a39f4ce192322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:31 +0000
Subject: [PATCH 18/45] fix: expansion_sum_zeroelim2 drops a zero top component

---
 src/utils/Predicates.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/Predicates.cpp b/src/utils/Predicates.cpp
index 26d9120..5e5307e 100644
--- a/src/utils/Predicates.cpp
+++ b/src/utils/Predicates.cpp
@@ -671,8 +671,10 @@ protected:
                 h[hindex++] = hh;
             }
         }
-        h[hindex] = Q;
-        hlast = hindex;
+        if ((Q != 0.0) || (hindex == 0)) {
+            h[hindex++] = Q;
+        }
+        hlast = hindex - 1;
         for (findex = 1; findex < flen; findex++) {
             hindex = 0;
             Q = f[findex];
@@ -684,8 +686,10 @@ protected:
                     h[hindex++] = hh;
                 }
             }
-            h[hindex] = Q;
-            hlast = hindex;
+            if ((Q != 0.0) || (hindex == 0)) {
+                h[hindex++] = Q;
+            }
+            hlast = hindex - 1;
         }
         return hlast + 1;
     }
-- 
2.43.0


From 383768cf1ce4b2efe469ff6e6d325611a2111bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:44 +0000
Subject: [PATCH 19/45] fix: inSimplex accepts points on the boundary
 regardless of rounding

---
 src/lib/Geometry.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 884adfa..250f7eb 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -124,13 +124,14 @@ public:
          * */
 
         // Compute barycentric coordinates
-        auto invDenom = Precision(1) / (v1v2 * v1v2 - v1v1 * v2v2);
+        // scaled by the (positive) denominator, a division would round points on the boundary to the outside
+        auto denom = v1v1 * v2v2 - v1v2 * v1v2;
 
-        auto u = -(( v1vp * v2v2 - v1v2 * v2vp) * invDenom);
-        auto v = -((-v1v2 * v1vp + v1v1 * v2vp) * invDenom);
+        auto u =  v1vp * v2v2 - v1v2 * v2vp;
+        auto v = -v1v2 * v1vp + v1v1 * v2vp;
 
         // Check if point is in triangle
-        return (u >= 0) && (v >= 0) && (u + v <= 1);
+        return (denom > 0) && (u >= 0) && (v >= 0) && (u + v <= denom);
 
     }
 
@@ -323,14 +324,15 @@ public:
          * */
 
         // Compute barycentric coordinates
-        auto invDenom = Precision(1) / (v1v3 * v1v3 * v2v2 - 2 * v1v2 * v1v3 * v2v3 + v1v1 * v2v3 * v2v3 + v1v2 * v1v2 * v3v3 - v1v1 * v2v2 * v3v3);
+        // scaled by the (positive) denominator, a division would round points on the boundary to the outside
+        auto denom = -(v1v3 * v1v3 * v2v2 - 2 * v1v2 * v1v3 * v2v3 + v1v1 * v2v3 * v2v3 + v1v2 * v1v2 * v3v3 - v1v1 * v2v2 * v3v3);
 
-        auto u = -((-v1vp * v2v3 * v2v3 + v1v3 * v2v3 * v2vp + v1vp * v2v2 * v3v3 - v1v2 * v2vp * v3v3 - v1v3 * v2v2 * v3vp + v1v2 * v2v3 * v3vp) * invDenom);
-        auto v = -(( v1v3 * v1vp * v2v3 - v1v3 * v1v3 * v2vp - v1v2 * v1vp * v3v3 + v1v1 * v2vp * v3v3 + v1v2 * v1v3 * v3vp - v1v1 * v2v3 * v3vp) * invDenom);
-        auto z = -((-v1v3 * v1vp * v2v2 + v1v2 * v1vp * v2v3 + v1v2 * v1v3 * v2vp - v1v1 * v2v3 * v2vp - v1v2 * v1v2 * v3vp + v1v1 * v2v2 * v3vp) * invDenom);
+        auto u = (-v1vp * v2v3 * v2v3 + v1v3 * v2v3 * v2vp + v1vp * v2v2 * v3v3 - v1v2 * v2vp * v3v3 - v1v3 * v2v2 * v3vp + v1v2 * v2v3 * v3vp);
+        auto v = ( v1v3 * v1vp * v2v3 - v1v3 * v1v3 * v2vp - v1v2 * v1vp * v3v3 + v1v1 * v2vp * v3v3 + v1v2 * v1v3 * v3vp - v1v1 * v2v3 * v3vp);
+        auto z = (-v1v3 * v1vp * v2v2 + v1v2 * v1vp * v2v3 + v1v2 * v1v3 * v2vp - v1v1 * v2v3 * v2vp - v1v2 * v1v2 * v3vp + v1v1 * v2v2 * v3vp);
 
         // Check if point is in triangle
-        return (u >= 0) && (v >= 0) && (z >= 0) && (u + v + z <= 1);
+        return (denom > 0) && (u >= 0) && (v >= 0) && (z >= 0) && (u + v + z <= denom);
 
     }
 
-- 
2.43.0


From 941c73133b0dcc92dc7c43932bd47e7c9adac882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:44 +0000
Subject: [PATCH 20/45] fix: sqDistanceToFace returns the squared distance

---
 src/lib/Geometry.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 250f7eb..d1eaea1 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -143,7 +143,9 @@ public:
 
         auto n = dVector<2, Precision>({ v[1], -v[0] });
 
-        return std::abs(dot(n,r) / dot(n, n));
+        auto d = dot(n, r);
+
+        return d * d / dot(n, n);
     }
 
     static bool inSphere(const dPoint<2, Precision> &p,
@@ -347,7 +349,9 @@ public:
                                          (u[2] * v[0] - u[0] * v[2]),
                                          (u[0] * v[1] - u[1] * v[0]) });
 
-        return std::abs(dot(w,n) / dot(n,n));
+        auto d = dot(w, n);
+
+        return d * d / dot(n, n);
     }
 
     static bool inSphere(const dPoint<3, Precision> &p,
-- 
2.43.0


From b8e527c81a2ccb3e7e18d3ad5b26a831de6c02fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:27 +0000
Subject: [PATCH 21/45] fix: verify does not require the reserved point id to
 be used

---
 src/lib/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index d1eaea1..fed1280 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -933,7 +933,7 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                 }
             }
         } else {
-            for (std::size_t i = 0; i < points.finite_size(); ++i) {
+            for (tIdType i = points.offset() + 1; i < points.offset() + points.finite_size(); ++i) { // zero is reserved
                 const auto &p = points[i];
                 if (usedPoints.count(i) != 1 && dPoint<D, Precision>::isFinite(i)) {
                     sNotUsed << i << " - " << p << " ";
-- 
2.43.0


From cc07e3219f0e85532aabef4c6f58c2f4ea1a6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:27 +0000
Subject: [PATCH 22/45] fix: verify against a given id set even if all points
 are used

---
 src/lib/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index fed1280..eb17ebe 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -920,7 +920,7 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
     for (const auto &s : *this) {
         usedPoints.insert(s.vertices.begin(), s.vertices.end());
     }
-    if (points != usedPoints) {
+    if (pointIds || points != usedPoints) {
         // not all points of input used
         std::stringstream sNotUsed;
 
-- 
2.43.0


From 9710ed43ec6b2b1548b7d758aab0a3158bddb9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:27 +0000
Subject: [PATCH 23/45] fix: verify rejects links to missing or non-adjacent
 simplices

---
 src/lib/Geometry.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index eb17ebe..ae41bfc 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -1064,6 +1064,17 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
 
         for (const auto &a : r) {
 
+            // every finite link must lead to an existing adjacent simplex
+            for (const auto &n : a.neighbors) {
+                if (dSimplex<D, Precision>::isFinite(n) &&
+                    (n == a.id || !thisHandle.contains(n) || !a.isNeighbor(thisHandle.at(n)))) {
+
+                    tbb::spin_mutex::scoped_lock lock(mtx);
+                    LOG("Wrong neighbor " << n << " of " << a << std::endl);
+                    result.valid = false;
+                }
+            }
+
             // we already verified that the face where-used data structure is correct
             // we can use it to verify the neighbor relation
             for (uint i = 0; i < D + 1; ++i) {
@@ -1113,7 +1124,7 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
             // we check for all neighbors whether the NOT shared point is in the circle
 
             for (const auto &n : s.neighbors) {
-                if (!dSimplex<D, Precision>::isFinite(n))
+                if (!dSimplex<D, Precision>::isFinite(n) || !thisHandle.contains(n))
                     continue;
 
                 const dSimplex<D, Precision> &nn = thisHandle.at(n);
-- 
2.43.0


From 30fd5f24444fdaa9e1bdb2a399144d9cc52fa977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:00 +0000
Subject: [PATCH 24/45] hook: base case cutoff can be set for verification
 builds

---
 include/DCTriangulator.h             | 4 ++++
 include/LoadBalancedDCTriangulator.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/DCTriangulator.h b/include/DCTriangulator.h
index f5d6cf2..42f54e2 100644
--- a/include/DCTriangulator.h
+++ b/include/DCTriangulator.h
@@ -79,5 +79,9 @@ protected:
 
 public:
     static constexpr Precision SAFETY = 100;
+#ifdef PDT_VERIF_BASE_CUTOFF
+    static constexpr uint BASE_CUTOFF = PDT_VERIF_BASE_CUTOFF;
+#else
     static constexpr uint BASE_CUTOFF = 500;
+#endif
 };
diff --git a/include/LoadBalancedDCTriangulator.h b/include/LoadBalancedDCTriangulator.h
index 254a079..e41db01 100644
--- a/include/LoadBalancedDCTriangulator.h
+++ b/include/LoadBalancedDCTriangulator.h
@@ -98,7 +98,11 @@ namespace LoadBalancing
 
     public:
         static constexpr Precision SAFETY = 100;
+#ifdef PDT_VERIF_BASE_CUTOFF
+        static constexpr uint BASE_CUTOFF = PDT_VERIF_BASE_CUTOFF;
+#else
         static constexpr uint BASE_CUTOFF = 5000;
+#endif
         static constexpr uint PARALLEL_THRESHOLD = 50000;
     };
 }
-- 
2.43.0


From 4287de7ee645841359864e60e38e94d4e79a2da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:51 +0000
Subject: [PATCH 25/45] fix: infinite points surround the data wherever it lies

---
 include/LoadBalancedDCTriangulator.tpp | 2 +-
 src/lib/DCTriangulator.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index e73b28e..9adb3b8 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -88,7 +88,7 @@ namespace LoadBalancing
                 p.coords = stats.mid;
 
                 for (uint d = 0; d < D; ++d)
-                    p.coords[d] =
+                    p.coords[d] +=
                             (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
 
                 this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index 6905f0e..9bd87ce 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -78,7 +78,7 @@ DCTriangulator<D, Precision>::DCTriangulator(
             p.coords = stats.mid;
 
             for (uint d = 0; d < D; ++d)
-                p.coords[d] =
+                p.coords[d] +=
                         (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
 
             this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
-- 
2.43.0


From aee57d270fc68423e8728fb2c7b35e14f46c5549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:48 +0000
Subject: [PATCH 26/45] fix: cell tree region reaches past points on a cell
 border

---
 include/datastructures/AABBTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/AABBTree.h b/include/datastructures/AABBTree.h
index 32adbc7..66cd80b 100644
--- a/include/datastructures/AABBTree.h
+++ b/include/datastructures/AABBTree.h
@@ -249,7 +249,8 @@ private:
         // round bounds to cell size
         for(uint d = 0; d < D; ++d){
             bounds.low[d] = std::floor(bounds.low[d] / cell_size) * cell_size;
-            bounds.high[d] = std::ceil(bounds.high[d] / cell_size) * cell_size;
+            // the cell of a point on a cell border lies above that border
+            bounds.high[d] = (std::floor(bounds.high[d] / cell_size) + 1) * cell_size;
         }
 
         return bounds;
-- 
2.43.0


From bd85bec1effa912aed765748fda7214d0af9fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:47 +0000
Subject: [PATCH 27/45] fix: partition makers write their flags without sharing
 words

---
 include/load_balancing/BoundsIntersectionChecker.h | 2 +-
 include/load_balancing/GridIntersectionChecker.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/BoundsIntersectionChecker.h b/include/load_balancing/BoundsIntersectionChecker.h
index 75f31d0..3f80657 100644
--- a/include/load_balancing/BoundsIntersectionChecker.h
+++ b/include/load_balancing/BoundsIntersectionChecker.h
@@ -58,7 +58,7 @@ namespace LoadBalancing
 				idss.emplace_back(std::move(ids.data()));
 			}
 			std::vector<dBox<D, Precision>> boundss(partitions);
-			std::vector<bool> initialized(partitions);
+			std::vector<char> initialized(partitions); // no vector<bool>: written concurrently
 			
 			tbb::parallel_for(size_t(0), partitions, [&](auto partition) {
 			    for(auto id : idss[partition]) {
diff --git a/include/load_balancing/GridIntersectionChecker.h b/include/load_balancing/GridIntersectionChecker.h
index d1d1988..41cbc2a 100644
--- a/include/load_balancing/GridIntersectionChecker.h
+++ b/include/load_balancing/GridIntersectionChecker.h
@@ -124,7 +124,7 @@ namespace LoadBalancing
 				idss.emplace_back(std::move(ids.data()));
 			}
 			std::vector<dBox<D, Precision>> boundss(partitions);
-			std::vector<bool> initialized(partitions);
+			std::vector<char> initialized(partitions); // no vector<bool>: written concurrently
 			std::vector<std::unordered_set<dIndex<D, IndexPrecision>,
 				dIndexHasher<D, IndexPrecision>>> indices(partitions);
 			
-- 
2.43.0


From 46dd83d6c5d6f4ee4685e646bc0d123f48dc0340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:06 +0000
Subject: [PATCH 28/45] fix: partition trees can be assigned

---
 include/load_balancing/PartitionTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/load_balancing/PartitionTree.h b/include/load_balancing/PartitionTree.h
index 1536757..b9a45dd 100644
--- a/include/load_balancing/PartitionTree.h
+++ b/include/load_balancing/PartitionTree.h
@@ -30,8 +30,9 @@ namespace LoadBalancing
 
 		PartitionTree& operator=(const PartitionTree& rhs)
 		{
-			intersectionChecker = rhs.intersectionChecker.copy();
+			intersectionChecker = rhs.intersectionChecker->copy();
 			attachment = rhs.attachment;
+			return *this;
 		}
 
 		PartitionTree& operator=(PartitionTree&&) = default;
-- 
2.43.0


From 0b59aac56bbb8c5a37088841ac73dcd7c708d15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:07 +0000
Subject: [PATCH 29/45] fix: infinite points do not displace finite ones from a
 sample

---
 include/load_balancing/sample_partitioner/Sampler.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/Sampler.h b/include/load_balancing/sample_partitioner/Sampler.h
index c07ad68..76ba8be 100644
--- a/include/load_balancing/sample_partitioner/Sampler.h
+++ b/include/load_balancing/sample_partitioner/Sampler.h
@@ -159,14 +159,14 @@ namespace LoadBalancing
         template <typename Generator_t>
         Point_Ids generateSample(size_t sampleSize, const Point_Ids& pointIds, Generator_t& rand) {
 			VTUNE_TASK(GenerateSample);
+            std::vector<tIdType> finiteIds;
+            for(auto id : pointIds) {
+                if(dPoint<D, Precision>::isFinite(id))
+                    finiteIds.push_back(id);
+            }
             std::vector<tIdType> resultIds;
-            std::sample(pointIds.begin(), pointIds.end(), std::back_inserter(resultIds),
+            std::sample(finiteIds.begin(), finiteIds.end(), std::back_inserter(resultIds),
                         sampleSize, rand);
-            resultIds.erase(std::remove_if(resultIds.begin(), resultIds.end(), [](tIdType id){
-                return !dPoint<D, Precision>::isFinite(id);
-                
-            }),
-            resultIds.end());
             Point_Ids result;
             for(auto id : resultIds) {
 	            result.insert(id);
-- 
2.43.0


From bf02c709fa6c07d672fc9977fc413bda11f137a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:07 +0000
Subject: [PATCH 30/45] fix: building the sample graph does not insert into the
 shared id map

---
 include/load_balancing/sample_partitioner/Sampler.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/Sampler.h b/include/load_balancing/sample_partitioner/Sampler.h
index 76ba8be..eafc6e2 100644
--- a/include/load_balancing/sample_partitioner/Sampler.h
+++ b/include/load_balancing/sample_partitioner/Sampler.h
@@ -268,11 +268,11 @@ namespace LoadBalancing
             std::vector<std::vector<std::pair<size_t, int>>> adjacencyList(idTranslation.size());
             for(auto simplex : simplices) {
                 for(auto pointId : simplex.vertices) {
-                    auto i = idTranslation[pointId];
                     if(dPoint<D, Precision>::isFinite(pointId)) {
+                        auto i = idTranslation.at(pointId);
                         for(auto id : simplex.vertices){
-                            auto j = idTranslation[id];
-                            if(dPoint<D, Precision>::isFinite(id) && i != j) {
+                            if(dPoint<D, Precision>::isFinite(id) && id != pointId) {
+                                auto j = idTranslation.at(id);
                                 const Precision distSquared =
                                         lenSquared(samplePoints[pointId].coords - samplePoints[id].coords);
                                 const Precision normalizedDistSquared = distSquared / maxDistSquared;
@@ -329,11 +329,11 @@ namespace LoadBalancing
                 for (auto it = r.begin(); it < r.end(); ++it) {
                     auto &simplex = *it;
                     for(auto pointId : simplex.vertices) {
-                        auto i = idTranslation[pointId];
                         if(dPoint<D, Precision>::isFinite(pointId)) {
+                            auto i = idTranslation.at(pointId);
                             for(auto id : simplex.vertices){
-                                auto j = idTranslation[id];
-                                if(dPoint<D, Precision>::isFinite(id) && i != j) {
+                                if(dPoint<D, Precision>::isFinite(id) && id != pointId) {
+                                    auto j = idTranslation.at(id);
                                     const Precision distSquared =
                                             lenSquared(samplePoints[pointId].coords - samplePoints[id].coords);
                                     const Precision normalizedDistSquared = distSquared / maxDistSquared;
-- 
2.43.0


From 104e434fd0311ed4947288c4553cc592a6178f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:07 +0000
Subject: [PATCH 31/45] fix: edge weights keep the fraction of their scale

---
 include/load_balancing/sample_partitioner/Sampler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/sample_partitioner/Sampler.h b/include/load_balancing/sample_partitioner/Sampler.h
index eafc6e2..8ce5d84 100644
--- a/include/load_balancing/sample_partitioner/Sampler.h
+++ b/include/load_balancing/sample_partitioner/Sampler.h
@@ -36,7 +36,7 @@ namespace LoadBalancing
 	private:
 		const In minIn, maxIn;
 		const Out minOut, maxOut;
-		const Out scale;
+		const In scale;
 	};
 	
     struct Graph {
-- 
2.43.0


From 1de7f48a43b4ad6c6b1d622faf1069fda271bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:07 +0000
Subject: [PATCH 32/45] fix: k-way split of points that share a coordinate

---
 include/load_balancing/kWaySplitter.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/load_balancing/kWaySplitter.h b/include/load_balancing/kWaySplitter.h
index 19d62bc..259790e 100644
--- a/include/load_balancing/kWaySplitter.h
+++ b/include/load_balancing/kWaySplitter.h
@@ -55,8 +55,8 @@ namespace LoadBalancing
 
 			if(depth < splits.size()) { 
 				size_t dim = depth % D;
-				float min = stats.min[dim];
-				float max = stats.max[dim];
+				const Precision min = stats.min[dim];
+				const Precision extent = stats.max[dim] - min;
 				size_t numPartitions = splits[depth];
                 
                 std::vector<Concurrent_Growing_Point_Ids> idsets;
@@ -72,9 +72,8 @@ namespace LoadBalancing
                     for(auto id : range) {
                         if(dPoint<D, Precision>::isFinite(id)) {
                             auto coord = points[id].coords[dim];
-                            float normalizedAxisPosition = (coord - min)/(max - min);
-                            int partition = (size_t)std::floor(normalizedAxisPosition
-                                                               * numPartitions);
+                            int partition = extent > 0 ? std::floor((coord - min)/extent
+                                                                    * numPartitions) : 0;
                             partition = std::clamp(partition, 0, (int)numPartitions - 1);
                             
                             Handle tsPointHandle = std::ref(idsets[partition]);
-- 
2.43.0


From 728ff9b5b50e74ba6c219cb6847c9c06e511f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:59 +0000
Subject: [PATCH 33/45] fix: the bounding box of no points is empty

---
 include/load_balancing/BoxUtils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/load_balancing/BoxUtils.h b/include/load_balancing/BoxUtils.h
index 5e7674a..6773a1a 100644
--- a/include/load_balancing/BoxUtils.h
+++ b/include/load_balancing/BoxUtils.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cassert>
+#include <limits>
 #include "Geometry.h"
 #include "load_balancing/VectorOperations.h"
 
@@ -51,6 +52,8 @@ namespace LoadBalancing
         using Precision = typename It::value_type::value_type;
         
         dBox<D, Precision> result;
+        result.low.fill(std::numeric_limits<Precision>::max());
+        result.high.fill(std::numeric_limits<Precision>::lowest());
         if(vbegin != vend){
             result.low = *vbegin++;
             result.high = result.low;
-- 
2.43.0


From b458e9ec3bbffbeff94d1eaa5dd316f499f2f157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:33 +0000
Subject: [PATCH 34/45] hook: grain size of ranges can be set for verification
 (PDT_VERIF_GRAINSIZE)

---
 include/datastructures/LP_Set.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index fb92af4..a219f5c 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -214,7 +214,11 @@ namespace _detail {
         }
 
         //! Init range with container and grainsize specified
+#ifdef PDT_VERIF_GRAINSIZE // verification hook: small ranges are divided too
+        range_type(Container &cont, const std::size_t &grainsize = PDT_VERIF_GRAINSIZE) :
+#else
         range_type(Container &cont, const std::size_t &grainsize = 1e3) :
+#endif
                 m_container(cont),
                 m_begin(cont.begin()),
                 m_end(cont.end()),
-- 
2.43.0


From 8050987d4cc066c738bd884252b115adf9f91a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:57 +0000
Subject: [PATCH 35/45] fix: hash tables can be created by several threads at
 once

---
 include/datastructures/LP_Set.hxx | 1 +
 include/utils/Random.h            | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index a219f5c..a12b6b4 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -28,6 +28,7 @@ struct Hasher {
 
     Hasher() {
         std::uniform_int_distribution<T> dist(std::numeric_limits<T>::min(), std::numeric_limits<T>::max());
+        std::lock_guard<std::mutex> lock(startGenMutex);
         while (a = dist(startGen), a % 2 == 0) { } // find odd value
     }
 
diff --git a/include/utils/Random.h b/include/utils/Random.h
index 841dc52..227f221 100644
--- a/include/utils/Random.h
+++ b/include/utils/Random.h
@@ -7,6 +7,7 @@
 
 #pragma once
 
+#include <mutex>
 #include <random>
 #include <sstream>
 #include <functional>
@@ -16,6 +17,7 @@
 const uint START_SEED = 1986;
 typedef std::mt19937 tGenerator;
 extern tGenerator startGen;
+inline std::mutex startGenMutex; // guards startGen where several threads draw from it
 
 /* Prototype
  * std::uniform_int_distribution<uint> distribution(0,100);
-- 
2.43.0


From 20b0876bb0fb97584f35ad2e83c945cb2cdad394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:47 +0000
Subject: [PATCH 36/45] fix: assigning a partition tree copies its points

---
 include/load_balancing/PartitionTree.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/load_balancing/PartitionTree.h b/include/load_balancing/PartitionTree.h
index b9a45dd..7b65cc1 100644
--- a/include/load_balancing/PartitionTree.h
+++ b/include/load_balancing/PartitionTree.h
@@ -30,9 +30,7 @@ namespace LoadBalancing
 
 		PartitionTree& operator=(const PartitionTree& rhs)
 		{
-			intersectionChecker = rhs.intersectionChecker->copy();
-			attachment = rhs.attachment;
-			return *this;
+			return *this = PartitionTree(rhs);
 		}
 
 		PartitionTree& operator=(PartitionTree&&) = default;
-- 
2.43.0


From ddff5de1e398a9df7f42c078dd1bd3476bb9318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:01 +0000
Subject: [PATCH 37/45] fix: the nearest-sample bipartitioner gives every tree
 node a region

---
 .../NearestSamplePointAssigningSampleBipartitioner.h          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h b/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
index 9a721f8..f29f4f1 100644
--- a/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
+++ b/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
@@ -84,10 +84,10 @@ namespace LoadBalancing
 				result.attachment = typename decltype(tree)::ChildContainer {
 					std::move(leftTree), std::move(rightTree)};
 			} else {
-				result.intersectionChecker =
-					std::make_unique<BoundsIntersectionChecker<D, Precision>>(bounds);
 				result.attachment = pointIds;
 			}
+			result.intersectionChecker =
+				std::make_unique<BoundsIntersectionChecker<D, Precision>>(bounds);
 			return result;
 		}
          
-- 
2.43.0


From 17faf82e6b9b607e2bf49efd0a44b1c824849571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:14 +0000
Subject: [PATCH 38/45] fix: numbers are an optional sign and digits, not any
 leading character

---
 include/utils/StringUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/StringUtils.h b/include/utils/StringUtils.h
index 1b0d998..86f4369 100644
--- a/include/utils/StringUtils.h
+++ b/include/utils/StringUtils.h
@@ -7,11 +7,11 @@
 bool is_int(const std::string & s){
     return !s.empty() &&
            ((s.size() == 1 && std::isdigit(s[0]))
-           || std::regex_match(s, std::regex("[(-|+)|][0-9]+")));
+           || std::regex_match(s, std::regex("[-+]?[0-9]+")));
 }
 
 bool is_float(const std::string & s){
     return !s.empty() && (
            (s.size() == 1 && std::isdigit(s[0]))
-           || std::regex_match(s, std::regex("[(-|+)|](([1-9][0-9]*\\.?[0-9]*)|(\\.[0-9]+))([Ee][+-]?[0-9]+)?")));
+           || std::regex_match(s, std::regex("[-+]?(([0-9]+\\.?[0-9]*)|(\\.[0-9]+))([Ee][-+]?[0-9]+)?")));
 }
\ No newline at end of file
-- 
2.43.0


From bc7fa079f5b0c7dee1747ba90844bbc482969444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:14 +0000
Subject: [PATCH 39/45] fix: records with empty trait values are parsed

---
 src/utils/Timings.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/Timings.cpp b/src/utils/Timings.cpp
index 5066629..4625b79 100644
--- a/src/utils/Timings.cpp
+++ b/src/utils/Timings.cpp
@@ -25,7 +25,11 @@ ExperimentRun::ExperimentRun(const std::string &run, std::string _traitSep, std:
 
     while (currPos < run.length()) {
         innerSep = run.find(_innerSep, currPos);
-        traitSep = run.find(_traitSep, currPos);
+        if (innerSep == std::string::npos)
+            break; // no further trait
+
+        // the value starts after the inner separator
+        traitSep = run.find(_traitSep, innerSep + _innerSep.length());
 
         //we have the last trait in the string
         traitSep = traitSep != std::string::npos ? traitSep : run.length() + 1;
-- 
2.43.0


From af3e90253200e76bbb7380bbb80374aa9e87d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:14 +0000
Subject: [PATCH 40/45] fix: equality of experiment records does not count
 ignored fields

---
 src/utils/Timings.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils/Timings.cpp b/src/utils/Timings.cpp
index 4625b79..bb0f920 100644
--- a/src/utils/Timings.cpp
+++ b/src/utils/Timings.cpp
@@ -80,7 +80,13 @@ ExperimentRun::tMeasurement ExperimentRun::avgMeasurement(const std::string &nam
 
 bool ExperimentRun::operator==(const ExperimentRun &o) const {
 
-    if (m_traits.size() != o.m_traits.size())
+    // ignored fields do not count
+    const auto ignored = [](const std::pair<const std::string, std::string> &t) {
+        return std::find(c_ignored_fields.begin(), c_ignored_fields.end(), t.first) != c_ignored_fields.end();
+    };
+
+    if (m_traits.size() - std::count_if(m_traits.begin(), m_traits.end(), ignored) !=
+        o.m_traits.size() - std::count_if(o.m_traits.begin(), o.m_traits.end(), ignored))
         return false;
 
     bool eq = true;
-- 
2.43.0


From d0e071dc43439d036541d1e94531a40c911d3c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:16 +0000
Subject: [PATCH 41/45] fix: the bubble generator makes as many points as
 requested

---
 include/utils/Generator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index b71252d..2ec7307 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -161,7 +161,10 @@ protected:
                 span[d] -= bubble.low[d];
             }
 
-            for (tIdType i = b*ppB + 1; i <= (b+1)*ppB; ++i) {
+            // the last bubble takes the points left over
+            const tIdType last = b + 1 < bubbles.size() ? (b+1)*ppB : n;
+
+            for (tIdType i = b*ppB + 1; i <= last; ++i) {
                 dPoint<D, Precision> p;
 
                 do {
-- 
2.43.0


From e65ff73dd783ff672f9e11e91c2690f895dd9cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:16 +0000
Subject: [PATCH 42/45] fix: the ellipsoid generator does not divide by a zero
 radius

---
 include/utils/Generator.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index 2ec7307..8739205 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -214,11 +214,14 @@ protected:
             dPoint<D, Precision> p;
 
             //normal distributed point around origin
-            Precision r = 0; //radius
-            for (uint d = 0; d < D; ++d) {
-                p.coords[d] = dice();
-                r += p.coords[d] * p.coords[d];
-            }
+            Precision r; //radius
+            do {
+                r = 0;
+                for (uint d = 0; d < D; ++d) {
+                    p.coords[d] = dice();
+                    r += p.coords[d] * p.coords[d];
+                }
+            } while (r == 0); // the origin has no direction
 
             r = std::sqrt(r);
 
-- 
2.43.0


From 9763183c5c15aa53a476716f6b38002c1560e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:16 +0000
Subject: [PATCH 43/45] fix: the skew line generator makes as many points as
 requested

---
 include/utils/Generator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index 8739205..4faa61b 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -280,7 +280,7 @@ protected:
         // a is skewed
         // b crosses the opposite corner
 
-        for (tIdType i = 1; i < n; i += 2) {
+        for (tIdType i = 1; i <= n; i += 2) {
             dPoint<D, Precision> p1, p2;
 
             Precision r = dice();
@@ -292,7 +292,8 @@ protected:
 
 
             points[i] = std::move(p1);
-            points[i + 1] = std::move(p2);
+            if (i + 1 <= n)
+                points[i + 1] = std::move(p2);
         }
 
         // TODO checks for colliding points, straight lines, etc.
-- 
2.43.0


From 3540c3a0fee1b08ffe9ea430265239b63d4f9664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:16 +0000
Subject: [PATCH 44/45] fix: bubble generators leave the reserved id alone and
 fill the last one

---
 include/load_balancing/MaliciousBubbleGenerator.h | 2 +-
 include/load_balancing/UnboundBubbleGenerator.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/MaliciousBubbleGenerator.h b/include/load_balancing/MaliciousBubbleGenerator.h
index 15b1186..7f37bd1 100644
--- a/include/load_balancing/MaliciousBubbleGenerator.h
+++ b/include/load_balancing/MaliciousBubbleGenerator.h
@@ -43,7 +43,7 @@ protected:
                 });
                 coords = coords * radius + center;
             } while(!bounds.contains(coords));            
-            points[i] = coords;
+            points[i + 1] = coords;
         }
     }
     
diff --git a/include/load_balancing/UnboundBubbleGenerator.h b/include/load_balancing/UnboundBubbleGenerator.h
index 6c274c0..aaf4c28 100644
--- a/include/load_balancing/UnboundBubbleGenerator.h
+++ b/include/load_balancing/UnboundBubbleGenerator.h
@@ -61,7 +61,7 @@ protected:
                 return pointDist(gen);
             });
             
-            points[i] = bubbleCenters[centerIndex] + coords;
+            points[i + 1] = bubbleCenters[centerIndex] + coords;
         }
     }
 };
-- 
2.43.0


From 98b8bedb4ec2a82b4a4028b476c9e1e4c3d08db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:15 +0000
Subject: [PATCH 45/45] fix: accurate grid checkers do not refer to a point set
 that may be gone

---
 .../load_balancing/AccurateGridIntersectionChecker.h   | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/load_balancing/AccurateGridIntersectionChecker.h b/include/load_balancing/AccurateGridIntersectionChecker.h
index c6a878b..0838603 100644
--- a/include/load_balancing/AccurateGridIntersectionChecker.h
+++ b/include/load_balancing/AccurateGridIntersectionChecker.h
@@ -22,7 +22,6 @@ namespace LoadBalancing
 
 		private:
 		const dPoints<D, Precision>* points;
-		const Point_Ids* pointIds;
 		std::shared_ptr<CellsWithPoints> mCells;
 
 
@@ -41,11 +40,9 @@ namespace LoadBalancing
 
 		AccurateGridIntersectionChecker(GridIntersectionChecker<D, Precision> gic,
 		                                std::shared_ptr<CellsWithPoints> cells,
-		                                const dPoints<D, Precision>& points,
-		                                const Point_Ids& pointIds)
+		                                const dPoints<D, Precision>& points)
 			: GridIntersectionChecker<D, Precision>(std::move(gic)),
 			  points(&points),
-			  pointIds(&pointIds),
 			  mCells(std::move(cells)) { }
 		
 		virtual bool intersects(const dSphere<D, Precision>& sphere,
@@ -56,8 +53,7 @@ namespace LoadBalancing
 				auto it = mCells->find(cell);
 				assert(it != mCells->end());
 				for(tIdType pointId : it->second.pointIds) {
-					if(pointIds->contains(pointId)
-					   && checkCircumsphereContainsPoint((*points)[pointId], sphere, simplex))
+					if(checkCircumsphereContainsPoint((*points)[pointId], sphere, simplex))
 						return true;
 				}
 			}
@@ -140,7 +136,7 @@ namespace LoadBalancing
 					*(dynamic_cast<GIC*>(intersectionChecker.release()));
 				partition.intersectionChecker =
 					std::make_unique<AGIC>(std::move(gridIntersectionChecker),
-					                       cellsPtr, points, ids);
+					                       cellsPtr, points);
 			}
 
 			return gridIntersectionPartitioning;
-- 
2.43.0

